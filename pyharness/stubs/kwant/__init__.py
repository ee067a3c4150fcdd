"""Stand-in: kwant is not installed"""
