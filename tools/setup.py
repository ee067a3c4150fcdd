#!/usr/bin/env python3
"""Builds all harnesses once. The checks rebuild whatever is missing or changed themselves."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from targets import TARGETS
sys.exit(build.main(sorted(TARGETS)))
