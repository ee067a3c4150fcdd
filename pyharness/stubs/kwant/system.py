class FiniteSystem:
    pass


class InfiniteSystem:
    pass
