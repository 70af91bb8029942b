"""Stand-in for clingo.statistics."""


class StatisticsMap:
    def __init__(self, rep):
        self._rep = rep
