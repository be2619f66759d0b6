"""Stand-in for matplotlib: remembers what was drawn, draws nothing."""
rcParams = {}


def use(*a, **k):
    pass
