"""Stand-in for clingo.script."""


def enable_python():
    """Scripts are not supported."""
