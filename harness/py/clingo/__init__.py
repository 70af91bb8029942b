"""Stand-in for the clingo Python package."""
