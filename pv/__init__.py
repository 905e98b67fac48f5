"""pv: a deductive verifier for the Python functions of psion (see DESIGN.md)."""
