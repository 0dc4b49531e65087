"""Property-based checking machinery for oups (see /verif/DESIGN.md)."""
