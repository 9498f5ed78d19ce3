"""Abstract interpreter for the scaled code base (see ../DESIGN.md)."""
