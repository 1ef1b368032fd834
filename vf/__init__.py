"""Runtime-monitoring framework for sudokutools (see /verif/DESIGN.md)."""
