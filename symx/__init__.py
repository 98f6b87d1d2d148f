"""Symbolic execution of the real torchimage code (see /verif/DESIGN.md)."""
