"""Symbolic execution of real Python/numpy code, decided by z3.  See /verif/DESIGN.md."""
