"""Symbolic execution of real (CPython + PyTorch) code with z3."""
