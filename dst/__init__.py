"""Deterministic simulation of DiscSolver with fault injection (see ../DESIGN.md)."""
