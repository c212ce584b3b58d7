"""Deterministic simulation of HTTPolice and of the world it watches."""
