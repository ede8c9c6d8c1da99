"""Deterministic simulation of ml4gw (see /verif/DESIGN.md)."""
