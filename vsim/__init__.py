"""Deterministic simulator for mdp-toolkit (see DESIGN.md)."""
