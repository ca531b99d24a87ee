"""Deterministic simulation of django-denorm."""
