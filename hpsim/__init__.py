"""Deterministic simulation of hyperpack."""
