"""Deterministic simulation of qermit with fault injection."""
