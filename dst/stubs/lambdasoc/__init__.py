"""Minimal stand-in for lambdasoc (see amaranth_soc stub)."""
