"""Minimal stand-in for the ``amaranth_soc`` package (not installable offline).

TRUSTED STUB: only what sentinel and examples/attosoc.py import.
"""
