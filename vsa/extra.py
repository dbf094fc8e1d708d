"""Syntax-tree / call-graph rules that complement the abstract interpretation."""
EXTRA = {}
