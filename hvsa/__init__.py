"""hvsa: static value-flow analysis of hypervehicle's Python source (never imports or runs it)."""
