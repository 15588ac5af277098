"""pyvc: contract-based deductive verification of (unmodified) Python source by path-wise VC generation."""
