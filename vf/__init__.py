"""Static value-flow analysis for torchrir (no execution of the analysed code)."""
