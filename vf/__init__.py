"""Property-based checks for binobj."""
