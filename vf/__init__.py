"""Property-based checks for torch_struct (see /verif/DESIGN.md)."""
