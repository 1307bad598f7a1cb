"""Property-based verification machinery for kcorrect (see /verif/DESIGN.md)."""
