"""Property-based verification of jsons: see /verif/DESIGN.md."""
