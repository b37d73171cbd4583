"""Static analysis of /repo: see /verif/DESIGN.md."""
