"""Static analysis of pjohansson/strata (see /verif/DESIGN.md)."""
