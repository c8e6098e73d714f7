"""Bounded exhaustive model checking of knx-stack (see /verif/DESIGN.md)."""
