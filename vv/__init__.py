"""Generated-input checks for COVESA/vss-tools (see /verif/DESIGN.md)."""
