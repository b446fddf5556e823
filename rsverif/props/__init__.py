"""Property-based checks for resync/resync (see ../DESIGN.md)."""
