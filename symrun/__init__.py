"""symrun: solver-based symbolic execution of the real nilmtk code (z3)."""
