"""symx - bounded symbolic execution of the real Pibronic functions, decided by z3."""
