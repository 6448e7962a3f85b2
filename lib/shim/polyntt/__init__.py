"""Stand-in for the polyntt package (not installable offline): the ring
Z_q[x]/(x^n+1) with exact integer arithmetic, the interface pythonref uses."""
