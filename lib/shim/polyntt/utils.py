def inv_mod(a, n):
    return pow(a, -1, n)
