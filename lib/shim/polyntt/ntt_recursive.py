from .ntt_iterative import NTTIterative


class NTTRecursive(NTTIterative):
    pass
