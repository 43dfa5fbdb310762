"""Contents of free memory as a fault: whatever an earlier computation may have left
in memory that a later one allocates without clearing."""
import ctypes

import numpy as np

PATTERNS = (0x00, 0x3F, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xFF)
_libc = ctypes.CDLL(None)


def perturb(byte):
    """glibc fills every block it frees or hands out with (the complement of) byte."""
    return _libc.mallopt(-6, int(byte)) == 1


def dirty(byte):
    """Fill the free lists (numpy's small blocks too) with a byte pattern."""
    perturb(byte)
    keep = []
    for n in range(8, 1025, 8):
        keep += [np.full(n, byte, dtype=np.uint8) for _ in range(7)]
    for n in (2000, 3208, 5000, 8008, 16000, 40000, 120000):
        keep += [np.full(n, byte, dtype=np.uint8) for _ in range(6)]
    return len(keep)
