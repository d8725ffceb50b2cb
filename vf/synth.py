"""The synthetic generators of harness/synth.h, and word/bit conversions."""
M = 0xffffffff


def mix(s, c):
    x = (s * 0x9E3779B9 + c * 0x85EBCA6B + 0x7F4A7C15) & M
    x ^= x >> 16
    x = x * 0x7FEB352D & M
    x ^= x >> 15
    x = x * 0x846CA68B & M
    x ^= x >> 16
    return x


def value(lo, hi, mode, s, c):
    span = hi - lo + 1
    if mode == 1:
        return lo + c % span
    if mode == 2:
        return hi
    if mode == 3:
        return lo
    if mode == 4:
        return hi if c & 1 else lo
    if mode == 5:
        return lo + mix(s, c // 7) % span
    return lo + mix(s, c) % span


def bits(v, n):
    """n bits of v, least significant first."""
    return [(v >> i) & 1 for i in range(n)]


def halves(v):
    """32-bit word as <<high 16 bits, low 16 bits>> (TLC integers are 32-bit signed)."""
    return [v >> 16, v & 0xffff]
