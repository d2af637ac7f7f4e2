#!/usr/bin/env python3
"""Writes props/pi_words.h: the fractional part of pi as 32-bit words (the Blowfish constants), computed here."""
import os
WORDS = 18 + 4 * 256
BITS = WORDS * 32 + 128


def arctan_inv(x):
    one = 1 << BITS
    total, term, n, sign = 0, one // x, 1, 1
    while term:
        total += sign * (term // n)
        term //= x * x
        n += 2
        sign = -sign
    return total


pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
frac = pi - (3 << BITS)
frac >>= 128
words = [(frac >> (32 * (WORDS - 1 - i))) & 0xffffffff for i in range(WORDS)]
assert words[0] == 0x243F6A88 and words[1] == 0x85A308D3
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "props", "pi_words.h")
with open(out, "w") as f:
    f.write("/* Fractional part of pi; written by tools/mkpi.py. */\nstatic const uint32_t pi_words[%d] = {\n" % WORDS)
    for i in range(0, WORDS, 8):
        f.write("\t" + ", ".join("0x%08X" % w for w in words[i:i + 8]) + ",\n")
    f.write("};\n")
