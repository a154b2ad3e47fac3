"""Bech32 (BIP-173) and cash address checksums, from their specifications."""
CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
LOWER = 'abcdefghijklmnopqrstuvwxyz'
# printable characters without capitals (64 of them)
WORD = ''.join(chr(i) for i in list(range(33, 65)) + list(range(91, 123)))

BECH32 = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
CASH = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8,
        0x1e4f43e470)


def polymod(generators, width, values):
    """remainder of the polynomial with these coefficients"""
    c = 1
    for v in values:
        top = c >> (width - 5)
        c = ((c & ((1 << (width - 5)) - 1)) << 5) ^ v
        for i in range(5):
            c = c ^ (generators[i] if (top >> i) & 1 else 0)
    return c


def symbols(data):
    """bytes -> numbers of five bits, padded with zeros"""
    n = (8 * len(data) + 4) // 5
    x = int.from_bytes(data, 'big') << (5 * n - 8 * len(data))
    return [(x >> (5 * (n - 1 - i))) & 31 for i in range(n)]


def number(values):
    x = 0
    for v in values:
        x = (x << 5) | v
    return x


def text_of(values):
    return ''.join([CHARSET[v] for v in values])


def values_of(text):
    return [CHARSET.index(c) for c in text]


def checksum(generators, width, prefix, values):
    n = width // 5
    m = polymod(generators, width, prefix + values + [0] * n) ^ 1
    return [(m >> (5 * (n - 1 - i))) & 31 for i in range(n)]


def bech32_prefix(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def bech32_text(hrp, version, program):
    values = [version] + symbols(program)
    return hrp + '1' + text_of(values + checksum(
        BECH32, 30, bech32_prefix(hrp), values))


def bech32_good(hrp, values):
    return polymod(BECH32, 30, bech32_prefix(hrp) + values) == 1


def cash_prefix(prefix):
    return [ord(c) & 31 for c in prefix] + [0]


def cash_text(prefix, payload):
    values = symbols(payload)
    return prefix + ':' + text_of(values + checksum(
        CASH, 40, cash_prefix(prefix), values))


def cash_good(prefix, values):
    return polymod(CASH, 40, cash_prefix(prefix) + values) == 1


def regroup(values):
    """numbers of five bits -> (bytes, padding bits)"""
    n = len(values) * 5 // 8
    pad = len(values) * 5 - 8 * n
    x = number(values)
    return (x >> pad).to_bytes(n, 'big'), x & ((1 << pad) - 1), pad
