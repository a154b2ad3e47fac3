"""BLAKE-256 (14 rounds, no salt), written from the specification.

Independent of riemann.blake256.  Message words are given explicitly so that
the verifier can execute it over symbolic words as well.
"""

IV = (0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A,
      0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19)

PI = (0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344,
      0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
      0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C,
      0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917)

SIGMA = (
    (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15),
    (14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3),
    (11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4),
    (7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8),
    (9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13),
    (2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9),
    (12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11),
    (13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10),
    (6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5),
    (10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0))

QUARTERS = ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
            (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))

M32 = 0xffffffff


def ror(x, n):
    return (x >> n) | ((x << (32 - n)) & M32)


def compress(h, words, t):
    """one block: chaining value, 16 message words, bit counter"""
    v = list(h) + list(PI[:8])
    v[12] = v[12] ^ (t & M32)
    v[13] = v[13] ^ (t & M32)
    v[14] = v[14] ^ ((t >> 32) & M32)
    v[15] = v[15] ^ ((t >> 32) & M32)
    for r in range(14):
        s = SIGMA[r % 10]
        for i in range(8):
            a, b, c, d = QUARTERS[i]
            x = s[2 * i]
            y = s[2 * i + 1]
            v[a] = (v[a] + v[b] + (words[x] ^ PI[y])) & M32
            v[d] = ror(v[d] ^ v[a], 16)
            v[c] = (v[c] + v[d]) & M32
            v[b] = ror(v[b] ^ v[c], 12)
            v[a] = (v[a] + v[b] + (words[y] ^ PI[x])) & M32
            v[d] = ror(v[d] ^ v[a], 8)
            v[c] = (v[c] + v[d]) & M32
            v[b] = ror(v[b] ^ v[c], 7)
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]


def words_of(block):
    return [int.from_bytes(block[4 * i:4 * i + 4], 'big') for i in range(16)]


def digest(m):
    n = len(m)
    pad = b'\x80' + b'\x00' * ((54 - n) % 64) + b'\x01'
    if (n % 64) == 55:
        pad = b'\x81'
    data = m + pad + (8 * n).to_bytes(8, 'big')
    h = list(IV)
    for i in range(len(data) // 64):
        done = min(64 * (i + 1), n)
        # a block without message bits has counter zero
        t = 8 * done if done > 64 * i else 0
        h = compress(h, words_of(data[64 * i:64 * i + 64]), t)
    return b''.join([x.to_bytes(4, 'big') for x in h])
