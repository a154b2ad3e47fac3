"""C06: Base58Check.

to_long and from_long convert between a string of digits and the pair of its
value and its number of leading zeros.  Both are inductive over the string:

* (digits) appending a digit d to from_long(v, p) gives from_long(b*v + d, p),
  or from_long(0, p + 1) where v = d = 0, and from_long(0, 0) is empty: so
  every string of digits is from_long(v, p) for some v and p >= 0;
* (value) if to_long reads (v, p) from from_long(v, p), then it reads
  (b*v + d, p) from from_long(b*v + d, p), and it reads (0, p) from
  from_long(0, p): by induction on v, to_long inverts from_long.

The theorems below are the base cases and the steps.  Together they say that
to_long and from_long are inverse bijections between the strings of digits and
the pairs; encode and decode are verified against that.
"""
from dv.api import theorem, outcome
from riemann.encoding import base58
from theorems.lib import net_hash256

B = 'riemann.encoding.base58.'
TO, FROM = B + 'to_long', B + 'from_long'

ALPHABET = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
DIGIT = {c: i for i, c in enumerate(ALPHABET)}


def char(v):
    return ALPHABET[v]


def digit(c):
    return DIGIT[c]


def byte(v):
    return v


def zeros(D, base, to_char, to_digit):
    p = D.size('p')
    s = base58.from_long(0, p, base, to_char)
    zero = bytes([to_char(0)])
    D.eq(s, zero * p, 'only leading zeros')
    D.eq(base58.from_long(0, p + 1, base, to_char), s + zero, 'one more')
    D.eq(base58.to_long(base, to_digit, s), (0, p), 'read back')


@theorem('C06', folds=True, functions=[TO, FROM])
def zeros_base58(D):
    zeros(D, 58, char, digit)


@theorem('C06', folds=True, functions=[TO, FROM])
def zeros_bytes(D):
    zeros(D, 256, byte, byte)


def step(D, base, to_char, to_digit):
    v = D.int('v', 0)
    p = D.size('p')
    d = D.int('d', 0, base - 1)
    D.assume(v + d > 0)
    s = base58.from_long(v, p, base, to_char)
    t = base58.from_long(v * base + d, p, base, to_char)
    D.eq(t, s + bytes([to_char(d)]), 'one digit more')
    # the induction hypothesis
    D.assume(outcome(base58.to_long, base, to_digit, s) == ('ok', (v, p)))
    D.eq(outcome(base58.to_long, base, to_digit, t),
         ('ok', (v * base + d, p)), 'read back')


@theorem('C06', folds=True, functions=[TO, FROM])
def step_base58(D):
    step(D, 58, char, digit)


@theorem('C06', folds=True, functions=[TO, FROM])
def step_bytes(D):
    step(D, 256, byte, byte)


@theorem('C06', folds=True, functions=[TO])
def refuses_characters(D):
    a = D.bytes('a')
    b = D.bytes('b')
    c = D.int('c', 0, 255)
    D.assume(c not in ALPHABET)
    D.eq(outcome(base58.to_long, 58, digit, a + bytes([c]) + b),
         ('raise', 'ValueError'), 'refused')


# ------------------------------------------------------- encode and decode

@theorem('C06', digits=True, functions=[B + 'encode', B + 'decode'])
def round_trip(D):
    data = D.bytes('data')
    text = base58.encode(data)
    D.eq(base58.decode(text), data, 'with checksum')
    D.check(base58.has_checksum(text) is True, 'has a checksum')
    D.eq(base58.decode(text, checksum=False), data + net_hash256(data)[:4],
         'what is encoded')
    D.eq(base58.decode_with_checksum(base58.encode_with_checksum(data)),
         data, 'other names')
    plain = base58.encode(data, checksum=False)
    D.eq(base58.decode(plain, checksum=False), data, 'without checksum')


def some_text(rng):
    """a text in or near the encoding, for tests"""
    n = rng.choice([0, 1, 3, 4, 5, 21, 21, 33, 60])
    data = bytes(rng.choice([0, rng.randrange(256)]) for _ in range(n))
    if rng.randrange(4):
        data += net_hash256(data)[:4]
    s = bytes(data)
    v = int.from_bytes(s, 'big')
    out = ''
    while v:
        out = chr(ALPHABET[v % 58]) + out
        v //= 58
    out = '1' * (len(s) - len(s.lstrip(b'\0'))) + out
    k = rng.randrange(8)
    i = rng.randrange(len(out) + 1)
    if k == 0:
        out = out[:i] + rng.choice('0OIl +/1z\u0131\ud800') + out[i:]
    elif k == 1:
        out = out[:i] + out[i + 1:]
    elif k == 2:
        out = out[:i] + rng.choice('1z') + out[i + 1:]
    return out


@theorem('C06', digits=True, functions=[B + 'encode', B + 'decode'])
def exact(D):
    text = D.text('text', some_text)
    r = outcome(base58.decode, text)
    raw = outcome(base58.decode, text, checksum=False)
    D.eq(base58.has_checksum(text), r[0] == 'ok', 'has_checksum')
    if r[0] == 'ok':
        data = r[1]
        D.eq(raw, ('ok', data + net_hash256(data)[:4]), 'checksum of the rest')
        D.eq(base58.encode(data).encode('utf8'), text.encode('utf8'),
             'the text of these bytes')
    else:
        D.check(raw[0] != 'ok' or len(raw[1]) < 4 or raw[1][
            -4:] != net_hash256(raw[1][:-4])[:4], 'refused')


@theorem('C06', digits=True, functions=[B + 'encode', B + 'decode'])
def refusal_is_value_error(D):
    text = D.text('text', some_text)
    r = outcome(base58.decode, text)
    D.check(r[0] == 'ok' or r[1] in ('ValueError', 'UnicodeEncodeError'),
            'kind')
