"""C01: integer / byte-string conversions."""
from dv.api import theorem, outcome, fails
from riemann import utils

TOP = 2 ** 512 - 1      # 64 bytes
WIDTHS = list(range(65))


def value(b, order):
    """the number a byte string denotes"""
    return int.from_bytes(b, order)


@theorem('C01', functions=['riemann.utils.i2le'])
def i2le_value(D):
    n = D.int('n', 0, TOP)
    b = utils.i2le(n)
    D.eq(value(b, 'little'), n, 'denotes the number')
    D.eq(utils.le2i(b), n, 'inverse')
    D.check(len(b) >= 1, 'not empty')
    D.check(len(b) == 1 or b[-1] != 0, 'minimal')


@theorem('C01', functions=['riemann.utils.i2be'])
def i2be_value(D):
    n = D.int('n', 0, TOP)
    b = utils.i2be(n)
    D.eq(value(b, 'big'), n, 'denotes the number')
    D.eq(utils.be2i(b), n, 'inverse')
    D.check(len(b) >= 1, 'not empty')
    D.check(len(b) == 1 or b[0] != 0, 'minimal')


@theorem('C01', functions=['riemann.utils.i2le_padded'])
def i2le_padded_value(D):
    n = D.int('n')
    w = D.choice('w', WIDTHS)
    r = outcome(utils.i2le_padded, n, w)
    if 0 <= n and n < 256 ** w:
        D.eq(r[0], 'ok', 'accepts')
        D.eq(len(r[1]), w, 'width')
        D.eq(value(r[1], 'little'), n, 'denotes the number')
        D.eq(utils.le2i(r[1]), n, 'inverse')
    else:
        D.eq(r, ('raise', 'OverflowError'), 'refuses')


@theorem('C01', functions=['riemann.utils.i2be_padded'])
def i2be_padded_value(D):
    n = D.int('n')
    w = D.choice('w', WIDTHS)
    r = outcome(utils.i2be_padded, n, w)
    if 0 <= n and n < 256 ** w:
        D.eq(r[0], 'ok', 'accepts')
        D.eq(len(r[1]), w, 'width')
        D.eq(value(r[1], 'big'), n, 'denotes the number')
        D.eq(utils.be2i(r[1]), n, 'inverse')
    else:
        D.eq(r, ('raise', 'OverflowError'), 'refuses')


@theorem('C01', functions=['riemann.utils.le2i', 'riemann.utils.be2i'])
def bytes_to_int_and_back(D):
    w = D.choice('w', WIDTHS)
    b = D.bytes('b', w, w)
    n = utils.le2i(b)
    m = utils.be2i(b)
    D.eq(n, value(b, 'little'), 'little')
    D.eq(m, value(b, 'big'), 'big')
    D.eq(utils.i2le_padded(n, w), b, 'little back')
    D.eq(utils.i2be_padded(m, w), b, 'big back')


@theorem('C01', functions=['riemann.utils.le2i', 'riemann.utils.be2i'])
def signed_values(D):
    w = D.choice('w', [1, 2, 4, 8])
    b = D.bytes('b', w, w)
    n = value(b, 'little')
    m = value(b, 'big')
    half = 256 ** w // 2
    D.eq(utils.le2i(b, signed=True), n if n < half else n - 2 * half,
         'little')
    D.eq(utils.be2i(b, signed=True), m if m < half else m - 2 * half, 'big')


@theorem('C01', functions=['riemann.utils.change_endianness'])
def reversal(D):
    b = D.bytes('b')
    i = D.int('i', 0)
    D.assume(i < len(b))
    r = utils.change_endianness(b)
    D.eq(len(r), len(b), 'length')
    D.eq(r[i], b[len(b) - 1 - i], 'byte')
    D.eq(utils.change_endianness(r), b, 'involution')


@theorem('C01', functions=['riemann.utils.i2le', 'riemann.utils.i2be'])
def negative_refused(D):
    n = D.int('n', None, -1)
    D.eq(outcome(utils.i2le, n), ('raise', 'OverflowError'), 'i2le')
    D.eq(outcome(utils.i2be, n), ('raise', 'OverflowError'), 'i2be')
