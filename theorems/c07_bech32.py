"""C07: Bech32 addresses."""
from dv.api import theorem, outcome
from riemann.encoding import bech32
from theorems import bech

M = 'riemann.encoding.bech32.'
API = [M + 'encode', M + 'decode']


def hrp_of(D, alphabet=bech.WORD, length=None):
    """the human-readable part: any word, when the network has one"""
    return D.network_word('BECH32_HRP', 2, 5, alphabet, length)


def supported(net):
    return net.BECH32_HRP is not None


def spelled(D, lo, hi):
    hrp = hrp_of(D)
    n = D.choice('length', list(range(lo, hi)))
    v = D.int('version', 0, 16)
    program = D.bytes('program', n, n)
    data = bytes([v, n]) + program
    got = outcome(bech32.encode, data)
    if v == 0 and n != 20 and n != 32:
        D.check(got[0] == 'raise' or got[1] is None, 'not an address')
        return
    text = bech.bech32_text(hrp, v, program)
    D.eq(got, ('ok', text), 'text')
    D.eq(outcome(bech32.decode, text), ('ok', data), 'decoded')


@theorem('C07', bits=True, functions=API, networks=supported)
def round_trip_short(D):
    spelled(D, 2, 22)


@theorem('C07', bits=True, functions=API, networks=supported)
def round_trip_long(D):
    spelled(D, 22, 41)


@theorem('C07', bits=True, functions=API, networks=supported)
def capitals(D):
    """a text in capitals is read like the text"""
    hrp = hrp_of(D, bech.LOWER)
    n = D.choice('length', list(range(2, 41)))
    v = D.int('version', 1, 16)
    text = bech.bech32_text(hrp, v, D.bytes('program', n, n))
    D.eq(outcome(bech32.decode, text.upper()),
         outcome(bech32.decode, text), 'same')


@theorem('C07', functions=API, networks=lambda n: n.BECH32_HRP is None)
def unsupported(D):
    """networks without Bech32 addresses"""
    D.eq(outcome(bech32.encode, D.bytes('data')), ('raise', 'ValueError'),
         'encode')
    D.eq(outcome(bech32.decode, D.text('text')), ('raise', 'ValueError'),
         'decode')


def accepts(D, lo, hi):
    hrp = hrp_of(D)
    n = D.choice('length', list(range(lo, hi)))
    t = D.letters('text', n, bech.CHARSET)
    got = outcome(bech32.decode, hrp + '1' + t)
    if n < 7 or len(hrp) + 1 + n > 90:
        D.eq(got[0], 'raise', 'length')
        return
    values = bech.values_of(t)
    program, rest, pad = bech.regroup(values[1:-6])
    m = len(program)
    if m < 2 or m > 40 or pad > 4:
        D.eq(got[0], 'raise', 'program length')
        return
    if not bech.bech32_good(hrp, values):
        D.eq(got[0], 'raise', 'checksum')
        return
    v = values[0]
    if v > 16 or v == 0 and m != 20 and m != 32:
        D.eq(got[0], 'raise', 'version')
        return
    if rest != 0:
        D.eq(got[0], 'raise', 'padding')
        return
    D.eq(got, ('ok', bytes([v, m]) + program), 'decoded')


@theorem('C07', bits=True, functions=API, networks=supported)
def accepts_exactly_short(D):
    accepts(D, 0, 26)


@theorem('C07', bits=True, functions=API, networks=supported)
def accepts_exactly_medium(D):
    accepts(D, 26, 42)


@theorem('C07', bits=True, functions=API, networks=supported)
def accepts_exactly_long(D):
    accepts(D, 42, 58)


@theorem('C07', bits=True, functions=API, networks=supported)
def accepts_exactly_longest(D):
    accepts(D, 58, 89)


# ---------------------------------------------------------------- refusals

# characters that are in no address
PRINTABLE = ''.join(chr(i) for i in range(33, 127) if chr(i).lower()
                    not in bech.CHARSET + '1')
OTHER = ''.join(chr(i) for i in range(33)) + \
    '\x7f\x80\xa0\xe9\u017f\u212a\u4e2d'
CAPITALS = ''.join(c.upper() for c in bech.CHARSET if c.isalpha())
SMALL = ''.join(c for c in bech.CHARSET if c.isalpha())


def place(D, all_):
    """length of a text and a place in it"""
    return D.choice('both', PLACES if all_ else SOME)


# the lengths of usual addresses, and all
SOME = [(n, i) for n in (1, 6, 7, 38, 39, 58, 59, 87) for i in range(n)]
PLACES = [(n, i) for n in range(1, 88) for i in range(n)]


def characters(D, k, all_, kind=0):
    """a character outside the alphabet, anywhere after the prefix"""
    hrp = hrp_of(D, length=k)
    n, i = place(D, all_)
    t = D.letters('text', n - 1, bech.CHARSET)
    if kind == 0:
        bad = D.letters('bad', 1, PRINTABLE)
    elif kind == 1:
        bad = D.letters('other', 1, OTHER)
    else:
        bad = '1'
    text = hrp + '1' + t[:i] + bad + t[i:]
    D.eq(outcome(bech32.decode, text)[0], 'raise', 'refused')


def a_capital(D, k, all_):
    """one capital letter"""
    hrp = hrp_of(D, bech.LOWER, k)
    n, i = place(D, all_)
    t = D.letters('text', n - 1, bech.CHARSET)
    c = D.letters('one', 1, CAPITALS)
    text = hrp + '1' + t[:i] + c + t[i:]
    D.eq(outcome(bech32.decode, text)[0], 'raise', 'refused')


def a_small_letter(D, k, all_):
    """one small letter among capitals"""
    hrp = hrp_of(D, bech.LOWER, k)
    n, i = place(D, all_)
    t = D.letters('text', n - 1, bech.CHARSET).upper()
    c = D.letters('one', 1, SMALL)
    text = hrp.upper() + '1' + t[:i] + c + t[i:]
    D.eq(outcome(bech32.decode, text)[0], 'raise', 'refused')


def prefixes(D, k):
    """another prefix, or none"""
    hrp = hrp_of(D, length=k)
    n = D.choice('length', list(range(89)))
    m = D.choice('letters', list(range(7)))
    word = D.letters('word', m, bech.WORD)
    D.assume(word != hrp)
    t = D.letters('text', n, bech.CHARSET)
    D.eq(outcome(bech32.decode, word + '1' + t)[0], 'raise', 'refused')
    if m == 0:
        D.eq(outcome(bech32.decode, t)[0], 'raise', 'no separator')


def others(D, k, all_):
    characters(D, k, all_, 1)


def separators(D, k, all_):
    characters(D, k, all_, 2)


def case(f, k, all_):
    theorem('C07', bits=True, functions=API, networks=supported,
            name='refuses_%s%s_%d' % ('all_' if all_ else '',
                                      f.__name__, k),
            tier='thorough' if all_ else 'quick')(
        lambda D: f(D, k, all_) if f is not prefixes else f(D, k))


def cases(f):
    """by the length of the prefix of the network"""
    for k in (2, 3, 4, 5):
        case(f, k, False)
        if f is not prefixes:
            case(f, k, True)


cases(characters)
cases(others)
cases(separators)
cases(a_capital)
cases(a_small_letter)
cases(prefixes)
