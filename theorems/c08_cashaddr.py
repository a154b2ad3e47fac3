"""C08: cash addresses."""
from dv.api import theorem, outcome
from riemann.encoding import cashaddr
from theorems import bech

M = 'riemann.encoding.cashaddr.'
API = [M + 'encode', M + 'decode']


def prefix_of(D):
    import riemann
    return riemann.network.CASHADDR_PREFIX


def supported(net):
    return net.CASHADDR_PREFIX is not None


def spelled(D, lo, hi):
    prefix = prefix_of(D)
    n = D.choice('length', list(range(lo, hi)))
    data = D.bytes('payload', n, n)
    text = bech.cash_text(prefix, data)
    D.eq(outcome(cashaddr.encode, data), ('ok', text), 'text')
    D.eq(outcome(cashaddr.decode, text), ('ok', data), 'decoded')


@theorem('C08', bits=True, functions=API, networks=supported)
def round_trip_short(D):
    spelled(D, 1, 34)


@theorem('C08', bits=True, functions=API, networks=supported)
def round_trip_long(D):
    spelled(D, 34, 66)


def accepts(D, lo, hi):
    prefix = prefix_of(D)
    n = D.choice('length', list(range(lo, hi)))
    t = D.letters('text', n, bech.CHARSET)
    got = outcome(cashaddr.decode, prefix + ':' + t)
    values = bech.values_of(t)
    if not bech.cash_good(prefix, values):
        D.eq(got[0], 'raise', 'checksum')
        return
    data, rest, pad = bech.regroup(values[:-8])
    if pad > 4 or rest != 0:
        D.eq(got[0], 'raise', 'padding')
        return
    D.eq(got, ('ok', data), 'decoded')


@theorem('C08', bits=True, functions=API, networks=supported)
def accepts_exactly_short(D):
    accepts(D, 0, 50)


@theorem('C08', bits=True, functions=API, networks=supported)
def accepts_exactly_long(D):
    accepts(D, 50, 84)


@theorem('C08', bits=True, functions=API, networks=supported)
def accepts_exactly_longest(D):
    accepts(D, 84, 113)


@theorem('C08', functions=API, networks=lambda n: n.CASHADDR_PREFIX is None)
def unsupported(D):
    """networks without cash addresses"""
    D.eq(outcome(cashaddr.encode, D.bytes('data')), ('raise', 'ValueError'),
         'encode')
    D.eq(outcome(cashaddr.decode, D.text('text')), ('raise', 'ValueError'),
         'decode')


# ---------------------------------------------------------------- refusals

# characters that are not of the alphabet
BAD = ''.join(chr(i) for i in range(128) if chr(i) not in
              bech.CHARSET) + '\x80\xa0\xe9\u017f\u212a\u4e2d'
PLACES = [(n, i) for n in range(1, 61) for i in range(n)]
LONG = [(n, i) for n in (61, 68, 72, 80, 88, 104, 112) for i in range(n)]


def characters(D, places):
    prefix = prefix_of(D)
    n, i = D.choice('both', places)
    t = D.letters('text', n - 1, bech.CHARSET)
    bad = D.letters('bad', 1, BAD)
    D.eq(outcome(cashaddr.decode, prefix + ':' + t[:i] + bad + t[i:])[0],
         'raise', 'refused')


@theorem('C08', bits=True, functions=API, networks=supported)
def refuses_characters(D):
    """a character outside the alphabet, anywhere after the prefix"""
    characters(D, PLACES)


@theorem('C08', bits=True, functions=API, networks=supported)
def refuses_characters_long(D):
    characters(D, LONG)


@theorem('C08', bits=True, functions=API, networks=supported)
def refuses_prefixes(D):
    """another prefix, or none"""
    prefix = prefix_of(D)
    n = D.choice('length', list(range(113)))
    m = D.choice('letters', list(range(14)))
    word = D.letters('word', m, bech.WORD)
    D.assume(word != prefix)
    t = D.letters('text', n, bech.CHARSET)
    D.eq(outcome(cashaddr.decode, word + ':' + t)[0], 'raise', 'refused')
    if m == 0:
        D.eq(outcome(cashaddr.decode, t)[0], 'raise', 'no prefix')
