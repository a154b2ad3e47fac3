"""C02: variable-length integers."""
from dv.api import theorem, outcome, fails
from riemann.tx import shared
from riemann.tx.shared import VarInt
from theorems.lib import le, cs, compact_only, new
from theorems import c00_contracts

BOTH = ['riemann.tx.shared.VarInt.__init__',
        'riemann.tx.shared.VarInt.from_bytes']


def by_contract(number, length=None):
    """what the contract of the constructor makes"""
    v = new(VarInt)
    c00_contracts.varint_init(v, number, length)
    return v


@theorem('C02', disable=BOTH, functions=['riemann.tx.shared.VarInt'])
def varint_contract(D):
    n = D.int('n', 0, 2 ** 64 - 1)
    length = D.choice('length', [None, 0])
    D.eq(VarInt(n, length), by_contract(n, length), 'constructor')


@theorem('C02', disable=BOTH, functions=['riemann.tx.shared.VarInt'])
def varint_copy_contract(D):
    n = D.int('n', 0, 2 ** 64 - 1)
    length = len(cs(n))
    D.eq(VarInt(n, length), by_contract(n, length), 'constructor')


@theorem('C02', disable=BOTH,
         functions=['riemann.tx.shared.VarInt'])
def varint_parse_contract(D):
    n = D.int('n', 0, 2 ** 64 - 1)
    rest = D.bytes('rest')
    D.eq(VarInt.from_bytes(cs(n) + rest), by_contract(n), 'from_bytes')


@theorem('C02', disable=BOTH, functions=['riemann.tx.shared.VarInt'])
def varint_encoding(D):
    """every number below 2**64 has its CompactSize encoding"""
    n = D.int('n', 0, 2 ** 64 - 1)
    v = VarInt(n)
    D.eq(v.to_bytes(), cs(n), 'compact-size')
    D.eq(v.number, n, 'number')


@theorem('C02', disable=BOTH, functions=['riemann.tx.shared.VarInt'])
def varint_range(D):
    """numbers outside the range are refused"""
    n = D.int('n')
    r = outcome(VarInt, n)
    if n < 0 or n >= 2 ** 64:
        D.eq(r, ('raise', 'ValueError'), 'refused')
    else:
        D.eq(r[0], 'ok', 'accepted')


@theorem('C02', disable=BOTH,
         functions=['riemann.tx.shared.VarInt.from_bytes'])
def varint_parse(D):
    """the compact encoding of n followed by anything parses as n"""
    n = D.int('n', 0, 2 ** 64 - 1)
    rest = D.bytes('rest')
    v = VarInt.from_bytes(cs(n) + rest)
    D.eq(v.number, n, 'number')
    D.eq(v.to_bytes(), cs(n), 'wire form')
    D.eq(v.copy().to_bytes(), cs(n), 'copy')


@theorem('C02', disable=BOTH,
         functions=['riemann.tx.shared.VarInt.from_bytes'])
def varint_wire_form(D):
    """whatever parses denotes what its bytes say and keeps their length;
    truncated encodings are refused; non-compact ones are refused exactly
    where the network requires compactness"""
    first = D.int('first', 0, 255)
    body = D.bytes('body')
    need = {253: 2, 254: 4, 255: 8}.get(first, 0) if not D.symbolic() else (
        2 if first == 253 else 4 if first == 254 else
        8 if first == 255 else 0)
    s = le(first, 1) + body
    r = outcome(VarInt.from_bytes, s)
    if len(body) < need:
        D.eq(r, ('raise', 'ValueError'), 'truncated refused')
        return
    if need == 0:
        number, least = first, 0
    else:
        number = int.from_bytes(body[:need], 'little')
        least = 253 if need == 2 else 2 ** 16 if need == 4 else 2 ** 32
    if number < least and compact_only():
        D.eq(r, ('raise', 'ValueError'), 'non-compact refused')
        return
    D.eq(r[0], 'ok', 'accepted')
    D.eq(r[1].number, number, 'number')
    D.eq(r[1].to_bytes(), s[:need + 1], 'wire form')
    D.eq(r[1].copy().to_bytes(), s[:need + 1], 'copy')


@theorem('C02', disable=BOTH, functions=['riemann.tx.shared.VarInt.from_bytes'])
def varint_empty(D):
    D.check(fails(VarInt.from_bytes, b''), 'empty refused')
