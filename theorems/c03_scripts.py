"""C03: script text and script bytes."""
from dv.api import theorem, outcome, fails
from riemann.script import serialization
from theorems.c00_contracts import DESER, HEXDESER, SER, PARSE_ERRORS
from theorems.lib import cat, le
from theorems.opcode_table import CODES, DECRED, OLD, REFUSED
import riemann

HEXSER = 'riemann.script.serialization.hex_serialize'
ERRORS = tuple(e.__name__ for e in PARSE_ERRORS)


@theorem('C03', weak=True, functions=[DESER])
def deserialize_errors(D):
    """any bytes deserialize to text or fail with one of three exceptions"""
    s = D.bytes('script')
    r = outcome(serialization.deserialize, s)
    if r[0] == 'ok':
        D.check(isinstance(r[1], str), 'text')
    else:
        D.check(r[1] in ERRORS, 'exception')


@theorem('C03', weak=True, uses=[DESER],
         functions=[HEXDESER])
def hex_deserialize_errors(D):
    s = D.text('text')
    r = outcome(serialization.hex_deserialize, s)
    if r[0] == 'ok':
        D.check(isinstance(r[1], str), 'text')
    else:
        D.check(r[1] in ERRORS, 'exception')


@theorem('C03', weak=True, functions=[SER])
def serialize_errors(D):
    """any text serializes or fails with one of three exceptions"""
    s = D.text('text')
    r = outcome(serialization.serialize, s)
    if r[0] == 'ok':
        D.check(isinstance(r[1], (bytes, bytearray)), 'bytes')
    else:
        D.check(r[1] in ERRORS, 'exception')


# ------------------------------------------------------------- round trip

def net_codes():
    """byte of every opcode name of the selected network"""
    out = {n: c for n, c in CODES.items() if n not in REFUSED}
    if riemann.network.NETWORK_NAME == 'decred':
        out.update(DECRED)
    return out


def push(data):
    """the shortest push of the data"""
    n = len(data)
    if n <= 75:
        return n.to_bytes(1, 'little') + data
    if n <= 255:
        return b'\x4c' + n.to_bytes(1, 'little') + data
    return b'\x4d' + n.to_bytes(2, 'little') + data


def name_table(D):
    """opcode byte -> name; one name of each byte"""
    out = {}
    for n, c in net_codes().items():
        if n not in OLD:
            out[c] = n
    return out


@theorem('C03', functions=[SER, DESER])
def round_trip(D):
    """a script of opcodes and pushes and its bytes are the same thing"""
    names = name_table(D)

    def token(D):
        return (D.bool('is_data'), D.pick('op', names),
                D.bytes('data', 1, 1000))
    toks = D.list('tokens', 0, None, token)
    text = ' '.join([d.hex() if x else op for x, op, d in toks])
    codes = net_codes()
    data = cat([push(d) if x else bytes([codes[op]]) for x, op, d in toks])
    D.eq(bytes(serialization.serialize(text)), data, 'bytes')
    D.eq(serialization.deserialize(data), text, 'text')


@theorem('C03', functions=[DESER])
def reads_pushes(D):
    """every push reads as its data, whichever of the forms it uses"""
    def token(D):
        return (D.int('form', 0, 2), D.bytes('small', 1, 75),
                D.bytes('middle', 1, 255), D.bytes('large', 1, 65535))
    toks = D.list('pushes', 0, None, token)
    data = cat([le(len(a), 1) + a if f == 0 else
                b'\x4c' + le(len(b), 1) + b if f == 1 else
                b'\x4d' + le(len(c), 2) + c for f, a, b, c in toks])
    D.eq(serialization.deserialize(data),
         ' '.join([a.hex() if f == 0 else b.hex() if f == 1 else c.hex()
                   for f, a, b, c in toks]), 'text')


@theorem('C03', functions=[HEXSER, HEXDESER])
def hex_round_trip(D):
    """the hex forms are the hex of the byte forms"""
    names = name_table(D)

    def token(D):
        return (D.bool('is_data'), D.pick('op', names),
                D.bytes('data', 1, 1000))
    toks = D.list('tokens', 0, None, token)
    text = ' '.join([d.hex() if x else op for x, op, d in toks])
    codes = net_codes()
    data = cat([push(d) if x else bytes([codes[op]]) for x, op, d in toks])
    D.eq(serialization.hex_serialize(text), data.hex(), 'hex')
    D.eq(serialization.hex_deserialize(data.hex()), text, 'text')


@theorem('C03', functions=[SER])
def old_names(D):
    """the old names of two opcodes mean the same bytes"""
    D.eq(bytes(serialization.serialize('OP_NOP2')), b'\xb1', 'OP_NOP2')
    D.eq(bytes(serialization.serialize('OP_NOP3')), b'\xb2', 'OP_NOP3')
    D.eq(serialization.deserialize(b'\xb1\xb2'),
         'OP_CHECKLOCKTIMEVERIFY OP_CHECKSEQUENCEVERIFY', 'new names')


def some_tokens(D, name):
    """(text tokens, bytes) of a script of any length"""
    names = name_table(D)
    codes = net_codes()

    def token(D):
        return (D.bool('is_data'), D.pick('op', names),
                D.bytes('data', 1, 1000))
    toks = D.list(name, 0, None, token)
    return ([d.hex() if x else op for x, op, d in toks],
            cat([push(d) if x else bytes([codes[op]]) for x, op, d in toks]))


NOT_TOKENS = {0: 'OP_UNKNOWN', 1: 'op_dup', 2: 'OP_17', 3: 'abc', 4: '0x01',
              5: 'OP_CODESEPARATOR', 6: 'OP_PUSHDATA4', 7: 'zz', 8: '-1',
              9: 'OP_DUP,OP_HASH160', 10: 'OP_0x', 11: 'None', 12: 'a0b',
              13: 'OP_PUSH_76', 14: 'OP_CHECKSIG;'}


@theorem('C03', functions=[SER])
def refuses_tokens(D):
    """a word that is no token is refused wherever it stands"""
    before, _ = some_tokens(D, 'before')
    after, _ = some_tokens(D, 'after')
    bad = D.pick('bad', NOT_TOKENS)
    r = outcome(serialization.serialize, ' '.join(before + [bad] + after))
    D.check(r[0] == 'raise' and r[1] in ERRORS, 'refused')


@theorem('C03', functions=[SER])
def refuses_long_data(D):
    """data that no push carries is refused, not cut"""
    before, _ = some_tokens(D, 'before')
    after, _ = some_tokens(D, 'after')
    bad = D.bytes('long', 1001, None).hex()
    r = outcome(serialization.serialize, ' '.join(before + [bad] + after))
    D.check(r[0] == 'raise' and r[1] in ERRORS, 'refused')


@theorem('C03', functions=[DESER])
def refuses_bytes(D):
    """a byte that is no opcode is refused wherever it stands"""
    _, before = some_tokens(D, 'before')
    bad = D.int('opcode', 78, 255)
    after = D.bytes('after')
    D.assume(bad not in name_table(D))
    r = outcome(serialization.deserialize, before + bytes([bad]) + after)
    D.check(r[0] == 'raise' and r[1] in ERRORS, 'refused')


@theorem('C03', functions=[DESER])
def refuses_truncated(D):
    """a push that ends early is refused"""
    _, before = some_tokens(D, 'before')
    form = D.int('form', 0, 4)
    if form == 0:
        n = D.int('n', 1, 75)
        head = le(n, 1)
    elif form == 1:
        n = D.int('n', 1, 255)
        head = b'\x4c' + le(n, 1)
    elif form == 2:
        n = D.int('n', 1, 65535)
        head = b'\x4d' + le(n, 2)
    elif form == 3:
        n = 1
        head = b'\x4c'
    else:
        n = 2
        head = b'\x4d'
    have = D.bytes('have', 0, 65534)
    D.assume(len(have) < n)
    D.assume(form != 3 or len(have) == 0)
    r = outcome(serialization.deserialize, before + head + have)
    D.check(r[0] == 'raise' and r[1] in ERRORS, 'refused')
