"""C21: standardness of transactions.

The rules (riemann.networks.standard, after Bitcoin's IsStandardTx): version
1 or 2; weight at most 400000; every script_sig push-only; every output of a
standard type, and no dust; at most one data carrier.
"""
from dv.api import theorem, outcome
from riemann.networks import standard
from riemann.tx import tx
from theorems.lib import (
    le, cat, cs, mk_txin, mk_txout_long, mk_witness, not_decred, enc_txin,
    enc_txout, enc_witness)
from theorems.c03_scripts import name_table, net_codes
from theorems.c10_tx import FLAG

MOD = 'riemann.networks.standard.'
TX = MOD + 'check_is_standard_tx'
OUTS = MOD + 'check_is_standard'
PUSH = MOD + 'is_push_only'
CARRIER = MOD + 'is_op_return'
TYPE = MOD + 'is_standard_output_type'


def mk_tx(D, flag):
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    wits = None
    if flag is not None:
        wits = D.list('wits', len(ins), len(ins), mk_witness)
    return ins, outs, wits, tx.Tx(
        D.bytes('version', 4, 4), flag, ins, outs, wits,
        D.bytes('lock_time', 4, 4))


def rules(D, flag):
    ins, outs, wits, t = mk_tx(D, flag)
    base = (4 + len(cs(len(ins))) + sum([len(enc_txin(i)) for i in ins])
            + len(cs(len(outs))) + sum([len(enc_txout(o)) for o in outs]) + 4)
    total = base
    if flag is not None:
        total = base + 2 + sum([len(enc_witness(w)) for w in wits])
    good = (t.version in [b'\x01\x00\x00\x00', b'\x02\x00\x00\x00']
            and 3 * base + total <= 400000
            and all([standard.is_push_only(i.stack_script + i.redeem_script)
                     for i in ins])
            and standard.check_is_standard(t))
    r = outcome(standard.check_is_standard_tx, t)
    D.eq(r, ('ok', good), 'exactly by the rules')


@theorem('C21', networks=not_decred, functions=[TX],
         stubs={PUSH: 'bool', OUTS: 'bool'})
def legacy_rules(D):
    rules(D, None)


@theorem('C21', networks=not_decred, functions=[TX],
         stubs={PUSH: 'bool', OUTS: 'bool'})
def segwit_rules(D):
    rules(D, FLAG)


@theorem('C21', networks=not_decred, functions=[OUTS],
         stubs={CARRIER: 'bool', TYPE: 'bool'})
def output_rules(D):
    """standard types, no dust, one data carrier"""
    _, outs, _, t = mk_tx(D, None)

    def fine(o):
        return (standard.is_standard_output_type(o)
                and (int.from_bytes(o.value, 'little') >= 550
                     or standard.is_op_return(o)
                     or o.output_script[:2] == b'\x00\x14'))
    good = (all([fine(o) for o in outs])
            and len([o for o in outs if standard.is_op_return(o)]) <= 1)
    D.eq(outcome(standard.check_is_standard, t), ('ok', good),
         'exactly by the rules')


# ----------------------------------------------------- kinds of outputs

@theorem('C21', networks=not_decred, functions=[CARRIER],
         stubs={PUSH: 'bool'})
def data_carriers(D):
    """no value, OP_RETURN and pushes, of at most 80 bytes"""
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    o = tx.TxOut(value, script)
    good = (value == b'\x00' * 8 and len(script) <= 80
            and script[:1] == b'\x6a' and standard.is_push_only(script[1:]))
    D.eq(outcome(standard.is_op_return, o), ('ok', good), 'exactly these')


def key_lengths(n):
    """the key lengths of n keys"""
    if n == 0:
        return [[]]
    return [[k] + r for k in (33, 65) for r in key_lengths(n - 1)]


MULTISIG = sorted({3 + n + sum(ks) for n in (1, 2, 3)
                   for ks in key_lengths(n)})


def is_multisig(script, size):
    """m-of-n of n <= 3 keys: OP_m, the keys, OP_n, OP_CHECKMULTISIG"""
    out = False
    for n in (1, 2, 3):
        for ks in key_lengths(n):
            if size != 3 + sum(ks) + n:
                continue
            at = 1
            ok = ((script[0] >= 0x51) & (script[0] <= 0x50 + n)
                  & (script[size - 2] == 0x50 + n)
                  & (script[size - 1] == 0xae))
            for k in ks:
                ok = ok & (script[at] == k)
                at = at + 1 + k
            out = out | ok
    return out


def is_key(script):
    """a push of a key, OP_CHECKSIG"""
    n = len(script)
    return (n == 35 or n == 67) and script[0] == n - 2 \
        and script[n - 1] == 0xac


def has_address(script):
    """the templates with an address"""
    import riemann
    n = len(script)
    if n == 25:
        return script[:3] == b'\x76\xa9\x14' and script[23:] == b'\x88\xac'
    if n == 23:
        return script[:2] == b'\xa9\x14' and script[22:] == b'\x87'
    if riemann.network.SEGWIT:
        if n == 22:
            return script[:2] == b'\x00\x14'
        if n == 34:
            return script[:2] == b'\x00\x20'
    return False


TEMPLATES = [22, 23, 25, 34, 35, 67]


@theorem('C21', networks=not_decred, functions=[TYPE],
         stubs={CARRIER: 'bool'}, codecs=True)
def output_types(D):
    """scripts of the length of a template with an address or a key"""
    n = D.choice('size', TEMPLATES)
    script = D.bytes('script', n, n)
    o = tx.TxOut(D.bytes('value', 8, 8), script)
    good = (has_address(script) or standard.is_op_return(o)
            or is_key(script))
    D.eq(outcome(standard.is_standard_output_type, o), ('ok', good),
         'exactly these')


@theorem('C21', networks=not_decred, functions=[TYPE],
         stubs={CARRIER: 'bool'}, codecs=True)
def other_lengths(D):
    """scripts of any other length are data carriers or not standard"""
    script = D.bytes('script')
    D.assume(len(script) not in TEMPLATES + MULTISIG)
    o = tx.TxOut(D.bytes('value', 8, 8), script)
    D.eq(outcome(standard.is_standard_output_type, o),
         ('ok', standard.is_op_return(o)), 'exactly these')


@theorem('C21', networks=not_decred, functions=[TYPE],
         stubs={CARRIER: 'bool'}, codecs=True)
def multisig_outputs(D):
    """scripts of a length that a multisig script can have"""
    n = D.choice('size', MULTISIG)
    script = D.bytes('script', n, n)
    o = tx.TxOut(D.bytes('value', 8, 8), script)
    good = standard.is_op_return(o) or is_multisig(script, n)
    D.eq(outcome(standard.is_standard_output_type, o), ('ok', good),
         'exactly these')


# ------------------------------------------------------------- push-only

def push_names(D, want):
    """opcode byte -> name, of those that are pushes (or are not)"""
    out = {}
    for c, n in name_table(D).items():
        if (c <= 96) == want:
            out[c] = n
    return out


def script_of(D, name, table):
    """a script of any length of these opcodes and pushes of any form"""
    codes = net_codes()

    def token(D):
        return (D.int('form', 0, 3), D.pick('op', table),
                D.bytes('small', 1, 75), D.bytes('middle', 1, 255),
                D.bytes('large', 1, 65535))
    toks = D.list(name, 0, None, token)
    return cat([le(len(a), 1) + a if f == 0 else
                b'\x4c' + le(len(b), 1) + b if f == 1 else
                b'\x4d' + le(len(c), 2) + c if f == 2 else
                bytes([codes[op]]) for f, op, a, b, c in toks])


@theorem('C21', networks=not_decred, functions=[PUSH])
def push_only(D):
    """data, numbers and OP_RESERVED, and nothing else"""
    script = script_of(D, 'pushes', push_names(D, True))
    D.eq(outcome(standard.is_push_only, script), ('ok', True), 'push-only')


@theorem('C21', networks=not_decred, functions=[PUSH])
def not_push_only(D):
    """an opcode that is no push, wherever it stands"""
    before = script_of(D, 'before', push_names(D, True))
    op = D.pick('bad', push_names(D, False))
    after = script_of(D, 'after', name_table(D))
    D.eq(outcome(standard.is_push_only,
                 before + bytes([net_codes()[op]]) + after),
         ('ok', False), 'not push-only')


@theorem('C21', networks=not_decred, functions=[PUSH])
def unreadable(D):
    """a byte that is no opcode"""
    before = script_of(D, 'before', name_table(D))
    bad = D.int('opcode', 78, 255)
    after = D.bytes('after')
    D.assume(bad not in name_table(D))
    D.eq(outcome(standard.is_push_only, before + bytes([bad]) + after),
         ('ok', False), 'not push-only')


@theorem('C21', networks=not_decred, functions=[PUSH])
def truncated(D):
    """a push that ends early"""
    before = script_of(D, 'before', name_table(D))
    n = D.int('n', 1, 75)
    have = D.bytes('have', 0, 74)
    D.assume(len(have) < n)
    D.eq(outcome(standard.is_push_only, before + le(n, 1) + have),
         ('ok', False), 'not push-only')


# ------------------------------------------------------------ other rules

@theorem('C21', networks=not_decred, functions=[MOD + 'check_tx_size_small'])
def minimal_size(D):
    """at least 82 bytes without witnesses"""
    ins, outs, _, t = mk_tx(D, D.choice('flag', [None, FLAG]))
    base = (8 + len(cs(len(ins))) + sum([len(enc_txin(i)) for i in ins])
            + len(cs(len(outs))) + sum([len(enc_txout(o)) for o in outs]))
    D.eq(outcome(standard.check_tx_size_small, t), ('ok', base >= 82),
         'exactly by the rule')


@theorem('C21', networks=not_decred, functions=[MOD + 'check_final'])
def absolute_locks(D):
    """heights below 500000000, times from there"""
    _, _, _, t = mk_tx(D, None)
    height = D.int('height', 0)
    time = D.int('time', 0)
    lock = int.from_bytes(t.lock_time, 'little')
    D.eq(outcome(standard.check_final, t, height, time),
         ('ok', lock <= (height if lock < 500000000 else time)),
         'exactly by the rule')
