"""C16: Decred transactions, ids and signature digests."""
from dv.api import theorem, outcome, fails
from riemann.tx import decred
from theorems.lib import (
    blake256, cs, cat, le, var, is_decred, not_decred)

ALL = 1
SINGLE = 3
ACP = 0x80
LIMIT = 100000


def mk_in(D):
    return decred.DecredTxIn(
        decred.DecredOutpoint(D.bytes('tx_id', 32, 32),
                              D.bytes('index', 4, 4), D.bytes('tree', 1, 1)),
        D.bytes('sequence', 4, 4))


def mk_out(D):
    return decred.DecredTxOut(D.bytes('value', 8, 8),
                              D.bytes('script_version', 2, 2),
                              D.bytes('script'))


def mk_out_v0(D):
    return decred.DecredTxOut(D.bytes('value', 8, 8), b'\x00\x00',
                              D.bytes('script'))


def mk_wit(D):
    return decred.DecredInputWitness(
        D.bytes('value', 8, 8), D.bytes('height', 4, 4),
        D.bytes('block_index', 4, 4), D.bytes('stack'), D.bytes('redeem'))


def enc_in(i, sequence):
    return (i.outpoint.tx_id + i.outpoint.index + i.outpoint.tree + sequence)


def enc_out(o):
    return o.value + o.version + var(o.output_script)


def enc_wit(w):
    return (w.value + w.height + w.index
            + var(w.stack_script + w.redeem_script))


def enc_ins(ins):
    return cs(len(ins)) + cat([enc_in(i, i.sequence) for i in ins])


def enc_outs(outs):
    return cs(len(outs)) + cat([enc_out(o) for o in outs])


# ---------------------------------------------------------------- components

@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredOutpoint'])
def outpoint(D):
    i = D.bytes('tx_id')
    n = D.bytes('index')
    t = D.bytes('tree')
    r = outcome(decred.DecredOutpoint, i, n, t)
    if len(i) != 32 or len(n) != 4 or len(t) != 1:
        D.eq(r, ('raise', 'ValueError'), 'refused')
        return
    D.eq(r[0], 'ok', 'accepted')
    o = r[1]
    D.eq(o.to_bytes(), i + n + t, 'layout')
    D.eq((o.tx_id, o.index, o.tree), (i, n, t), 'fields')
    p = decred.DecredOutpoint.from_bytes(i + n + t + D.bytes('rest'))
    D.eq((p.tx_id, p.index, p.tree), (i, n, t), 'parsed fields')
    D.eq(p.to_bytes(), i + n + t, 'parsed bytes')
    cut = D.int('cut', 0, 36)
    D.check(fails(decred.DecredOutpoint.from_bytes, (i + n + t)[:cut]),
            'truncated')


@theorem('C16', networks=is_decred, functions=['riemann.tx.decred.DecredTxIn'])
def txin(D):
    o = decred.DecredOutpoint(D.bytes('tx_id', 32, 32),
                              D.bytes('index', 4, 4), D.bytes('tree', 1, 1))
    s = D.bytes('sequence')
    r = outcome(decred.DecredTxIn, o, s)
    if len(s) != 4:
        D.eq(r, ('raise', 'ValueError'), 'refused')
        return
    D.eq(r[0], 'ok', 'accepted')
    i = r[1]
    enc = o.tx_id + o.index + o.tree + s
    D.eq(i.to_bytes(), enc, 'layout')
    D.check(i.outpoint is o, 'outpoint')
    D.eq(i.sequence, s, 'sequence')
    j = decred.DecredTxIn.from_bytes(enc + D.bytes('rest'))
    D.eq(j.to_bytes(), enc, 'parsed bytes')
    D.eq((j.outpoint.tx_id, j.outpoint.index, j.outpoint.tree, j.sequence),
         (o.tx_id, o.index, o.tree, s), 'parsed fields')
    cut = D.int('cut', 0, 40)
    D.check(fails(decred.DecredTxIn.from_bytes, enc[:cut]), 'truncated')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTxOut'])
def txout(D):
    v = D.bytes('value')
    n = D.bytes('script_version')
    s = D.bytes('script')
    r = outcome(decred.DecredTxOut, v, n, s)
    if len(v) != 8 or len(n) != 2:
        D.eq(r, ('raise', 'ValueError'), 'refused')
        return
    D.eq(r[0], 'ok', 'accepted')
    o = r[1]
    enc = v + n + var(s)
    D.eq(o.to_bytes(), enc, 'layout')
    D.eq((o.value, o.version, o.output_script), (v, n, s), 'fields')
    D.eq(o.output_script_len, len(s), 'script length')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTxOut.from_bytes'])
def txout_parse(D):
    v = D.bytes('value', 8, 8)
    n = D.bytes('script_version', 2, 2)
    s = D.bytes('script')
    enc = v + n + var(s)
    r = outcome(decred.DecredTxOut.from_bytes, enc + D.bytes('rest'))
    if len(s) >= 252:
        D.eq(r, ('raise', 'NotImplementedError'), 'long script refused')
        return
    D.eq(r[0], 'ok', 'accepted')
    o = r[1]
    D.eq(o.to_bytes(), enc, 'bytes')
    D.eq((o.value, o.version, o.output_script), (v, n, s), 'fields')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTxOut.from_bytes'])
def txout_truncated(D):
    enc = (D.bytes('value', 8, 8) + D.bytes('script_version', 2, 2)
           + var(D.bytes('script')))
    cut = D.int('cut', 0, 2 ** 60)
    D.assume(cut < len(enc))
    D.check(fails(decred.DecredTxOut.from_bytes, enc[:cut]), 'refused')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredInputWitness'])
def input_witness(D):
    v = D.bytes('value')
    h = D.bytes('height')
    n = D.bytes('block_index')
    a = D.bytes('stack')
    b = D.bytes('redeem')
    r = outcome(decred.DecredInputWitness, v, h, n, a, b)
    if len(v) != 8 or len(h) != 4 or len(n) != 4:
        D.eq(r, ('raise', 'ValueError'), 'refused')
        return
    D.eq(r[0], 'ok', 'accepted')
    w = r[1]
    D.eq(w.to_bytes(), v + h + n + var(a + b), 'layout')
    D.eq((w.value, w.height, w.index, w.stack_script, w.redeem_script),
         (v, h, n, a, b), 'fields')
    D.eq(w.script_sig, a + b, 'script_sig')
    D.eq(w.script_len, len(a) + len(b), 'script length')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTxIn',
                    'riemann.tx.decred.DecredTxOut',
                    'riemann.tx.decred.DecredInputWitness'])
def wrong_types_refused(D):
    bad = D.choice('bad', [None, 'abcd', 4])
    no = ('raise', 'ValueError')
    b8 = D.bytes('value', 8, 8)
    b4 = D.bytes('four', 4, 4)
    b2 = D.bytes('two', 2, 2)
    s = D.bytes('script')
    D.eq(outcome(decred.DecredTxIn, bad, b4), no, 'outpoint')
    D.eq(outcome(decred.DecredTxOut, bad, b2, s), no, 'value')
    D.eq(outcome(decred.DecredTxOut, b8, bad, s), no, 'version')
    D.eq(outcome(decred.DecredTxOut, b8, b2, bad), no, 'script')
    w = decred.DecredInputWitness
    D.eq(outcome(w, bad, b4, b4, s, s), no, 'witness value')
    D.eq(outcome(w, b8, bad, b4, s, s), no, 'height')
    D.eq(outcome(w, b8, b4, bad, s, s), no, 'block index')
    D.eq(outcome(w, b8, b4, b4, bad, s), no, 'stack script')
    D.eq(outcome(w, b8, b4, b4, s, bad), no, 'redeem script')


# -------------------------------------------------------------- transactions

def parts(D, out=mk_out):
    ver = D.bytes('version', 4, 4)
    ins = D.list('ins', 1, None, mk_in)
    outs = D.list('outs', 1, None, out)
    lock = D.bytes('lock_time', 4, 4)
    exp = D.bytes('expiry', 4, 4)
    wits = D.list('wits', 0, None, mk_wit)
    return ver, ins, outs, lock, exp, wits


def enc_tx(ver, ins, outs, lock, exp, wits):
    return (ver + enc_ins(ins) + enc_outs(outs) + lock + exp
            + cs(len(wits)) + cat([enc_wit(w) for w in wits]))


def enc_prefix(ver, ins, outs, lock, exp):
    return (ver[:2] + b'\x01\x00' + enc_ins(ins) + enc_outs(outs) + lock
            + exp)


@theorem('C16', networks=is_decred, functions=['riemann.tx.decred.DecredTx'])
def tx_layout(D):
    ver, ins, outs, lock, exp, wits = parts(D)
    enc = enc_tx(ver, ins, outs, lock, exp, wits)
    r = outcome(decred.DecredTx, ver, ins, outs, lock, exp, wits)
    if len(enc) > LIMIT:
        D.eq(r, ('raise', 'ValueError'), 'too large')
        return
    D.eq(r[0], 'ok', 'accepted')
    t = r[1]
    D.eq(t.to_bytes(), enc, 'layout')
    D.eq(t.version, ver, 'version')
    D.eq(t.tx_ins, tuple(ins), 'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.lock_time, lock, 'lock time')
    D.eq(t.expiry, exp, 'expiry')
    D.eq(t.tx_witnesses, tuple(wits), 'witnesses')
    prefix = enc_prefix(ver, ins, outs, lock, exp)
    D.eq(t.prefix(), prefix, 'prefix')
    D.eq(t.tx_id_le, blake256(prefix), 'tx_id_le')
    D.eq(t.tx_id, blake256(prefix)[::-1], 'tx_id')
    D.eq(t.prefix_hash(), blake256(prefix), 'prefix hash')
    witness = (ver[:2] + b'\x02\x00' + cs(len(wits))
               + cat([enc_wit(w) for w in wits]))
    D.eq(t.witness(), witness, 'witness')
    D.eq(t.witness_hash(), blake256(witness), 'witness hash')
    signing = (ver[:2] + b'\x03\x00' + cs(len(wits))
               + cat([var(w.stack_script + w.redeem_script) for w in wits]))
    D.eq(t.witness_signing(), signing, 'witness signing')
    D.eq(t.witness_signing_hash(), blake256(signing), 'witness signing hash')


@theorem('C16', networks=is_decred, functions=['riemann.tx.decred.DecredTx'])
def tx_refused(D):
    ver = D.bytes('version')
    ins = D.list('ins', 0, None, mk_in)
    outs = D.list('outs', 0, None, mk_out)
    lock = D.bytes('lock_time')
    exp = D.bytes('expiry')
    wits = D.list('wits', 0, None, mk_wit)
    r = outcome(decred.DecredTx, ver, ins, outs, lock, exp, wits)
    if not (len(ver) == 4 and len(lock) == 4 and len(exp) == 4
            and len(ins) > 0 and len(outs) > 0):
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C16', networks=is_decred, functions=['riemann.tx.decred.DecredTx'])
def tx_elements(D):
    ver, ins, outs, lock, exp, wits = parts(D)
    bad = D.choice('bad', [b'\x00', None, 3])
    more = D.list('more', 0, None, mk_wit)
    f = decred.DecredTx
    no = ('raise', 'ValueError')
    D.eq(outcome(f, ver, ins + [bad], outs, lock, exp, wits), no, 'input')
    D.eq(outcome(f, ver, ins, outs + [bad], lock, exp, wits), no, 'output')
    D.eq(outcome(f, ver, ins, outs, lock, exp, wits + [bad] + more), no,
         'witness')
    D.eq(outcome(f, ver, outs, outs, lock, exp, wits), no,
         'outputs as inputs')
    D.eq(outcome(f, ver, ins, ins, lock, exp, wits), no,
         'inputs as outputs')
    D.eq(outcome(f, ver, ins, outs, lock, exp, outs), no,
         'outputs as witnesses')


# ------------------------------------------------------------------- digests

def signed_tx(D, out):
    """a transaction with a witness for each input"""
    ver = D.bytes('version', 4, 4)
    n = D.size('count', 1)
    ins = D.list('ins', n, n, mk_in)
    outs = D.list('outs', 1, None, out)
    lock = D.bytes('lock_time', 4, 4)
    exp = D.bytes('expiry', 4, 4)
    wits = D.list('wits', n, n, mk_wit)
    D.assume(len(enc_tx(ver, ins, outs, lock, exp, wits)) <= LIMIT)
    return (ver, ins, outs, lock, exp, wits,
            decred.DecredTx(ver, ins, outs, lock, exp, wits))


def blank(w, script):
    return w.value + w.height + w.index + var(script)


def copy_fits(D, ver, ins, outs, lock, exp, wits, index, script):
    """the copies made on the way have to be valid transactions"""
    b = (ver + enc_ins(ins) + outs + lock + exp + cs(len(wits))
         + cat([blank(w, b'') for w in wits[:index]])
         + blank(wits[index], script)
         + cat([blank(w, b'') for w in wits[index + 1:]]))
    D.assume(len(b) <= LIMIT)


def signing_all(ver, n, index, script):
    return (ver[:2] + b'\x03\x00' + cs(n)
            + cat([cs(0) for _ in range(index)]) + var(script)
            + cat([cs(0) for _ in range(index + 1, n)]))


def signing_one(ver, script):
    return ver[:2] + b'\x03\x00' + cs(1) + var(script)


def digest(kind, prefix, signing):
    return blake256(le(kind, 4) + blake256(prefix) + blake256(signing))


def one_in(i):
    return cs(1) + enc_in(i, i.sequence)


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTx.sighash_all'])
def sighash_all(D):
    ver, ins, outs, lock, exp, wits, t = signed_tx(D, mk_out)
    index = D.index('signed', 0, len(ins) - 1)
    script = D.bytes('script')
    copy_fits(D, ver, ins, enc_outs(outs), lock, exp, wits, index, script)
    D.eq(t.sighash_all(index, script),
         digest(ALL, enc_prefix(ver, ins, outs, lock, exp),
                signing_all(ver, len(ins), index, script)), 'digest')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTx.sighash_all'])
def sighash_all_acp(D):
    ver, ins, outs, lock, exp, wits, t = signed_tx(D, mk_out)
    index = D.index('signed', 0, len(ins) - 1)
    script = D.bytes('script')
    copy_fits(D, ver, ins, enc_outs(outs), lock, exp, wits, index, script)
    prefix = (ver[:2] + b'\x01\x00' + one_in(ins[index]) + enc_outs(outs)
              + lock + exp)
    D.assume(len(prefix) + 30 + len(script) <= LIMIT)
    D.eq(t.sighash_all(index, script, True),
         digest(ALL + ACP, prefix, signing_one(ver, script)), 'digest')


def single_outs(outs, index):
    return (cs(index + 1)
            + cat([b'\xff' * 8 + b'\x00\x00' + cs(0) for _ in outs[:index]])
            + enc_out(outs[index]))


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTx.sighash_single'])
def sighash_single(D):
    """outputs of script version 0, the only one in use"""
    ver, ins, outs, lock, exp, wits, t = signed_tx(D, mk_out_v0)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    script = D.bytes('script')
    copy_fits(D, ver, ins, enc_outs(outs), lock, exp, wits, index, script)
    copy_fits(D, ver, ins, single_outs(outs, index), lock, exp, wits, index,
              script)
    zero = b'\x00' * 4
    prefix = (ver[:2] + b'\x01\x00' + cs(len(ins))
              + cat([enc_in(i, zero) for i in ins[:index]])
              + enc_in(ins[index], ins[index].sequence)
              + cat([enc_in(i, zero) for i in ins[index + 1:]])
              + single_outs(outs, index) + lock + exp)
    D.eq(t.sighash_single(index, script),
         digest(SINGLE, prefix, signing_all(ver, len(ins), index, script)),
         'digest')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTx.sighash_single'])
def sighash_single_acp(D):
    ver, ins, outs, lock, exp, wits, t = signed_tx(D, mk_out_v0)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    script = D.bytes('script')
    copy_fits(D, ver, ins, enc_outs(outs), lock, exp, wits, index, script)
    copy_fits(D, ver, ins, single_outs(outs, index), lock, exp, wits, index,
              script)
    prefix = (ver[:2] + b'\x01\x00' + one_in(ins[index])
              + single_outs(outs, index) + lock + exp)
    D.assume(len(prefix) + 30 + len(script) <= LIMIT)
    D.eq(t.sighash_single(index, script, True),
         digest(SINGLE + ACP, prefix, signing_one(ver, script)), 'digest')


@theorem('C16', networks=is_decred,
         functions=['riemann.tx.decred.DecredTx.sighash_all',
                    'riemann.tx.decred.DecredTx.sighash_single',
                    'riemann.tx.decred.DecredTx.sighash_none'])
def digest_refused(D):
    """no such input or output; SIGHASH_NONE"""
    ver, ins, outs, lock, exp, wits, t = signed_tx(D, mk_out)
    index = D.int('signed', 0, 2 ** 40)
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    D.eq(outcome(t.sighash_none), ('raise', 'NotImplementedError'), 'none')
    if index >= len(outs):
        D.eq(outcome(t.sighash_single, index, script, acp)[0], 'raise',
             'no output')
    if index >= len(ins):
        D.eq(outcome(t.sighash_all, index, script, acp)[0], 'raise',
             'no input, all')
        D.eq(outcome(t.sighash_single, index, script, acp)[0], 'raise',
             'no input, single')


@theorem('C16', networks=not_decred,
         functions=['riemann.tx.decred.DecredOutpoint',
                    'riemann.tx.decred.DecredTxOut'])
def elsewhere(D):
    """no Decred objects on other networks"""
    no = ('raise', 'ValueError')
    D.eq(outcome(decred.DecredOutpoint, D.bytes('tx_id', 32, 32),
                 D.bytes('index', 4, 4), D.bytes('tree', 1, 1)), no,
         'outpoint')
    D.eq(outcome(decred.DecredTxOut, D.bytes('value', 8, 8),
                 D.bytes('version', 2, 2), D.bytes('script')), no, 'output')
    D.eq(outcome(decred.DecredInputWitness, D.bytes('v', 8, 8),
                 D.bytes('h', 4, 4), D.bytes('n', 4, 4), b'', b''), no,
         'witness')
