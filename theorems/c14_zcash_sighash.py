"""C14: Zcash signature digests (Sprout; ZIP-143; ZIP-243)."""
from dv.api import theorem, outcome
from riemann.tx import sapling, sprout, overwinter
from theorems.lib import (
    blake2b, cs, cat, hash256, le, var, enc_txin, enc_txout, mk_txin,
    mk_txout_long)
from theorems.zlib import (
    is_sprout, is_overwinter, is_sapling, mk_sprout_joinsplit)
from theorems.c12_legacy_sighash import sig_in, outs_single
from theorems.c15_zcash import (
    OVERWINTER, SAPLING, LIMIT, enc_overwinter, enc_sapling, enc_sprout,
    sapling_parts)

ALL = 1
SINGLE = 3
ACP = 0x80
ZERO = b'\x00' * 32


# ------------------------------------------------------------------- Sprout

def sprout_tx(D, joinsplits):
    """the fields of a valid Sprout transaction with inputs, and it"""
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = ()
    key = None
    sig = None
    ver = b'\x02\x00\x00\x00'
    if joinsplits:
        js = D.list('js', 1, 5, mk_sprout_joinsplit)
        key = D.bytes('key', 32, 32)
        sig = D.bytes('sig', 64, 64)
    else:
        ver = D.choice('version', [b'\x01\x00\x00\x00', ver])
    D.assume(len(enc_sprout(ver, ins, outs, lock, js, key, sig)) <= LIMIT)
    t = sprout.SproutTx(ver, ins, outs, lock, js, key, sig)
    return ver, ins, outs, lock, js, key, t


def ins_all(ins, index, script):
    return (cs(len(ins))
            + cat([sig_in(i, b'', i.sequence) for i in ins[:index]])
            + sig_in(ins[index], script, ins[index].sequence)
            + cat([sig_in(i, b'', i.sequence) for i in ins[index + 1:]]))


def ins_single(ins, index, script):
    zero = b'\x00' * 4
    return (cs(len(ins))
            + cat([sig_in(i, b'', zero) for i in ins[:index]])
            + sig_in(ins[index], script, ins[index].sequence)
            + cat([sig_in(i, b'', zero) for i in ins[index + 1:]]))


def ins_acp(ins, index, script):
    return cs(1) + sig_in(ins[index], script, ins[index].sequence)


def outs_all(outs):
    return cs(len(outs)) + cat([enc_txout(o) for o in outs])


def sprout_tail(ver, js, key):
    """the joinsplits, with a null signature"""
    out = b''
    if ver == b'\x02\x00\x00\x00':
        out += cs(len(js)) + cat([j.to_bytes() for j in js])
        if len(js) > 0:
            out += key + b'\x00' * 64
    return out


def sprout_digest(D, r, m, code):
    """the digest of message m, unless it is too large for a transaction"""
    if len(m) > LIMIT:
        return
    D.eq(r, ('ok', hash256(m + le(code, 4))), 'digest')


@theorem('C14', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.sighash_all'])
def sprout_all(D):
    with_js = D.choice('joinsplits', [False, True])
    ver, ins, outs, lock, js, key, t = sprout_tx(D, with_js)
    index = D.index('signed', 0, len(ins) - 1)
    script = D.bytes('script', 0, 1650)
    m = (ver + ins_all(ins, index, script) + outs_all(outs) + lock
         + sprout_tail(ver, js, key))
    sprout_digest(D, outcome(t.sighash_all, index, var(script)), m, ALL)


@theorem('C14', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.sighash_all'])
def sprout_all_acp(D):
    ver, ins, outs, lock, js, key, t = sprout_tx(D, False)
    index = D.index('signed', 0, len(ins) - 1)
    script = D.bytes('script', 0, 1650)
    m = (ver + ins_acp(ins, index, script) + outs_all(outs) + lock
         + sprout_tail(ver, js, key))
    r = outcome(t.sighash_all, index, var(script), True)
    # the copy that still has all inputs has to fit
    big = ver + ins_all(ins, index, script) + outs_all(outs) + lock
    D.assume(len(big) + 1 <= LIMIT)
    sprout_digest(D, r, m, ALL + ACP)


@theorem('C14', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.sighash_single'])
def sprout_single(D):
    ver, ins, outs, lock, js, key, t = sprout_tx(D, False)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script', 0, 1650)
    tail = outs_single(outs, index) + lock + sprout_tail(ver, js, key)
    big = ver + ins_all(ins, index, script) + outs_all(outs) + lock
    D.assume(len(big) + 1 <= LIMIT)
    m = ver + ins_single(ins, index, script) + tail
    D.assume(len(m) <= LIMIT)
    r = outcome(t.sighash_single, index, var(script), acp)
    if acp:
        sprout_digest(D, r, ver + ins_acp(ins, index, script) + tail,
                      SINGLE + ACP)
    else:
        sprout_digest(D, r, m, SINGLE)


@theorem('C14', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.sighash_all',
                    'riemann.tx.sprout.SproutTx.sighash_single'])
def sprout_refused(D):
    """no such input or output; what joinsplits do not permit"""
    with_js = D.choice('joinsplits', [False, True])
    ver, ins, outs, lock, js, key, t = sprout_tx(D, with_js)
    index = D.int('signed', 0, 2 ** 40)
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script', 0, 1650)
    if len(js) > 0:
        D.eq(outcome(t.sighash_single, index, var(script), acp),
             ('raise', 'ValueError'), 'single with joinsplits')
    elif index >= len(outs):
        D.eq(outcome(t.sighash_single, index, var(script), acp),
             ('raise', 'NotImplementedError'), 'no output')
    if index >= len(ins):
        r = outcome(t.sighash_all, index, var(script), acp)
        D.eq(r[0], 'raise', 'no input, all')
        r = outcome(t.sighash_single, index, var(script), acp)
        D.eq(r[0], 'raise', 'no input, single')
    if len(js) > 0 and acp:
        r = outcome(t.sighash_all, index, var(script), acp)
        D.eq(r[0], 'raise', 'anyone can pay with joinsplits')


@theorem('C14', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.sighash_all'])
def sprout_joinsplit_only(D):
    """without inputs: what the joinsplit key signs"""
    lock = D.bytes('lock_time', 4, 4)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = D.list('js', 1, 5, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    ver = b'\x02\x00\x00\x00'
    D.assume(len(enc_sprout(ver, (), outs, lock, js, key, sig)) <= LIMIT)
    t = sprout.SproutTx(ver, (), outs, lock, js, key, sig)
    m = ver + cs(0) + outs_all(outs) + lock + sprout_tail(ver, js, key)
    index = D.int('signed', 0, 2 ** 40)
    D.eq(t.sighash_all(index, D.bytes('script')), hash256(m + le(ALL, 4)),
         'digest')


# ------------------------------------------------------- ZIP-143 and ZIP-243

def prevouts_hash(ins, acp):
    if acp:
        return ZERO
    return blake2b(cat([i.outpoint.tx_id + i.outpoint.index for i in ins]),
                   b'ZcashPrevoutHash')


def sequence_hash(ins, acp, kind):
    if acp or kind == SINGLE:
        return ZERO
    return blake2b(cat([i.sequence for i in ins]), b'ZcashSequencHash')


def outputs_hash(outs, kind, index):
    if kind == SINGLE:
        return blake2b(enc_txout(outs[index]), b'ZcashOutputsHash')
    return blake2b(cat([enc_txout(o) for o in outs]), b'ZcashOutputsHash')


def joinsplits_hash(js, key):
    if len(js) == 0:
        return ZERO
    return blake2b(cat([j.to_bytes() for j in js]) + key,
                   b'ZcashJSplitsHash')


def spends_hash(spends):
    if len(spends) == 0:
        return ZERO
    return blake2b(cat([s.cv + s.anchor + s.nullifier + s.rk
                        + s.zkproof.to_bytes() for s in spends]),
                   b'ZcashSSpendsHash')


def shielded_outputs_hash(souts):
    if len(souts) == 0:
        return ZERO
    return blake2b(cat([s.to_bytes() for s in souts]), b'ZcashSOutputHash')


def signed_input(i, script, value):
    return (i.outpoint.tx_id + i.outpoint.index + script + value
            + i.sequence)


def overwinter_parts(D):
    lock = D.bytes('lock_time', 4, 4)
    exp = le(D.int('expiry', 0, 499999999), 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = D.list('js', 0, 5, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    D.assume(len(ins) > 0 or len(js) > 0)
    return ins, outs, lock, exp, js, key, sig


def flag_code(kind, acp):
    return kind + (ACP if acp else 0)


def zip143(a, kind, acp, index):
    """the message up to the signed input"""
    ins, outs, lock, exp, js, key, sig = a
    return (OVERWINTER + prevouts_hash(ins, acp)
            + sequence_hash(ins, acp, kind) + outputs_hash(outs, kind, index)
            + joinsplits_hash(js, key) + lock + exp
            + le(flag_code(kind, acp), 4))


def zip143_digest(m):
    return blake2b(m, b'ZcashSigHash' + bytes.fromhex('191ba85b'))


def overwinter_tx(D):
    a = overwinter_parts(D)
    D.assume(len(enc_overwinter(*a)) <= LIMIT)
    return a, overwinter.OverwinterTx(*a)


@theorem('C14', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.sighash'])
def overwinter_digest(D):
    a, t = overwinter_tx(D)
    ins = a[0]
    outs = a[1]
    index = D.index('signed', 0, len(ins) - 1)
    kind = D.choice('type', [ALL, SINGLE])
    if kind == SINGLE:
        D.assume(index < len(outs))
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    m = zip143(a, kind, acp, index) + signed_input(ins[index], script, value)
    D.eq(t.sighash(kind, value, script, index=index, anyone_can_pay=acp),
         zip143_digest(m), 'digest')


@theorem('C14', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.sighash_all',
                    'riemann.tx.overwinter.OverwinterTx.sighash_single'])
def overwinter_shortcuts(D):
    """sighash_all and sighash_single (these ignore anyone_can_pay, a known
    finding)"""
    a, t = overwinter_tx(D)
    ins = a[0]
    outs = a[1]
    index = D.index('signed', 0, len(ins) - 1)
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    tail = signed_input(ins[index], script, value)
    D.eq(t.sighash_all(index=index, script_code=script, prevout_value=value),
         zip143_digest(zip143(a, ALL, False, index) + tail), 'all')
    if index < len(outs):
        D.eq(t.sighash_single(index=index, script_code=script,
                              prevout_value=value),
             zip143_digest(zip143(a, SINGLE, False, index) + tail), 'single')


@theorem('C14', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.sighash'])
def overwinter_joinsplit(D):
    """what the joinsplit key signs"""
    a, t = overwinter_tx(D)
    script = D.bytes('script')
    value = D.bytes('value')
    D.eq(t.sighash(ALL, value, script, joinsplit=True),
         zip143_digest(zip143(a, ALL, False, 0)), 'digest')
    D.eq(outcome(t.sighash, ALL, value, script, joinsplit=True,
                 anyone_can_pay=True), ('raise', 'ValueError'), 'refused')


@theorem('C14', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.sighash'])
def overwinter_index(D):
    a, t = overwinter_tx(D)
    index = D.int('signed', 0, 2 ** 40)
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    if index >= len(a[1]):
        D.eq(outcome(t.sighash, SINGLE, value, script, index=index,
                     anyone_can_pay=acp),
             ('raise', 'NotImplementedError'), 'no output')
    if index >= len(a[0]):
        D.eq(outcome(t.sighash, ALL, value, script, index=index,
                     anyone_can_pay=acp)[0], 'raise', 'no input, all')
        D.eq(outcome(t.sighash, SINGLE, value, script, index=index,
                     anyone_can_pay=acp)[0], 'raise', 'no input, single')


def zip243(a, kind, acp, index):
    ins, outs, lock, exp, bal, spends, souts, js, key, sig, bind = a
    return (SAPLING + prevouts_hash(ins, acp) + sequence_hash(ins, acp, kind)
            + outputs_hash(outs, kind, index) + joinsplits_hash(js, key)
            + spends_hash(spends) + shielded_outputs_hash(souts)
            + lock + exp + bal + le(flag_code(kind, acp), 4))


def zip243_digest(m):
    return blake2b(m, b'ZcashSigHash' + bytes.fromhex('bb09b876'))


def sapling_tx(D):
    a = sapling_parts(D, mk_txout_long)
    D.assume(len(enc_sapling(*a)) <= LIMIT)
    return a, sapling.SaplingTx(*a)


@theorem('C14', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx.sighash',
                    'riemann.tx.sapling.SaplingTx.sighash_all',
                    'riemann.tx.sapling.SaplingTx.sighash_single'])
def sapling_digest(D):
    a, t = sapling_tx(D)
    ins = a[0]
    outs = a[1]
    index = D.index('signed', 0, len(ins) - 1)
    kind = D.choice('type', [ALL, SINGLE])
    if kind == SINGLE:
        D.assume(index < len(outs))
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    m = zip243(a, kind, acp, index) + signed_input(ins[index], script, value)
    d = zip243_digest(m)
    D.eq(t.sighash(kind, value, index=index, script_code=script,
                   anyone_can_pay=acp), d, 'digest')
    if kind == ALL:
        D.eq(t.sighash_all(acp, index=index, script_code=script,
                           prevout_value=value), d, 'all')
    else:
        D.eq(t.sighash_single(acp, index=index, script_code=script,
                              prevout_value=value), d, 'single')


@theorem('C14', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx.sighash'])
def sapling_joinsplit(D):
    """what the joinsplit and binding keys sign"""
    a, t = sapling_tx(D)
    value = D.bytes('value')
    D.eq(t.sighash(ALL, value, joinsplit=True),
         zip243_digest(zip243(a, ALL, False, 0)), 'digest')
    D.eq(outcome(t.sighash, ALL, value, joinsplit=True,
                 anyone_can_pay=True), ('raise', 'ValueError'), 'refused')


@theorem('C14', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx.sighash'])
def sapling_index(D):
    a, t = sapling_tx(D)
    index = D.int('signed', 0, 2 ** 40)
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    if index >= len(a[1]):
        D.eq(outcome(t.sighash, SINGLE, value, index=index,
                     script_code=script, anyone_can_pay=acp),
             ('raise', 'NotImplementedError'), 'no output')
    if index >= len(a[0]):
        D.eq(outcome(t.sighash, ALL, value, index=index, script_code=script,
                     anyone_can_pay=acp)[0], 'raise', 'no input, all')
        D.eq(outcome(t.sighash, SINGLE, value, index=index,
                     script_code=script, anyone_can_pay=acp)[0], 'raise',
             'no input, single')


@theorem('C14', networks=is_overwinter, known='C14-overwinter-acp')
def overwinter_shortcuts_acp(D):
    """the specific calls of the known finding"""
    a, t = overwinter_tx(D)
    D.assume(len(a[0]) > 0 and len(a[1]) > 0)
    script = b'\x00'
    value = b'\x00' * 8
    tail = signed_input(a[0][0], script, value)
    D.eq(t.sighash_all(True, index=0, script_code=script,
                       prevout_value=value),
         zip143_digest(zip143(a, ALL, True, 0) + tail), 'all')
    D.eq(t.sighash_single(True, index=0, script_code=script,
                          prevout_value=value),
         zip143_digest(zip143(a, SINGLE, True, 0) + tail), 'single')
