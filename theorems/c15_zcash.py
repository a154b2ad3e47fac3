"""C15: Zcash transactions and shielded parts: wire format, validation."""
from dv.api import theorem, outcome, fails
from riemann.tx import sapling, sprout, overwinter, zcash_shared as z
from theorems.lib import (
    blake2b, cs, cat, hash256, le, enc_txin, enc_txout, mk_txin, mk_txout,
    mk_txout_long)
from theorems.zlib import (
    SPROUT_PROOF, SAPLING_PROOF, JOINSPLIT, SPEND, OUTPUT, is_sprout,
    is_overwinter, is_sapling, is_zcash, mk_fields, enc_fields,
    mk_sprout_proof, mk_sapling_proof, joinsplit_fields, mk_sprout_joinsplit,
    mk_sapling_joinsplit, mk_spend, mk_output)


def part_layout(D, cls, fields, sizes):
    """fields -> bytes -> fields"""
    t = cls(**fields)
    enc = enc_fields(fields, sizes)
    D.eq(t.to_bytes(), enc, 'layout')
    for k in sizes:
        D.eq(getattr(t, k), fields[k], k)
    rest = D.bytes('rest')
    u = cls.from_bytes(enc + rest)
    D.eq(u.to_bytes(), enc, 'parsed bytes')
    D.check(type(u) is cls, 'parsed class')
    for k, n in sizes.items():
        if n is not None:
            D.eq(getattr(u, k), fields[k], 'parsed ' + k)
        else:
            D.eq(getattr(u, k).to_bytes(), fields[k].to_bytes(),
                 'parsed ' + k)


def part_refused(D, cls, fields, sizes):
    """cut short, or one field of another length or type"""
    if D.choice('how', ['cut', 'field']) == 'cut':
        enc = enc_fields(fields, sizes)
        cut = D.int('cut', 0, 2000)
        D.assume(cut < len(enc))
        D.check(fails(cls.from_bytes, enc[:cut]), 'refused')
        return
    bad = D.choice('bad', list(sizes))
    kind = D.choice('bad_kind', ['bytes', 'none', 'text', 'number'])
    if kind == 'bytes':
        v = D.bytes('bad_value')
        if sizes[bad] is not None:
            D.assume(len(v) != sizes[bad])
    elif kind == 'none':
        v = None
    elif kind == 'text':
        v = 'x' * 8
    else:
        v = D.int('bad_number', 0, 2 ** 40)
    fields[bad] = v
    D.check(fails(cls, **fields), 'refused')


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.zcash_shared.SproutZkproof'])
def sprout_proof(D):
    f = mk_fields(D, SPROUT_PROOF, None)
    part_layout(D, z.SproutZkproof, f, SPROUT_PROOF)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.zcash_shared.SproutZkproof'])
def sprout_proof_refused(D):
    f = mk_fields(D, SPROUT_PROOF, None)
    part_refused(D, z.SproutZkproof, f, SPROUT_PROOF)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.zcash_shared.SproutJoinsplit'])
def sprout_joinsplit(D):
    f = joinsplit_fields(D, mk_sprout_proof(D))
    part_layout(D, z.SproutJoinsplit, f, JOINSPLIT)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.zcash_shared.SproutJoinsplit'])
def sprout_joinsplit_refused(D):
    f = joinsplit_fields(D, mk_sprout_proof(D))
    part_refused(D, z.SproutJoinsplit, f, JOINSPLIT)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.zcash_shared.SproutJoinsplit',
                    'riemann.tx.sapling.SaplingJoinsplit'])
def joinsplit_values(D):
    """one of the two public values must be zero"""
    f = mk_fields(D, JOINSPLIT, mk_sprout_proof(D))
    g = mk_fields(D, JOINSPLIT, mk_sapling_proof(D), 'g_')
    a = f['vpub_old']
    b = f['vpub_new']
    g['vpub_old'] = a
    g['vpub_new'] = b
    zero = b'\x00' * 8
    r = outcome(z.SproutJoinsplit, **f)
    s = outcome(sapling.SaplingJoinsplit, **g)
    if a == zero or b == zero:
        D.eq(r[0], 'ok', 'sprout accepted')
        D.eq(s[0], 'ok', 'sapling accepted')
    else:
        D.eq(r, ('raise', 'ValueError'), 'sprout refused')
        D.eq(s, ('raise', 'ValueError'), 'sapling refused')


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingZkproof'])
def sapling_proof(D):
    f = mk_fields(D, SAPLING_PROOF, None)
    part_layout(D, sapling.SaplingZkproof, f, SAPLING_PROOF)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingZkproof'])
def sapling_proof_refused(D):
    f = mk_fields(D, SAPLING_PROOF, None)
    part_refused(D, sapling.SaplingZkproof, f, SAPLING_PROOF)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingJoinsplit'])
def sapling_joinsplit(D):
    f = joinsplit_fields(D, mk_sapling_proof(D))
    part_layout(D, sapling.SaplingJoinsplit, f, JOINSPLIT)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingJoinsplit'])
def sapling_joinsplit_refused(D):
    f = joinsplit_fields(D, mk_sapling_proof(D))
    part_refused(D, sapling.SaplingJoinsplit, f, JOINSPLIT)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingShieldedSpend'])
def shielded_spend(D):
    f = mk_fields(D, SPEND, mk_sapling_proof(D))
    part_layout(D, sapling.SaplingShieldedSpend, f, SPEND)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingShieldedSpend'])
def shielded_spend_refused(D):
    f = mk_fields(D, SPEND, mk_sapling_proof(D))
    part_refused(D, sapling.SaplingShieldedSpend, f, SPEND)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingShieldedOutput'])
def shielded_output(D):
    f = mk_fields(D, OUTPUT, mk_sapling_proof(D))
    part_layout(D, sapling.SaplingShieldedOutput, f, OUTPUT)


@theorem('C15', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingShieldedOutput'])
def shielded_output_refused(D):
    f = mk_fields(D, OUTPUT, mk_sapling_proof(D))
    part_refused(D, sapling.SaplingShieldedOutput, f, OUTPUT)


# ------------------------------------------------------------ transactions

LIMIT = 100000


def enc_sprout(ver, ins, outs, lock, js, key, sig):
    out = (ver + cs(len(ins)) + cat([enc_txin(i) for i in ins])
           + cs(len(outs)) + cat([enc_txout(o) for o in outs]) + lock)
    if ver == b'\x02\x00\x00\x00':
        out += cs(len(js)) + cat([j.to_bytes() for j in js])
        if len(js) > 0:
            out += key + sig
    return out


def hsig(j, key):
    return blake2b(j.random_seed + j.nullifiers + key, b'ZcashComputehSig')


def primary_input(j, key):
    return (j.anchor + j.nullifiers + j.commitments + j.vpub_old
            + j.vpub_new + hsig(j, key) + j.vmacs)


def same_ins(D, got, want):
    D.eq([x.to_bytes() for x in got], [x.to_bytes() for x in want], 'inputs')


def ids(D, t, enc):
    D.eq(t.tx_id_le, hash256(enc), 'tx_id_le')
    D.eq(t.tx_id, hash256(enc)[::-1], 'tx_id')


@theorem('C15', networks=is_sprout, functions=['riemann.tx.sprout.SproutTx'])
def sprout_v1(D):
    ver = b'\x01\x00\x00\x00'
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    enc = enc_sprout(ver, ins, outs, lock, (), None, None)
    r = outcome(sprout.SproutTx, ver, ins, outs, lock, (), None, None)
    if len(enc) > LIMIT:
        D.eq(r, ('raise', 'ValueError'), 'too large')
        return
    D.eq(r[0], 'ok', 'accepted')
    t = r[1]
    D.eq(t.to_bytes(), enc, 'layout')
    ids(D, t, enc)
    D.eq(t.version, ver, 'version')
    D.eq(t.tx_ins, tuple(ins), 'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.lock_time, lock, 'lock time')
    D.eq(t.tx_joinsplits, (), 'joinsplits')
    D.eq(t.joinsplit_pubkey, None, 'key')
    D.eq(t.joinsplit_sig, None, 'signature')
    D.eq(t.hsigs, (), 'hsigs')
    D.eq(t.primary_inputs, (), 'primary inputs')


@theorem('C15', networks=is_sprout, functions=['riemann.tx.sprout.SproutTx'])
def sprout_v2(D):
    ver = b'\x02\x00\x00\x00'
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = D.list('js', 0, 5, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    enc = enc_sprout(ver, ins, outs, lock, js, key, sig)
    r = outcome(sprout.SproutTx, ver, ins, outs, lock, js, key, sig)
    if len(enc) > LIMIT:
        D.eq(r, ('raise', 'ValueError'), 'too large')
        return
    D.eq(r[0], 'ok', 'accepted')
    t = r[1]
    D.eq(t.to_bytes(), enc, 'layout')
    ids(D, t, enc)
    D.eq(t.version, ver, 'version')
    D.eq(t.tx_ins, tuple(ins), 'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.lock_time, lock, 'lock time')
    D.eq(t.tx_joinsplits, tuple(js), 'joinsplits')
    D.eq(t.joinsplit_pubkey, key, 'key')
    D.eq(t.joinsplit_sig, sig, 'signature')
    D.eq(t.hsigs, tuple([hsig(j, key) for j in js]), 'hsigs')
    D.eq(t.primary_inputs, tuple([primary_input(j, key) for j in js]),
         'primary inputs')


def err(D, r, name):
    D.check(r[0] == 'raise', name)


@theorem('C15', networks=is_sprout, functions=['riemann.tx.sprout.SproutTx'])
def sprout_refused(D):
    """a version other than 1 and 2, fields of another length, joinsplits or
    no inputs in version 1, more than five joinsplits"""
    ver = D.bytes('version')
    lock = D.bytes('lock_time')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = D.list('js', 0, None, mk_sprout_joinsplit)
    key = D.bytes('key')
    sig = D.bytes('sig')
    r = outcome(sprout.SproutTx, ver, ins, outs, lock, js, key, sig)
    good = (ver == b'\x01\x00\x00\x00' and len(ins) > 0 and len(js) == 0
            or ver == b'\x02\x00\x00\x00' and len(js) <= 5
            and (len(js) == 0 or len(key) == 32 and len(sig) == 64))
    if not good or len(lock) != 4:
        # an empty signature is what the signature hash is computed over
        if len(js) > 0 and len(sig) == 0:
            return
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C15', networks=is_sprout, functions=['riemann.tx.sprout.SproutTx'])
def sprout_elements(D):
    ver = D.choice('version', [b'\x01\x00\x00\x00', b'\x02\x00\x00\x00'])
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    js = D.list('js', 0, 3, mk_sprout_joinsplit)
    more = D.list('more_js', 0, 1, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    bad = D.choice('bad', [b'\x00', None, 3])
    two = b'\x02\x00\x00\x00'
    f = sprout.SproutTx
    D.eq(outcome(f, ver, ins + [bad], outs, lock, (), None, None),
         ('raise', 'ValueError'), 'input')
    D.eq(outcome(f, ver, outs, outs, lock, (), None, None),
         ('raise', 'ValueError'), 'outputs as inputs')
    D.eq(outcome(f, ver, ins, outs + [bad] + outs, lock, (), None, None),
         ('raise', 'ValueError'), 'output')
    D.eq(outcome(f, ver, ins, ins, lock, (), None, None),
         ('raise', 'ValueError'), 'inputs as outputs')
    D.eq(outcome(f, two, ins, outs, lock, js + [bad] + more, key, sig),
         ('raise', 'ValueError'), 'joinsplit')


def parsed(D, t, enc, ins, outs, lock):
    D.eq(t.to_bytes(), enc, 'bytes')
    D.eq([x.to_bytes() for x in t.tx_ins], [x.to_bytes() for x in ins],
         'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.lock_time, lock, 'lock time')


@theorem('C15', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.from_bytes'])
def sprout_v1_parse(D):
    ver = b'\x01\x00\x00\x00'
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout)
    enc = enc_sprout(ver, ins, outs, lock, (), None, None)
    D.assume(len(enc) <= LIMIT)
    t = sprout.SproutTx.from_bytes(enc + D.bytes('rest'))
    parsed(D, t, enc, ins, outs, lock)
    D.eq(t.version, ver, 'version')
    D.eq(t.tx_joinsplits, (), 'joinsplits')


@theorem('C15', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.from_bytes'])
def sprout_v2_parse(D):
    ver = b'\x02\x00\x00\x00'
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout)
    js = D.list('js', 0, 5, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    enc = enc_sprout(ver, ins, outs, lock, js, key, sig)
    D.assume(len(enc) <= LIMIT)
    t = sprout.SproutTx.from_bytes(enc + D.bytes('rest'))
    parsed(D, t, enc, ins, outs, lock)
    D.eq(t.version, ver, 'version')
    D.eq([x.to_bytes() for x in t.tx_joinsplits],
         [x.to_bytes() for x in js], 'joinsplits')
    if len(js) > 0:
        D.eq(t.joinsplit_pubkey, key, 'key')
        D.eq(t.joinsplit_sig, sig, 'signature')
    else:
        D.eq(t.joinsplit_pubkey, None, 'key')
        D.eq(t.joinsplit_sig, None, 'signature')


# --------------------------------------------------------------- Overwinter

OVERWINTER = b'\x03\x00\x00\x80' + bytes.fromhex('7082c403')
SAPLING = b'\x04\x00\x00\x80' + bytes.fromhex('85202f89')


def enc_overwinter(ins, outs, lock, exp, js, key, sig):
    out = (OVERWINTER + cs(len(ins)) + cat([enc_txin(i) for i in ins])
           + cs(len(outs)) + cat([enc_txout(o) for o in outs])
           + lock + exp + cs(len(js)) + cat([j.to_bytes() for j in js]))
    if len(js) > 0:
        out += key + sig
    return out


def joinsplits(D, t, js, key, sig):
    """the joinsplit fields of t and what is derived from them"""
    D.eq(t.tx_joinsplits, tuple(js), 'joinsplits')
    if len(js) > 0:
        D.eq(t.joinsplit_pubkey, key, 'key')
        D.eq(t.joinsplit_sig, sig, 'signature')
    else:
        D.eq(t.joinsplit_pubkey, None, 'key')
        D.eq(t.joinsplit_sig, None, 'signature')
    D.eq(t.hsigs, tuple([hsig(j, key) for j in js]), 'hsigs')
    D.eq(t.primary_inputs, tuple([primary_input(j, key) for j in js]),
         'primary inputs')


def parsed_joinsplits(D, t, js, key, sig):
    D.eq([x.to_bytes() for x in t.tx_joinsplits],
         [x.to_bytes() for x in js], 'joinsplits')
    if len(js) > 0:
        D.eq(t.joinsplit_pubkey, key, 'key')
        D.eq(t.joinsplit_sig, sig, 'signature')
    else:
        D.eq(t.joinsplit_pubkey, None, 'key')
        D.eq(t.joinsplit_sig, None, 'signature')


@theorem('C15', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx'])
def overwinter_layout(D):
    lock = D.bytes('lock_time', 4, 4)
    height = D.int('expiry', 0, 499999999)
    exp = le(height, 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = D.list('js', 0, 5, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    D.assume(len(ins) > 0 or len(js) > 0)
    enc = enc_overwinter(ins, outs, lock, exp, js, key, sig)
    r = outcome(overwinter.OverwinterTx, ins, outs, lock, exp, js, key, sig)
    if len(enc) > LIMIT:
        D.eq(r, ('raise', 'ValueError'), 'too large')
        return
    D.eq(r[0], 'ok', 'accepted')
    t = r[1]
    D.eq(t.to_bytes(), enc, 'layout')
    ids(D, t, enc)
    D.eq(t.header + t.group_id, OVERWINTER, 'header')
    D.eq(t.tx_ins, tuple(ins), 'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.lock_time, lock, 'lock time')
    D.eq(t.expiry_height, exp, 'expiry height')
    joinsplits(D, t, js, key, sig)


@theorem('C15', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx'])
def overwinter_refused(D):
    lock = D.bytes('lock_time')
    exp = D.bytes('expiry')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = D.list('js', 0, None, mk_sprout_joinsplit)
    key = D.bytes('key')
    sig = D.bytes('sig')
    r = outcome(overwinter.OverwinterTx, ins, outs, lock, exp, js, key, sig)
    good = (len(lock) == 4 and len(exp) == 4
            and int.from_bytes(exp, 'little') <= 499999999
            and len(ins) + len(js) > 0 and len(js) <= 5
            and (len(js) == 0 or len(key) == 32 and len(sig) == 64))
    if not good:
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C15', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx'])
def overwinter_elements(D):
    lock = D.bytes('lock_time', 4, 4)
    exp = le(D.int('expiry', 0, 499999999), 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    js = D.list('js', 0, 3, mk_sprout_joinsplit)
    more = D.list('more_js', 0, 1, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    bad = D.choice('bad', [b'\x00', None, 3])
    f = overwinter.OverwinterTx
    D.eq(outcome(f, ins + [bad], outs, lock, exp, (), None, None),
         ('raise', 'ValueError'), 'input')
    D.eq(outcome(f, outs, outs, lock, exp, (), None, None),
         ('raise', 'ValueError'), 'outputs as inputs')
    D.eq(outcome(f, ins, outs + [bad] + outs, lock, exp, (), None, None),
         ('raise', 'ValueError'), 'output')
    D.eq(outcome(f, ins, ins, lock, exp, (), None, None),
         ('raise', 'ValueError'), 'inputs as outputs')
    D.eq(outcome(f, ins, outs, lock, exp, js + [bad] + more, key, sig),
         ('raise', 'ValueError'), 'joinsplit')


@theorem('C15', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.from_bytes'])
def overwinter_parse(D):
    lock = D.bytes('lock_time', 4, 4)
    exp = le(D.int('expiry', 0, 499999999), 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout)
    js = D.list('js', 0, 5, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    D.assume(len(ins) > 0 or len(js) > 0)
    enc = enc_overwinter(ins, outs, lock, exp, js, key, sig)
    D.assume(len(enc) <= LIMIT)
    t = overwinter.OverwinterTx.from_bytes(enc + D.bytes('rest'))
    parsed(D, t, enc, ins, outs, lock)
    D.eq(t.expiry_height, exp, 'expiry height')
    parsed_joinsplits(D, t, js, key, sig)


@theorem('C15', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.from_bytes'])
def overwinter_header(D):
    """another header or group id is refused"""
    b = D.bytes('b')
    D.assume(b[:8] != OVERWINTER)
    D.eq(outcome(overwinter.OverwinterTx.from_bytes, b),
         ('raise', 'ValueError'), 'refused')


# ------------------------------------------------------------------ Sapling

def enc_sapling(ins, outs, lock, exp, bal, spends, souts, js, key, sig,
                bind):
    out = (SAPLING + cs(len(ins)) + cat([enc_txin(i) for i in ins])
           + cs(len(outs)) + cat([enc_txout(o) for o in outs])
           + lock + exp + bal
           + cs(len(spends)) + cat([x.to_bytes() for x in spends])
           + cs(len(souts)) + cat([x.to_bytes() for x in souts])
           + cs(len(js)) + cat([j.to_bytes() for j in js]))
    if len(js) > 0:
        out += key + sig
    if len(spends) + len(souts) > 0:
        out += bind
    return out


def sapling_parts(D, mk):
    """the arguments of a valid Sapling transaction"""
    lock = D.bytes('lock_time', 4, 4)
    exp = le(D.int('expiry', 0, 499999999), 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk)
    bal = D.bytes('balance', 8, 8)
    spends = D.list('spends', 0, None, mk_spend)
    souts = D.list('shielded_outs', 0, None, mk_output)
    js = D.list('js', 0, 5, mk_sapling_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    bind = D.bytes('binding_sig', 64, 64)
    D.assume(len(ins) > 0 or len(js) > 0 or len(spends) > 0)
    if len(spends) + len(souts) == 0:
        bal = b'\x00' * 8
    return (ins, outs, lock, exp, bal, spends, souts, js, key, sig, bind)


@theorem('C15', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx'])
def sapling_layout(D):
    a = sapling_parts(D, mk_txout_long)
    ins, outs, lock, exp, bal, spends, souts, js, key, sig, bind = a
    enc = enc_sapling(*a)
    r = outcome(sapling.SaplingTx, *a)
    if len(enc) > LIMIT:
        D.eq(r, ('raise', 'ValueError'), 'too large')
        return
    D.eq(r[0], 'ok', 'accepted')
    t = r[1]
    D.eq(t.to_bytes(), enc, 'layout')
    ids(D, t, enc)
    D.eq(t.header + t.group_id, SAPLING, 'header')
    D.eq(t.tx_ins, tuple(ins), 'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.lock_time, lock, 'lock time')
    D.eq(t.expiry_height, exp, 'expiry height')
    D.eq(t.value_balance, bal, 'value balance')
    D.eq(t.tx_shielded_spends, tuple(spends), 'spends')
    D.eq(t.tx_shielded_outputs, tuple(souts), 'shielded outputs')
    joinsplits(D, t, js, key, sig)
    if len(spends) + len(souts) > 0:
        D.eq(t.binding_sig, bind, 'binding signature')
    else:
        D.eq(t.binding_sig, None, 'binding signature')


@theorem('C15', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx'])
def sapling_refused(D):
    lock = D.bytes('lock_time')
    exp = D.bytes('expiry')
    bal = D.bytes('balance')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    spends = D.list('spends', 0, None, mk_spend)
    souts = D.list('shielded_outs', 0, None, mk_output)
    js = D.list('js', 0, None, mk_sapling_joinsplit)
    key = D.bytes('key')
    sig = D.bytes('sig')
    bind = D.bytes('binding_sig')
    r = outcome(sapling.SaplingTx, ins, outs, lock, exp, bal, spends, souts,
                js, key, sig, bind)
    good = (len(lock) == 4 and len(exp) == 4 and len(bal) == 8
            and int.from_bytes(exp, 'little') <= 499999999
            and len(ins) + len(js) + len(spends) > 0 and len(js) <= 5
            and (len(js) == 0 or len(key) == 32 and len(sig) == 64))
    if good:
        if len(spends) + len(souts) > 0:
            good = len(bind) == 64
        else:
            good = bal == b'\x00' * 8
    if not good:
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C15', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx'])
def sapling_elements(D):
    lock = D.bytes('lock_time', 4, 4)
    exp = le(D.int('expiry', 0, 499999999), 4)
    bal = D.bytes('balance', 8, 8)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    spends = D.list('spends', 1, None, mk_spend)
    souts = D.list('shielded_outs', 1, None, mk_output)
    js = D.list('js', 0, 3, mk_sapling_joinsplit)
    old = D.list('old_js', 1, 1, mk_sprout_joinsplit)
    key = D.bytes('key', 32, 32)
    sig = D.bytes('sig', 64, 64)
    bind = D.bytes('binding_sig', 64, 64)
    bad = D.choice('bad', [b'\x00', None, 3])
    f = sapling.SaplingTx
    no = ('raise', 'ValueError')
    D.eq(outcome(f, ins + [bad], outs, lock, exp, bal, spends, souts, js,
                 key, sig, bind), no, 'input')
    D.eq(outcome(f, outs, outs, lock, exp, bal, spends, souts, js,
                 key, sig, bind), no, 'outputs as inputs')
    D.eq(outcome(f, ins, outs + [bad] + outs, lock, exp, bal, spends, souts,
                 js, key, sig, bind), no, 'output')
    D.eq(outcome(f, ins, ins, lock, exp, bal, spends, souts, js,
                 key, sig, bind), no, 'inputs as outputs')
    D.eq(outcome(f, ins, outs, lock, exp, bal, spends + [bad], souts, js,
                 key, sig, bind), no, 'spend')
    D.eq(outcome(f, ins, outs, lock, exp, bal, souts, souts, js,
                 key, sig, bind), no, 'outputs as spends')
    D.eq(outcome(f, ins, outs, lock, exp, bal, spends, souts + [bad], js,
                 key, sig, bind), no, 'shielded output')
    D.eq(outcome(f, ins, outs, lock, exp, bal, spends, spends, js,
                 key, sig, bind), no, 'spends as outputs')
    D.eq(outcome(f, ins, outs, lock, exp, bal, spends, souts, js + [bad],
                 key, sig, bind), no, 'joinsplit')
    D.eq(outcome(f, ins, outs, lock, exp, bal, spends, souts, js + old,
                 key, sig, bind), no, 'Sprout joinsplit')


@theorem('C15', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx.from_bytes'])
def sapling_parse(D):
    a = sapling_parts(D, mk_txout)
    ins, outs, lock, exp, bal, spends, souts, js, key, sig, bind = a
    enc = enc_sapling(*a)
    D.assume(len(enc) <= LIMIT)
    t = sapling.SaplingTx.from_bytes(enc + D.bytes('rest'))
    parsed(D, t, enc, ins, outs, lock)
    D.eq(t.expiry_height, exp, 'expiry height')
    D.eq(t.value_balance, bal, 'value balance')
    D.eq([x.to_bytes() for x in t.tx_shielded_spends],
         [x.to_bytes() for x in spends], 'spends')
    D.eq([x.to_bytes() for x in t.tx_shielded_outputs],
         [x.to_bytes() for x in souts], 'shielded outputs')
    parsed_joinsplits(D, t, js, key, sig)
    if len(spends) + len(souts) > 0:
        D.eq(t.binding_sig, bind, 'binding signature')
    else:
        D.eq(t.binding_sig, None, 'binding signature')


@theorem('C15', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx.from_bytes'])
def sapling_header(D):
    """another header or group id is refused"""
    b = D.bytes('b')
    D.assume(b[:8] != SAPLING)
    D.eq(outcome(sapling.SaplingTx.from_bytes, b),
         ('raise', 'ValueError'), 'refused')


@theorem('C15', networks=lambda n: not is_sprout(n),
         functions=['riemann.tx.sprout.SproutTx'])
def sprout_elsewhere(D):
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    D.eq(outcome(sprout.SproutTx, b'\x01\x00\x00\x00', ins, outs, lock, (),
                 None, None), ('raise', 'ValueError'), 'refused')


@theorem('C15', networks=lambda n: not is_overwinter(n),
         functions=['riemann.tx.overwinter.OverwinterTx'])
def overwinter_elsewhere(D):
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    D.eq(outcome(overwinter.OverwinterTx, ins, outs, lock, b'\x00' * 4, (),
                 None, None), ('raise', 'ValueError'), 'refused')


@theorem('C15', networks=lambda n: not is_sapling(n),
         functions=['riemann.tx.sapling.SaplingTx'])
def sapling_elsewhere(D):
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    D.eq(outcome(sapling.SaplingTx, ins, outs, lock, b'\x00' * 4, b'\x00' * 8,
                 (), (), (), None, None, None),
         ('raise', 'ValueError'), 'refused')
