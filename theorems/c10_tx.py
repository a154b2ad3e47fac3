"""C10: Bitcoin transactions: wire format, parsing, validation."""
from dv.api import theorem, outcome, fails
from riemann.tx import tx
from theorems.lib import (
    cs, cat, enc_txin, enc_txout, enc_witness, mk_txin, mk_txout,
    mk_txout_long, mk_witness)

FLAG = b'\x00\x01'


def enc_tx(version, flag, ins, outs, wits, lock_time):
    """the wire format"""
    body = (cs(len(ins)) + cat([enc_txin(i) for i in ins])
            + cs(len(outs)) + cat([enc_txout(o) for o in outs]))
    wit = cat([enc_witness(w) for w in wits])
    return version + (flag or b'') + body + wit + lock_time


@theorem('C10', functions=['riemann.tx.tx.Tx'])
def legacy_layout(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    wits = D.choice('wits', [None, ()])
    t = tx.Tx(ver, None, ins, outs, wits, lock)
    D.eq(t.to_bytes(), enc_tx(ver, None, ins, outs, (), lock), 'layout')
    D.eq(t.version, ver, 'version')
    D.eq(t.flag, None, 'flag')
    D.eq(t.tx_ins, tuple(ins), 'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.tx_witnesses, wits, 'witnesses')
    D.eq(t.lock_time, lock, 'lock time')
    D.check(not t.is_witness(), 'is_witness')


@theorem('C10', functions=['riemann.tx.tx.Tx'])
def segwit_layout(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    n = D.size('count', 1)
    ins = D.list('ins', n, n, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    wits = D.list('wits', n, n, mk_witness)
    t = tx.Tx(ver, FLAG, ins, outs, wits, lock)
    D.eq(t.to_bytes(), enc_tx(ver, FLAG, ins, outs, wits, lock), 'layout')
    D.eq(t.version, ver, 'version')
    D.eq(t.flag, FLAG, 'flag')
    D.eq(t.tx_ins, tuple(ins), 'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.tx_witnesses, tuple(wits), 'witnesses')
    D.eq(t.lock_time, lock, 'lock time')
    D.check(t.is_witness(), 'is_witness')


@theorem('C10', functions=['riemann.tx.tx.Tx'])
def unsigned_segwit_layout(D):
    """a flag and no witnesses"""
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    wits = D.choice('wits', [None, ()])
    t = tx.Tx(ver, FLAG, ins, outs, wits, lock)
    D.eq(t.to_bytes(), enc_tx(ver, FLAG, ins, outs, (), lock), 'layout')
    D.check(t.is_witness(), 'is_witness')


@theorem('C10', functions=['riemann.tx.tx.Tx.from_bytes'])
def legacy_parse(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout)
    enc = enc_tx(ver, None, ins, outs, (), lock)
    rest = D.bytes('rest')
    t = tx.Tx.from_bytes(enc + rest)
    D.eq(t.to_bytes(), enc, 'bytes')
    D.eq(t.version, ver, 'version')
    D.eq(t.flag, None, 'flag')
    D.eq(t.lock_time, lock, 'lock time')
    D.eq([x.to_bytes() for x in t.tx_ins], [x.to_bytes() for x in ins],
         'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.check(not t.tx_witnesses, 'witnesses')


@theorem('C10', functions=['riemann.tx.tx.Tx.from_bytes'])
def segwit_parse(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    n = D.size('count', 1)
    ins = D.list('ins', n, n, mk_txin)
    outs = D.list('outs', 1, None, mk_txout)
    wits = D.list('wits', n, n, mk_witness)
    enc = enc_tx(ver, FLAG, ins, outs, wits, lock)
    rest = D.bytes('rest')
    t = tx.Tx.from_bytes(enc + rest)
    D.eq(t.to_bytes(), enc, 'bytes')
    D.eq(t.version, ver, 'version')
    D.eq(t.flag, FLAG, 'flag')
    D.eq(t.lock_time, lock, 'lock time')
    D.eq([x.to_bytes() for x in t.tx_ins], [x.to_bytes() for x in ins],
         'inputs')
    D.eq(t.tx_outs, tuple(outs), 'outputs')
    D.eq(t.tx_witnesses, tuple(wits), 'witnesses')


@theorem('C10', functions=['riemann.tx.tx.Tx.from_bytes'])
def unsigned_segwit_parse(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout)
    enc = enc_tx(ver, FLAG, ins, outs, (), lock)
    t = tx.Tx.from_bytes(enc)
    D.eq(t.to_bytes(), enc, 'bytes')
    D.eq(t.flag, FLAG, 'flag')
    D.check(not t.tx_witnesses, 'witnesses')


@theorem('C10', functions=['riemann.tx.tx.Tx.from_hex'])
def hex_parse(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout)
    enc = enc_tx(ver, None, ins, outs, (), lock)
    t = tx.Tx.from_hex(enc.hex())
    D.eq(t.to_bytes(), enc, 'bytes')
    D.eq(t.hex(), enc.hex(), 'hex')


@theorem('C10', functions=['riemann.tx.tx.Tx'])
def bad_fields_refused(D):
    ver = D.bytes('version')
    lock = D.bytes('lock_time')
    flag = D.choice('kind', [None, FLAG, 'other'])
    if flag == 'other':
        flag = D.bytes('flag')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    r = outcome(tx.Tx, ver, flag, ins, outs, [], lock)
    if (len(ver) == 4 and len(lock) == 4 and len(ins) > 0 and len(outs) > 0
            and (flag is None or flag == FLAG)):
        D.eq(r[0], 'ok', 'accepted')
    else:
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C10', functions=['riemann.tx.tx.Tx'])
def witness_count(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    flag = D.choice('flag', [None, FLAG])
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    wits = D.list('wits', 1, None, mk_witness)
    r = outcome(tx.Tx, ver, flag, ins, outs, wits, lock)
    if flag is not None and len(ins) == len(wits):
        D.eq(r[0], 'ok', 'accepted')
    else:
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C10', functions=['riemann.tx.tx.Tx'])
def wrong_elements_refused(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    more_ins = D.list('more_ins', 0, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    more_outs = D.list('more_outs', 0, None, mk_txout_long)
    bad = D.choice('bad', [b'\x00', None, 3])
    D.eq(outcome(tx.Tx, ver, None, ins + [bad] + more_ins, outs, [], lock),
         ('raise', 'ValueError'), 'input')
    D.eq(outcome(tx.Tx, ver, None, ins, outs + [bad] + more_outs, [], lock),
         ('raise', 'ValueError'), 'output')
    D.eq(outcome(tx.Tx, ver, FLAG, ins[:1], outs, [bad], lock),
         ('raise', 'ValueError'), 'witness')
    D.eq(outcome(tx.Tx, ver, None, outs, outs, [], lock),
         ('raise', 'ValueError'), 'outputs as inputs')
    D.eq(outcome(tx.Tx, ver, None, ins, ins, [], lock),
         ('raise', 'ValueError'), 'inputs as outputs')
