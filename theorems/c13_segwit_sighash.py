"""C13: BIP-143 digests, and fork-id digests."""
import riemann
from dv.api import theorem, outcome
from riemann.tx import tx
from theorems.lib import (
    cat, le, hash256, no_forkid, has_forkid, not_decred, enc_txout, mk_txin,
    mk_txout_long, mk_witness)
from theorems.c10_tx import FLAG

ALL = 1
SINGLE = 3
ACP = 0x80
FORKID = 0x40
ZERO = b'\x00' * 32


def bip143(ver, ins, outs, lock, index, script, value, kind, acp, code):
    if acp:
        prevouts = ZERO
    else:
        prevouts = hash256(cat([i.outpoint.tx_id + i.outpoint.index
                                for i in ins]))
    if acp or kind == SINGLE:
        sequences = ZERO
    else:
        sequences = hash256(cat([i.sequence for i in ins]))
    if kind == SINGLE:
        outputs = hash256(enc_txout(outs[index]))
    else:
        outputs = hash256(cat([enc_txout(o) for o in outs]))
    signed = ins[index]
    return (ver + prevouts + sequences
            + signed.outpoint.tx_id + signed.outpoint.index + script + value
            + signed.sequence + outputs + lock + le(code, 4))


def witness_tx(D, legacy):
    """version, inputs, outputs, lock time, transaction"""
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    n = D.size('count', 1)
    ins = D.list('ins', n, n, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    kind = D.choice('kind', ['legacy', 'unsigned', 'signed'])
    if kind == 'legacy':
        D.assume(legacy)
        t = tx.Tx(ver, None, ins, outs, None, lock)
    elif kind == 'unsigned':
        t = tx.Tx(ver, FLAG, ins, outs, None, lock)
    else:
        wits = D.list('wits', n, n, mk_witness)
        t = tx.Tx(ver, FLAG, ins, outs, wits, lock)
    return ver, ins, outs, lock, t


def flag_code(kind, acp):
    return kind + (ACP if acp else 0)


@theorem('C13', networks=no_forkid,
         functions=['riemann.tx.tx.Tx.sighash_all'])
def segwit_all(D):
    ver, ins, outs, lock, t = witness_tx(D, False)
    index = D.index('signed', 0, len(ins) - 1)
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    m = bip143(ver, ins, outs, lock, index, script, value, ALL, acp,
               flag_code(ALL, acp))
    D.eq(t.sighash_all(index, script, value, acp), hash256(m), 'digest')


@theorem('C13', networks=no_forkid,
         functions=['riemann.tx.tx.Tx.sighash_single'])
def segwit_single(D):
    ver, ins, outs, lock, t = witness_tx(D, False)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    m = bip143(ver, ins, outs, lock, index, script, value, SINGLE, acp,
               flag_code(SINGLE, acp))
    D.eq(t.sighash_single(index, script, value, acp), hash256(m), 'digest')


@theorem('C13', networks=not_decred,
         functions=['riemann.tx.tx.Tx.segwit_sighash'])
def segwit_direct(D):
    """called directly, on any transaction"""
    ver, ins, outs, lock, t = witness_tx(D, True)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    kind = D.choice('type', [ALL, SINGLE])
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    m = bip143(ver, ins, outs, lock, index, script, value, kind, acp,
               flag_code(kind, acp))
    D.eq(t.segwit_sighash(index, kind, value, script, acp), hash256(m),
         'digest')


@theorem('C13', networks=has_forkid,
         functions=['riemann.tx.tx.Tx.sighash_all'])
def forkid_all(D):
    ver, ins, outs, lock, t = witness_tx(D, True)
    index = D.index('signed', 0, len(ins) - 1)
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    code = flag_code(ALL, acp) + FORKID + riemann.network.FORKID * 256
    m = bip143(ver, ins, outs, lock, index, script, value, ALL, acp, code)
    D.eq(t.sighash_all(index, script, value, acp), hash256(m), 'digest')


@theorem('C13', networks=has_forkid,
         functions=['riemann.tx.tx.Tx.sighash_single'])
def forkid_single(D):
    ver, ins, outs, lock, t = witness_tx(D, True)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    code = flag_code(SINGLE, acp) + FORKID + riemann.network.FORKID * 256
    m = bip143(ver, ins, outs, lock, index, script, value, SINGLE, acp, code)
    D.eq(t.sighash_single(index, script, value, acp), hash256(m), 'digest')


@theorem('C13', networks=has_forkid,
         functions=['riemann.tx.tx.Tx.sighash_all',
                    'riemann.tx.tx.Tx.sighash_single'])
def forkid_amount_required(D):
    ver, ins, outs, lock, t = witness_tx(D, True)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.choice('amount_kind', [None, 'bytes'])
    if value is not None:
        value = D.bytes('value')
        D.assume(len(value) != 8)
    D.eq(outcome(t.sighash_all, index, script, value, acp),
         ('raise', 'ValueError'), 'all')
    D.eq(outcome(t.sighash_single, index, script, value, acp),
         ('raise', 'ValueError'), 'single')


@theorem('C13', networks=not_decred,
         functions=['riemann.tx.tx.Tx.sighash_all',
                    'riemann.tx.tx.Tx.sighash_single',
                    'riemann.tx.tx.Tx.segwit_sighash'])
def undefined_refused(D):
    ver, ins, outs, lock, t = witness_tx(D, False)
    index = D.int('signed', 0, 2 ** 40)
    acp = D.choice('anyone_can_pay', [False, True])
    script = D.bytes('script')
    value = D.bytes('value', 8, 8)
    if index >= len(ins):
        D.eq(outcome(t.sighash_all, index, script, value, acp),
             ('raise', 'IndexError'), 'all, no input')
    if index >= len(outs):
        D.eq(outcome(t.sighash_single, index, script, value, acp),
             ('raise', 'NotImplementedError'), 'single, no output')
    D.assume(index < len(ins))
    kind = D.int('type', 0, 255)
    D.assume(kind != ALL and kind != SINGLE)
    D.eq(outcome(t.segwit_sighash, index, kind, value, script, acp),
         ('raise', 'NotImplementedError'), 'other types')
