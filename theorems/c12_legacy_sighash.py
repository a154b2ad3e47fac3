"""C12: legacy signature digests."""
from dv.api import theorem, outcome
from riemann.tx import tx
from theorems.lib import (
    cs, cat, le, var, hash256, no_forkid, has_forkid, enc_txout, mk_txin,
    mk_txout_long)
from theorems.c10_tx import FLAG

ALL = 1
SINGLE = 3
ACP = 0x80


def sig_in(i, script, sequence):
    """an input as the message shows it"""
    return i.outpoint.tx_id + i.outpoint.index + var(script) + sequence


def message_all(ver, ins, outs, lock, index, script):
    return (ver + cs(len(ins))
            + cat([sig_in(i, b'', i.sequence) for i in ins[:index]])
            + sig_in(ins[index], script, ins[index].sequence)
            + cat([sig_in(i, b'', i.sequence) for i in ins[index + 1:]])
            + cs(len(outs)) + cat([enc_txout(o) for o in outs])
            + lock + le(ALL, 4))


def message_all_acp(ver, ins, outs, lock, index, script):
    return (ver + cs(1)
            + sig_in(ins[index], script, ins[index].sequence)
            + cs(len(outs)) + cat([enc_txout(o) for o in outs])
            + lock + le(ALL + ACP, 4))


def outs_single(outs, index):
    """blanks up to the output of the same index"""
    return (cs(index + 1)
            + cat([b'\xff' * 8 + cs(0) for _ in outs[:index]])
            + enc_txout(outs[index]))


def message_single(ver, ins, outs, lock, index, script):
    zero = b'\x00' * 4
    return (ver + cs(len(ins))
            + cat([sig_in(i, b'', zero) for i in ins[:index]])
            + sig_in(ins[index], script, ins[index].sequence)
            + cat([sig_in(i, b'', zero) for i in ins[index + 1:]])
            + outs_single(outs, index) + lock + le(SINGLE, 4))


def message_single_acp(ver, ins, outs, lock, index, script):
    return (ver + cs(1)
            + sig_in(ins[index], script, ins[index].sequence)
            + outs_single(outs, index) + lock + le(SINGLE + ACP, 4))


def legacy_tx(D):
    """version, inputs, outputs, lock time, transaction"""
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    wits = D.choice('wits', [None, ()])
    return ver, ins, outs, lock, tx.Tx(ver, None, ins, outs, wits, lock)


@theorem('C12', networks=no_forkid, functions=['riemann.tx.tx.Tx.sighash_all'])
def sighash_all(D):
    ver, ins, outs, lock, t = legacy_tx(D)
    index = D.index('signed', 0, len(ins) - 1)
    script = D.bytes('script', 0, 1650)
    m = message_all(ver, ins, outs, lock, index, script)
    D.eq(t.sighash_all(index, var(script)), hash256(m), 'digest')


@theorem('C12', networks=no_forkid, functions=['riemann.tx.tx.Tx.sighash_all'])
def sighash_all_acp(D):
    ver, ins, outs, lock, t = legacy_tx(D)
    index = D.index('signed', 0, len(ins) - 1)
    script = D.bytes('script', 0, 1650)
    m = message_all_acp(ver, ins, outs, lock, index, script)
    D.eq(t.sighash_all(index, var(script), anyone_can_pay=True), hash256(m),
         'digest')


@theorem('C12', networks=no_forkid,
         functions=['riemann.tx.tx.Tx.sighash_single'])
def sighash_single(D):
    ver, ins, outs, lock, t = legacy_tx(D)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    script = D.bytes('script', 0, 1650)
    m = message_single(ver, ins, outs, lock, index, script)
    D.eq(t.sighash_single(index, var(script)), hash256(m), 'digest')


@theorem('C12', networks=no_forkid,
         functions=['riemann.tx.tx.Tx.sighash_single'])
def sighash_single_acp(D):
    ver, ins, outs, lock, t = legacy_tx(D)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    script = D.bytes('script', 0, 1650)
    m = message_single_acp(ver, ins, outs, lock, index, script)
    D.eq(t.sighash_single(index, var(script), anyone_can_pay=True),
         hash256(m), 'digest')


@theorem('C12', functions=['riemann.tx.tx.Tx.sighash_single',
                           'riemann.tx.tx.Tx.sighash_none'])
def undefined_refused(D):
    """no input, or no output of that index; SIGHASH_NONE"""
    ver, ins, outs, lock, t = legacy_tx(D)
    index = D.int('signed', 0, 2 ** 40)
    acp = D.bool('anyone_can_pay')
    script = D.bytes('script', 0, 1650)
    value = D.bytes('value', 8, 8)
    D.eq(outcome(t.sighash_none), ('raise', 'NotImplementedError'), 'none')
    if index >= len(outs):
        D.eq(outcome(t.sighash_single, index, var(script), value, acp),
             ('raise', 'NotImplementedError'), 'no output')
    elif index >= len(ins):
        D.eq(outcome(t.sighash_single, index, var(script), value, acp),
             ('raise', 'IndexError'), 'no input')
    if index >= len(ins):
        D.eq(outcome(t.sighash_all, index, var(script), value, acp),
             ('raise', 'IndexError'), 'no input')


@theorem('C12', networks=no_forkid,
         functions=['riemann.tx.tx.Tx.sighash_all',
                    'riemann.tx.tx.Tx.sighash_single'])
def long_script_refused(D):
    ver, ins, outs, lock, t = legacy_tx(D)
    index = D.index('signed', 0, len(ins) - 1)
    D.assume(index < len(outs))
    acp = D.bool('anyone_can_pay')
    script = D.bytes('script', 1651)
    D.eq(outcome(t.sighash_all, index, var(script), None, acp),
         ('raise', 'ValueError'), 'all')
    D.eq(outcome(t.sighash_single, index, var(script), None, acp),
         ('raise', 'ValueError'), 'single')
