"""C18: fees."""
from dv.api import theorem, outcome
from riemann.tx import tx, sprout, overwinter, sapling, decred
from theorems.lib import mk_txin, is_decred
from theorems.zlib import (
    is_sprout, is_overwinter, is_sapling, mk_sprout_joinsplit,
    mk_sapling_joinsplit, mk_spend, mk_output)
from theorems.c10_tx import FLAG
from theorems import c16_decred


def mk_out(D):
    """an output of a given amount"""
    return tx.TxOut(D.bytes('value', 8, 8), D.bytes('script'))


def amount(b):
    return int.from_bytes(b, 'little')


def mk_value(D):
    return D.int('amount', 0, 2 ** 64 - 1)


@theorem('C18', functions=['riemann.tx.tx.Tx.calculate_fee'])
def bitcoin(D):
    flag = D.choice('flag', [None, FLAG])
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_out)
    t = tx.Tx(D.bytes('version', 4, 4), flag, ins, outs, None,
              D.bytes('lock_time', 4, 4))
    values = D.list('values', 0, None, mk_value)
    D.eq(t.calculate_fee(values),
         sum(values) - sum([amount(o.value) for o in outs]), 'fee')


def shielded(js):
    """value that joinsplits add to a transaction"""
    return sum([amount(j.vpub_new) - amount(j.vpub_old) for j in js])


def fee(D, r, outs, added):
    D.assume(r[0] == 'ok')
    values = D.list('values', 0, None, mk_value)
    D.eq(r[1].calculate_fee(values), sum(values)
         - sum([amount(o.value) for o in outs]) + added, 'fee')


@theorem('C18', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.calculate_fee'])
def sprout_fee(D):
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_out)
    js = D.list('js', 0, None, mk_sprout_joinsplit)
    fee(D, outcome(sprout.SproutTx, b'\x02\x00\x00\x00', ins, outs, lock, js,
                   D.bytes('key', 32, 32), D.bytes('sig', 64, 64)),
        outs, shielded(js))


@theorem('C18', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.calculate_fee'])
def sprout_fee_v1(D):
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_out)
    fee(D, outcome(sprout.SproutTx, b'\x01\x00\x00\x00', ins, outs, lock, (),
                   None, None), outs, 0)


@theorem('C18', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.calculate_fee'])
def overwinter_fee(D):
    lock = D.bytes('lock_time', 4, 4)
    exp = D.bytes('expiry', 4, 4)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_out)
    js = D.list('js', 0, 5, mk_sprout_joinsplit)
    fee(D, outcome(overwinter.OverwinterTx, ins, outs, lock, exp, js,
                   D.bytes('key', 32, 32), D.bytes('sig', 64, 64)),
        outs, shielded(js))


@theorem('C18', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx.calculate_fee'])
def sapling_fee(D):
    lock = D.bytes('lock_time', 4, 4)
    exp = D.bytes('expiry', 4, 4)
    balance = D.bytes('balance', 8, 8)
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_out)
    spends = D.list('spends', 0, None, mk_spend)
    outputs = D.list('outputs', 0, None, mk_output)
    js = D.list('js', 0, 5, mk_sapling_joinsplit)
    fee(D, outcome(sapling.SaplingTx, ins, outs, lock, exp, balance, spends,
                   outputs, js, D.bytes('key', 32, 32),
                   D.bytes('sig', 64, 64), D.bytes('binding', 64, 64)),
        outs, shielded(js) + int.from_bytes(balance, 'little', signed=True))


@theorem('C18', networks=is_decred,
         functions=['riemann.tx.decred.DecredTx.calculate_fee'])
def decred_fee(D):
    ins = D.list('ins', 1, None, c16_decred.mk_in)
    outs = D.list('outs', 1, None, c16_decred.mk_out)
    wits = D.list('wits', 1, None, c16_decred.mk_wit)
    r = outcome(decred.DecredTx, D.bytes('version', 4, 4), ins, outs,
                D.bytes('lock_time', 4, 4), D.bytes('expiry', 4, 4), wits)
    D.assume(r[0] == 'ok')
    D.eq(r[1].calculate_fee(), sum([amount(w.value) for w in wits])
         - sum([amount(o.value) for o in outs]), 'fee')
