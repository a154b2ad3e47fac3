"""C11: transaction ids."""
from dv.api import theorem, outcome, fails
from riemann.tx import tx
from theorems.lib import (
    hash256, not_decred, mk_txin, mk_txout_long, mk_witness)
from theorems.c10_tx import enc_tx, FLAG


@theorem('C11', networks=not_decred, functions=['riemann.tx.tx.Tx'])
def legacy_ids(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    t = tx.Tx(ver, None, ins, outs, None, lock)
    h = hash256(enc_tx(ver, None, ins, outs, (), lock))
    D.eq(t.tx_id_le, h, 'tx_id_le')
    D.eq(t.tx_id, h[::-1], 'tx_id')
    D.eq(t.wtx_id_le, None, 'wtx_id_le')
    D.eq(t.wtx_id, None, 'wtx_id')


@theorem('C11', networks=not_decred, functions=['riemann.tx.tx.Tx'])
def segwit_ids(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    n = D.size('count', 1)
    ins = D.list('ins', n, n, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    wits = D.list('wits', n, n, mk_witness)
    t = tx.Tx(ver, FLAG, ins, outs, wits, lock)
    base = enc_tx(ver, None, ins, outs, (), lock)
    full = enc_tx(ver, FLAG, ins, outs, wits, lock)
    D.eq(t.no_witness(), base, 'no_witness')
    D.eq(t.tx_id_le, hash256(base), 'tx_id_le')
    D.eq(t.tx_id, hash256(base)[::-1], 'tx_id')
    D.eq(t.wtx_id_le, hash256(full), 'wtx_id_le')
    D.eq(t.wtx_id, hash256(full)[::-1], 'wtx_id')


@theorem('C11', networks=not_decred, functions=['riemann.tx.tx.Tx'])
def unsigned_segwit_ids(D):
    ver = D.bytes('version', 4, 4)
    lock = D.bytes('lock_time', 4, 4)
    ins = D.list('ins', 1, None, mk_txin)
    outs = D.list('outs', 1, None, mk_txout_long)
    t = tx.Tx(ver, FLAG, ins, outs, D.choice('wits', [None, ()]), lock)
    base = enc_tx(ver, None, ins, outs, (), lock)
    full = enc_tx(ver, FLAG, ins, outs, (), lock)
    D.eq(t.tx_id_le, hash256(base), 'tx_id_le')
    D.eq(t.tx_id, hash256(base)[::-1], 'tx_id')
    D.eq(t.wtx_id_le, hash256(full), 'wtx_id_le')
    D.eq(t.wtx_id, hash256(full)[::-1], 'wtx_id')
