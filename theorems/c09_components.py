"""C09: transaction components: layout, validation, parsing."""
from dv.api import theorem, outcome, fails
from riemann.tx import tx
from theorems.c00_contracts import DESER, HEXDESER, SER
from theorems.lib import (
    cs, var, cat, enc_txin, enc_txout, enc_witness, mk_outpoint, mk_txin,
    mk_txout, mk_txout_long, mk_item, mk_witness)


@theorem('C09', functions=['riemann.tx.tx.Outpoint'])
def outpoint_layout(D):
    a = D.bytes('tx_id')
    b = D.bytes('index')
    r = outcome(tx.Outpoint, a, b)
    if len(a) == 32 and len(b) == 4:
        D.eq(r[0], 'ok', 'accepted')
        D.eq(r[1].to_bytes(), a + b, 'layout')
        D.eq(r[1].tx_id, a, 'tx_id')
        D.eq(r[1].index, b, 'index')
    else:
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C09', functions=['riemann.tx.tx.Outpoint.from_bytes'])
def outpoint_parse(D):
    s = D.bytes('s')
    r = outcome(tx.Outpoint.from_bytes, s)
    if len(s) >= 36:
        D.eq(r[0], 'ok', 'accepted')
        D.eq(r[1].to_bytes(), s[:36], 'bytes')
        D.eq(r[1].tx_id, s[:32], 'tx_id')
        D.eq(r[1].index, s[32:36], 'index')
    else:
        D.eq(r, ('raise', 'ValueError'), 'truncated refused')


@theorem('C09', functions=['riemann.tx.tx.TxIn'])
def txin_layout(D):
    o = mk_outpoint(D)
    a = D.bytes('stack')
    b = D.bytes('redeem')
    s = D.bytes('sequence')
    r = outcome(tx.TxIn, o, a, b, s)
    if len(s) == 4 and len(a) + len(b) <= 1650:
        D.eq(r[0], 'ok', 'accepted')
        D.eq(r[1].to_bytes(), o.tx_id + o.index + var(a + b) + s, 'layout')
        D.eq(r[1].script_sig, a + b, 'script_sig')
        D.eq(r[1].stack_script, a, 'stack_script')
        D.eq(r[1].redeem_script, b, 'redeem_script')
        D.eq(r[1].sequence, s, 'sequence')
        D.eq(r[1].outpoint.to_bytes(), o.tx_id + o.index, 'outpoint')
    else:
        D.eq(r, ('raise', 'ValueError'), 'refused')


PARSE = dict(functions=['riemann.tx.tx.TxIn.from_bytes'],
             uses=[DESER, HEXDESER, SER],
             disable=['riemann.tx.tx.TxIn.from_bytes'])


@theorem('C09', **PARSE)
def txin_parse(D):
    """every well-formed input parses, whatever its script"""
    o = D.bytes('outpoint', 36, 36)
    script = D.bytes('script', 0, 1650)
    seq = D.bytes('sequence', 4, 4)
    rest = D.bytes('rest')
    enc = o + var(script) + seq
    r = outcome(tx.TxIn.from_bytes, enc + rest)
    D.eq(r[0], 'ok', 'accepted')
    D.eq(r[1].to_bytes(), enc, 'bytes')
    D.eq(r[1].outpoint.to_bytes(), o, 'outpoint')
    D.eq(r[1].script_sig, script, 'script_sig')
    D.eq(r[1].stack_script + r[1].redeem_script, script, 'split')
    D.eq(r[1].sequence, seq, 'sequence')
    D.check(type(r[1]) is tx.TxIn, 'class')


@theorem('C09', **PARSE)
def txin_parse_long(D):
    """a script longer than consensus allows is refused"""
    o = D.bytes('outpoint', 36, 36)
    script = D.bytes('script', 1651)
    seq = D.bytes('sequence', 4, 4)
    rest = D.bytes('rest')
    r = outcome(tx.TxIn.from_bytes, o + var(script) + seq + rest)
    D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C09', **PARSE)
def txin_truncated(D):
    """an input cut short is refused"""
    o = D.bytes('outpoint', 36, 36)
    script = D.bytes('script', 0, 1650)
    seq = D.bytes('sequence', 4, 4)
    enc = o + var(script) + seq
    cut = D.int('cut', 0, 1696)
    D.assume(cut < len(enc))
    D.check(fails(tx.TxIn.from_bytes, enc[:cut]), 'refused')


@theorem('C09', functions=['riemann.tx.tx.TxOut'])
def txout_layout(D):
    v = D.bytes('value')
    s = D.bytes('script')
    r = outcome(tx.TxOut, v, s)
    if len(v) == 8:
        D.eq(r[0], 'ok', 'accepted')
        D.eq(r[1].to_bytes(), v + var(s), 'layout')
        D.eq(r[1].value, v, 'value')
        D.eq(r[1].output_script, s, 'script')
    else:
        D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C09', functions=['riemann.tx.tx.TxOut.from_bytes'])
def txout_parse(D):
    v = D.bytes('value', 8, 8)
    s = D.bytes('script', 0, 251)
    rest = D.bytes('rest')
    r = outcome(tx.TxOut.from_bytes, v + var(s) + rest)
    D.eq(r[0], 'ok', 'accepted')
    D.eq(r[1].to_bytes(), v + var(s), 'bytes')
    D.eq(r[1].value, v, 'value')
    D.eq(r[1].output_script, s, 'script')


@theorem('C09', functions=['riemann.tx.tx.TxOut.from_bytes'])
def txout_long_refused(D):
    v = D.bytes('value', 8, 8)
    s = D.bytes('script', 252)
    r = outcome(tx.TxOut.from_bytes, v + var(s))
    D.eq(r, ('raise', 'NotImplementedError'), 'refused')


@theorem('C09', functions=['riemann.tx.tx.TxOut.from_bytes'])
def txout_truncated(D):
    v = D.bytes('value', 8, 8)
    s = D.bytes('script', 0, 251)
    cut = D.int('cut', 0, 260)
    enc = v + var(s)
    D.assume(cut < len(enc))
    D.check(fails(tx.TxOut.from_bytes, enc[:cut]), 'refused')


@theorem('C09', functions=['riemann.tx.tx.WitnessStackItem'])
def item_layout(D):
    x = D.bytes('item')
    w = tx.WitnessStackItem(x)
    D.eq(w.to_bytes(), var(x), 'layout')
    D.eq(w.item, x, 'item')


@theorem('C09', functions=['riemann.tx.tx.WitnessStackItem.from_bytes'])
def item_parse(D):
    x = D.bytes('item')
    rest = D.bytes('rest')
    r = outcome(tx.WitnessStackItem.from_bytes, var(x) + rest)
    D.eq(r[0], 'ok', 'accepted')
    D.eq(r[1].to_bytes(), var(x), 'bytes')
    D.eq(r[1].item, x, 'item')


@theorem('C09', functions=['riemann.tx.tx.WitnessStackItem.from_bytes'])
def item_truncated(D):
    x = D.bytes('item', 1)
    cut = D.int('cut', 0)
    enc = var(x)
    D.assume(cut < len(enc))
    D.check(fails(tx.WitnessStackItem.from_bytes, enc[:cut]), 'refused')


@theorem('C09', functions=['riemann.tx.tx.InputWitness'])
def witness_layout(D):
    items = D.list('items', 0, None, mk_item)
    w = tx.InputWitness(items)
    D.eq(w.to_bytes(), cs(len(items)) + cat([var(x.item) for x in items]),
         'layout')
    D.eq(w.stack, tuple(items), 'stack')


@theorem('C09', functions=['riemann.tx.tx.InputWitness'])
def witness_wrong_item(D):
    items = D.list('items', 0, None, mk_item)
    more = D.list('more', 0, None, mk_item)
    bad = D.choice('bad', [b'\x00', None, 3])
    r = outcome(tx.InputWitness, items + [bad] + more)
    D.eq(r, ('raise', 'ValueError'), 'refused')


@theorem('C09', functions=['riemann.tx.tx.InputWitness.from_bytes'],
         disable=['riemann.tx.tx.InputWitness.from_bytes'])
def witness_parse(D):
    w = mk_witness(D)
    rest = D.bytes('rest')
    enc = enc_witness(w)
    r = outcome(tx.InputWitness.from_bytes, enc + rest)
    D.eq(r[0], 'ok', 'accepted')
    D.eq(r[1].to_bytes(), enc, 'bytes')
    D.eq(r[1].stack, w.stack, 'stack')
    D.check(type(r[1]) is tx.InputWitness, 'class')
