"""C22: the builder and simple interfaces."""
from dv.api import theorem, outcome
from riemann import simple
from riemann.encoding import addresses as addr
from riemann.script import serialization
from riemann.tx import tx, sprout, overwinter, sapling, decred
from riemann.tx import tx_builder as tb
from theorems.lib import (
    le, cs, mk_txin, mk_txout_long, mk_witness, mk_outpoint, is_decred,
    not_decred, net_hash160, sha256)
from theorems.zlib import (
    is_sprout, is_overwinter, is_sapling, is_zcash, mk_sprout_joinsplit,
    mk_sapling_joinsplit, mk_spend, mk_output)
from theorems.c10_tx import FLAG
from theorems import c16_decred
import riemann


def plain(n):
    """networks with Bitcoin transactions"""
    return n.NETWORK_NAME != 'decred' and not is_zcash(n)


def fits(n, w):
    return 0 <= n and n < 256 ** w


def same(D, got, want):
    """the same object, or the same refusal"""
    D.eq(got[0], want[0], 'accepted')
    if want[0] == 'ok':
        D.check(type(got[1]) is type(want[1]), 'class')
        a = dict(vars(got[1]))
        b = dict(vars(want[1]))
        D.eq(list(a), list(b), 'fields')
        for k in b:
            D.eq(a[k], b[k], k)
    else:
        D.eq(got[1], want[1], 'refusal')


def number(D, name):
    return D.int(name, -2 ** 70, 2 ** 70)


# ------------------------------------------------------------ transactions

@theorem('C22', networks=plain, record=['riemann.tx.tx.Tx'],
         functions=['riemann.tx.tx_builder.make_tx'])
def make_tx(D):
    version = number(D, 'version')
    lock = number(D, 'lock_time')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    if D.choice('segwit', [False, True]):
        flag = FLAG
        wits = D.list('wits', 0, None, mk_witness)
        got = outcome(tb.make_tx, version, ins, outs, lock,
                      tx_witnesses=wits)
    else:
        flag = None
        wits = None
        got = outcome(tb.make_tx, version, ins, outs, lock)
    if not fits(version, 4) or not fits(lock, 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(tx.Tx, le(version, 4), flag, ins, outs, wits,
                         le(lock, 4)))


@theorem('C22', networks=is_sprout, record=['riemann.tx.sprout.SproutTx'],
         functions=['riemann.tx.tx_builder.make_tx'])
def make_sprout_tx(D):
    version = number(D, 'version')
    lock = number(D, 'lock_time')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    js = D.list('js', 0, None, mk_sprout_joinsplit)
    key = D.bytes('key')
    sig = D.bytes('sig')
    got = outcome(tb.make_tx, version, ins, outs, lock, tx_joinsplits=js,
                  joinsplit_pubkey=key, joinsplit_sig=sig)
    if not fits(version, 4) or not fits(lock, 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(sprout.SproutTx, le(version, 4), ins, outs,
                         le(lock, 4), js, key, sig))


@theorem('C22', networks=is_overwinter,
         record=['riemann.tx.overwinter.OverwinterTx'],
         functions=['riemann.tx.tx_builder.make_tx'])
def make_overwinter_tx(D):
    lock = number(D, 'lock_time')
    expiry = number(D, 'expiry')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    if D.choice('shielded', [False, True]):
        js = D.list('js', 0, None, mk_sprout_joinsplit)
        key = D.bytes('key')
        sig = D.bytes('sig')
        got = outcome(tb.make_tx, 3, ins, outs, lock, expiry,
                      tx_joinsplits=js, joinsplit_pubkey=key,
                      joinsplit_sig=sig)
    else:
        js, key, sig = [], None, None
        got = outcome(tb.make_tx, 3, ins, outs, lock, expiry)
    if not fits(expiry, 4) or not fits(lock, 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(overwinter.OverwinterTx, ins, outs, le(lock, 4),
                         le(expiry, 4), js, key, sig))


@theorem('C22', networks=is_sapling, record=['riemann.tx.sapling.SaplingTx'],
         functions=['riemann.tx.tx_builder.make_tx'])
def make_sapling_tx(D):
    lock = number(D, 'lock_time')
    expiry = number(D, 'expiry')
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    if D.choice('shielded', [False, True]):
        balance = number(D, 'balance')
        spends = D.list('spends', 0, None, mk_spend)
        outputs = D.list('outputs', 0, None, mk_output)
        js = D.list('js', 0, None, mk_sapling_joinsplit)
        key = D.bytes('key')
        sig = D.bytes('sig')
        bind = D.bytes('bind')
        got = outcome(tb.make_tx, 4, ins, outs, lock, expiry, balance,
                      tx_shielded_spends=spends, tx_shielded_outputs=outputs,
                      tx_joinsplits=js, joinsplit_pubkey=key,
                      joinsplit_sig=sig, binding_sig=bind)
    else:
        balance, spends, outputs, js = 0, [], [], []
        key, sig, bind = None, None, None
        got = outcome(tb.make_tx, 4, ins, outs, lock, expiry)
    if (not fits(expiry, 4) or not fits(lock, 4)
            or not (-2 ** 63 <= balance and balance < 2 ** 63)):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(
        sapling.SaplingTx, ins, outs, le(lock, 4), le(expiry, 4),
        balance.to_bytes(8, 'little', signed=True), spends, outputs, js,
        key, sig, bind))


@theorem('C22', networks=is_decred, record=['riemann.tx.decred.DecredTx'],
         functions=['riemann.tx.tx_builder.make_tx'])
def make_decred_tx(D):
    version = number(D, 'version')
    lock = number(D, 'lock_time')
    expiry = number(D, 'expiry')
    ins = D.list('ins', 0, None, c16_decred.mk_in)
    outs = D.list('outs', 0, None, c16_decred.mk_out)
    if D.choice('signed', [False, True]):
        wits = D.list('wits', 0, None, c16_decred.mk_wit)
        got = outcome(tb.make_tx, version, ins, outs, lock, expiry,
                      tx_witnesses=wits)
    else:
        wits = []
        got = outcome(tb.make_tx, version, ins, outs, lock, expiry)
    if not fits(version, 4) or not fits(expiry, 4) or not fits(lock, 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(decred.DecredTx, le(version, 4), ins, outs,
                         le(lock, 4), le(expiry, 4), wits))


@theorem('C22', networks=plain, record=['riemann.tx.tx.Tx'],
         functions=['riemann.simple.unsigned_legacy_tx',
                    'riemann.simple.unsigned_witness_tx'])
def unsigned_tx(D):
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    version, lock, kw = 2, 0, {}
    if D.choice('give_version', [False, True]):
        version = kw['version'] = number(D, 'version')
    if D.choice('give_lock', [False, True]):
        lock = kw['lock_time'] = number(D, 'lock_time')
    if D.choice('segwit', [False, True]):
        got = outcome(simple.unsigned_witness_tx, ins, outs, **kw)
        flag = FLAG
        wits = [tx.InputWitness([]) for _ in ins]
    else:
        got = outcome(simple.unsigned_legacy_tx, ins, outs, **kw)
        flag = None
        wits = None
    if not fits(version, 4) or not fits(lock, 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(tx.Tx, le(version, 4), flag, ins, outs, wits,
                         le(lock, 4)))


def unsigned_args(D, names):
    out = {'version': 2, 'lock_time': 0, 'expiry': 0}
    kw = {}
    for k in names:
        if D.choice('give_' + k, [False, True]):
            out[k] = kw[k] = number(D, k)
    return out, kw


@theorem('C22', networks=is_sprout, record=['riemann.tx.sprout.SproutTx'],
         functions=['riemann.simple.unsigned_legacy_tx'])
def unsigned_sprout_tx(D):
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    v, kw = unsigned_args(D, ['version', 'lock_time'])
    if D.choice('shielded', [False, True]):
        kw['tx_joinsplits'] = D.list('js', 0, None, mk_sprout_joinsplit)
        kw['joinsplit_pubkey'] = D.bytes('key')
        kw['joinsplit_sig'] = D.bytes('sig')
    got = outcome(simple.unsigned_legacy_tx, ins, outs, **kw)
    if not fits(v['version'], 4) or not fits(v['lock_time'], 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(
        sprout.SproutTx, le(v['version'], 4), ins, outs,
        le(v['lock_time'], 4), kw.get('tx_joinsplits', []),
        kw.get('joinsplit_pubkey', []), kw.get('joinsplit_sig', [])))


@theorem('C22', networks=is_overwinter,
         record=['riemann.tx.overwinter.OverwinterTx'],
         functions=['riemann.simple.unsigned_legacy_tx'])
def unsigned_overwinter_tx(D):
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    v, kw = unsigned_args(D, ['lock_time', 'expiry'])
    if D.choice('shielded', [False, True]):
        kw['tx_joinsplits'] = D.list('js', 0, None, mk_sprout_joinsplit)
        kw['joinsplit_pubkey'] = D.bytes('key')
        kw['joinsplit_sig'] = D.bytes('sig')
    got = outcome(simple.unsigned_legacy_tx, ins, outs, **kw)
    if not fits(v['expiry'], 4) or not fits(v['lock_time'], 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(
        overwinter.OverwinterTx, ins, outs, le(v['lock_time'], 4),
        le(v['expiry'], 4), kw.get('tx_joinsplits', []),
        kw.get('joinsplit_pubkey', []), kw.get('joinsplit_sig', [])))


@theorem('C22', networks=is_sapling, record=['riemann.tx.sapling.SaplingTx'],
         functions=['riemann.simple.unsigned_legacy_tx'])
def unsigned_sapling_tx(D):
    ins = D.list('ins', 0, None, mk_txin)
    outs = D.list('outs', 0, None, mk_txout_long)
    v, kw = unsigned_args(D, ['lock_time', 'expiry'])
    got = outcome(simple.unsigned_legacy_tx, ins, outs, **kw)
    if not fits(v['expiry'], 4) or not fits(v['lock_time'], 4):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(
        sapling.SaplingTx, ins, outs, le(v['lock_time'], 4),
        le(v['expiry'], 4), b'\x00' * 8, [], [], [], [], [], None))


@theorem('C22', networks=is_decred, record=['riemann.tx.decred.DecredTx'],
         functions=['riemann.simple.unsigned_legacy_tx'])
def unsigned_decred_tx(D):
    ins = D.list('ins', 0, None, c16_decred.mk_in)
    outs = D.list('outs', 0, None, c16_decred.mk_out)
    v, kw = unsigned_args(D, ['version', 'lock_time', 'expiry'])
    got = outcome(simple.unsigned_legacy_tx, ins, outs, **kw)
    if not (fits(v['version'], 4) and fits(v['expiry'], 4)
            and fits(v['lock_time'], 4)):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, outcome(
        decred.DecredTx, le(v['version'], 4), ins, outs,
        le(v['lock_time'], 4), le(v['expiry'], 4), []))


# -------------------------------------------------------------- components

@theorem('C22', networks=not_decred,
         functions=['riemann.tx.tx_builder.make_outpoint',
                    'riemann.simple.outpoint'])
def outpoint(D):
    i = D.bytes('tx_id')
    n = number(D, 'index')
    got = outcome(tb.make_outpoint, i, n)
    got_s = outcome(simple.outpoint, i.hex(), n)
    if not fits(n, 4):
        D.eq(got[0], 'raise', 'refused')
        D.eq(got_s[0], 'raise', 'refused')
        return
    same(D, got, outcome(tx.Outpoint, i, le(n, 4)))
    same(D, got_s, outcome(tx.Outpoint, i[::-1], le(n, 4)))


@theorem('C22', networks=is_decred,
         functions=['riemann.tx.tx_builder.make_outpoint',
                    'riemann.simple.outpoint'])
def decred_outpoint(D):
    i = D.bytes('tx_id')
    n = number(D, 'index')
    t = D.choice('tree', [None, number(D, 'tree_number')])
    got = outcome(tb.make_outpoint, i, n, t)
    got_s = outcome(simple.outpoint, i.hex(), n, t)
    if t is None:
        t = 0
    if not fits(n, 4) or not fits(t, 1):
        D.eq(got[0], 'raise', 'refused')
        D.eq(got_s[0], 'raise', 'refused')
        return
    same(D, got, outcome(decred.DecredOutpoint, i, le(n, 4), le(t, 1)))
    same(D, got_s, outcome(decred.DecredOutpoint, i[::-1], le(n, 4),
                           le(t, 1)))


@theorem('C22', networks=not_decred,
         functions=['riemann.tx.tx_builder.make_legacy_input',
                    'riemann.tx.tx_builder.make_witness_input',
                    'riemann.simple.unsigned_input'])
def inputs(D):
    o = mk_outpoint(D)
    s = number(D, 'sequence')
    stack = D.bytes('stack', 0, 1000)
    redeem = D.bytes('redeem', 0, 650)
    got = [outcome(tb.make_legacy_input, o, stack, redeem, s),
           outcome(tb.make_witness_input, o, s),
           outcome(simple.unsigned_input, o, s)]
    same(D, outcome(simple.unsigned_input, o),
         outcome(tx.TxIn, o, b'', b'', b'\xfe\xff\xff\xff'))
    if not fits(s, 4):
        for x in got:
            D.eq(x[0], 'raise', 'refused')
        return
    same(D, got[0], outcome(tx.TxIn, o, stack, redeem, le(s, 4)))
    same(D, got[1], outcome(tx.TxIn, o, b'', b'', le(s, 4)))
    same(D, got[2], outcome(tx.TxIn, o, b'', b'', le(s, 4)))


@theorem('C22', networks=is_decred,
         functions=['riemann.tx.tx_builder.make_legacy_input',
                    'riemann.tx.tx_builder.make_witness_input',
                    'riemann.tx.tx_builder.make_decred_input',
                    'riemann.simple.unsigned_input'])
def decred_inputs(D):
    o = decred.DecredOutpoint(D.bytes('tx_id', 32, 32),
                              D.bytes('index', 4, 4), D.bytes('tree', 1, 1))
    s = number(D, 'sequence')
    got = [outcome(tb.make_legacy_input, o, D.bytes('stack'),
                   D.bytes('redeem'), s),
           outcome(tb.make_witness_input, o, s),
           outcome(tb.make_decred_input, o, s),
           outcome(simple.unsigned_input, o, s)]
    same(D, outcome(simple.unsigned_input, o),
         outcome(decred.DecredTxIn, o, b'\xfe\xff\xff\xff'))
    for x in got:
        if fits(s, 4):
            same(D, x, outcome(decred.DecredTxIn, o, le(s, 4)))
        else:
            D.eq(x[0], 'raise', 'refused')


@theorem('C22', networks=not_decred,
         functions=['riemann.tx.tx_builder.make_witness',
                    'riemann.tx.tx_builder.make_witness_stack_item',
                    'riemann.tx.tx_builder.make_empty_witness'])
def witness(D):
    items = D.list('items', 0, None, lambda D: D.bytes('item'))
    same(D, outcome(tb.make_witness, items),
         outcome(tx.InputWitness, [tx.WitnessStackItem(x) for x in items]))
    same(D, outcome(tb.make_empty_witness), outcome(tx.InputWitness, []))


@theorem('C22', networks=is_decred,
         functions=['riemann.tx.tx_builder.make_decred_witness'])
def decred_witness(D):
    a = (D.bytes('value'), D.bytes('height'), D.bytes('index'),
         D.bytes('stack'), D.bytes('redeem'))
    same(D, outcome(tb.make_decred_witness, *a),
         outcome(decred.DecredInputWitness, *a))


def txout(value, script):
    if riemann.network.NETWORK_NAME == 'decred':
        return outcome(decred.DecredTxOut, value, b'\x00\x00', script)
    return outcome(tx.TxOut, value, script)


def paid(D, got, v, script):
    """an output of v to the script"""
    if not fits(v, 8):
        D.eq(got[0], 'raise', 'refused')
        return
    same(D, got, txout(le(v, 8), script))


@theorem('C22', functions=['riemann.tx.tx_builder.make_pkh_output',
                           'riemann.tx.tx_builder.make_p2pkh_output',
                           'riemann.tx.tx_builder.make_p2wpkh_output'])
def pkh_outputs(D):
    key = D.bytes('pubkey')
    v = number(D, 'value')
    h = net_hash160(key)
    script = b'\x76\xa9\x14' + h + b'\x88\xac'
    paid(D, outcome(tb.make_pkh_output, v, key), v, script)
    paid(D, outcome(tb.make_p2pkh_output, v, key), v, script)
    D.eq(outcome(tb.make_p2pkh_output_script, key), ('ok', script), 'script')
    D.eq(outcome(tb.make_p2pkh_output_script, 'text')[0], 'raise', 'text')
    got = outcome(tb.make_p2wpkh_output, v, key)
    gots = outcome(tb.make_p2wpkh_output_script, key)
    if riemann.network.SEGWIT:
        paid(D, got, v, b'\x00\x14' + h)
        D.eq(gots, ('ok', b'\x00\x14' + h), 'script')
    else:
        D.eq(got[0], 'raise', 'refused')
        D.eq(gots, ('raise', 'ValueError'), 'refused')


@theorem('C22', functions=['riemann.tx.tx_builder.make_sh_script_pubkey'])
def sh_scripts(D):
    s = D.bytes('script')
    D.eq(tb.make_sh_script_pubkey(s), b'\xa9\x14' + net_hash160(s) + b'\x87',
         'script hash')
    if riemann.network.SEGWIT:
        D.eq(tb.make_sh_script_pubkey(s, witness=True),
             b'\x00\x20' + sha256(s), 'witness script hash')


SERIALIZE = 'riemann.script.serialization.serialize'


@theorem('C22', stubs={SERIALIZE: 'bytearray'},
         functions=['riemann.tx.tx_builder.make_sh_output',
                    'riemann.tx.tx_builder.make_p2sh_output',
                    'riemann.tx.tx_builder.make_p2wsh_output'])
def sh_outputs(D):
    text = D.text('script')
    v = number(D, 'value')
    r = outcome(serialization.serialize, text)
    got = [outcome(tb.make_sh_output, v, text),
           outcome(tb.make_p2sh_output, v, text)]
    gots = outcome(tb.make_p2sh_output_script, text)
    gotw = outcome(tb.make_p2wsh_output, v, text)
    gotws = outcome(tb.make_p2wsh_output_script, text)
    if r[0] == 'raise':
        for x in got + [gots, gotw, gotws]:
            D.eq(x[0], 'raise', 'refused')
        return
    script = b'\xa9\x14' + net_hash160(bytes(r[1])) + b'\x87'
    for x in got:
        paid(D, x, v, script)
    D.eq(gots, ('ok', script), 'script')
    if riemann.network.SEGWIT:
        wscript = b'\x00\x20' + sha256(bytes(r[1]))
        paid(D, gotw, v, wscript)
        D.eq(gotws, ('ok', wscript), 'script')
    else:
        D.eq(gotw[0], 'raise', 'refused')
        D.eq(gotws, ('raise', 'ValueError'), 'refused')


@theorem('C22', functions=['riemann.tx.tx_builder.make_op_return_output'])
def op_return(D):
    data = D.bytes('data')
    got = outcome(tb.make_op_return_output, data)
    if len(data) > 77:
        D.eq(got, ('raise', 'ValueError'), 'refused')
        return
    if len(data) <= 75:
        script = b'\x6a' + cs(len(data)) + data
    else:
        script = b'\x6a\x4c' + cs(len(data)) + data
    paid(D, got, 0, script)


TO_SCRIPT = 'riemann.encoding.addresses.to_output_script'


@theorem('C22', stubs={TO_SCRIPT: 'bytes'},
         functions=['riemann.simple.output'])
def output(D):
    if D.symbolic():
        address = D.text('address')
    else:
        address = addr.make_p2pkh_address(D.bytes('pubkey'))
    v = number(D, 'value')
    r = outcome(addr.to_output_script, address)
    got = outcome(simple.output, v, address)
    if r[0] == 'raise':
        D.eq(got[0], 'raise', 'refused')
        return
    paid(D, got, v, r[1])


@theorem('C22', functions=['riemann.tx.tx_builder.length_prepend'])
def length_prepend(D):
    b = D.bytes('bytes')
    D.eq(tb.length_prepend(b), cs(len(b)) + b, 'prefix')
