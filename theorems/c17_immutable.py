"""C17: immutability and copies."""
from dv.api import theorem, outcome, fails
from riemann.tx import tx, shared, sprout, overwinter, sapling, decred
from riemann.tx import zcash_shared as z
from theorems.lib import (
    mk_txin, mk_txout, mk_txout_long, mk_witness, mk_item, mk_outpoint,
    not_decred, is_decred)
from theorems.zlib import (
    is_sprout, is_overwinter, is_sapling, is_zcash, mk_sprout_joinsplit,
    mk_sapling_joinsplit, mk_spend, mk_output, mk_sprout_proof,
    mk_sapling_proof, joinsplit_fields, mk_fields, SPROUT_PROOF,
    SAPLING_PROOF, SPEND, OUTPUT)
from theorems.c10_tx import FLAG
from theorems import c16_decred


# ------------------------------------------------------------ immutability

def extend(o, x):
    o += x


def put(o, k, x):
    o[k] = x


def drop(o, k):
    del o[k]


def constant(v):
    """can the value never change? (component classes have their own
    theorems)"""
    if isinstance(v, tuple):
        return all(isinstance(x, (bytes, shared.ByteData)) for x in v)
    if isinstance(v, shared.ByteData):
        return type(v) is not shared.ByteData
    return v is None or isinstance(v, (bytes, int, bool, str))


def frozen(D, o):
    """o cannot be changed"""
    was = o.to_bytes()
    fields = dict(vars(o))
    for name in list(fields) + ['a_new_name', D.text('name')]:
        for x in (None, b'\x00', 0, (), o):
            D.eq(outcome(setattr, o, name, x), ('raise', 'TypeError'),
                 'assignment')
        D.eq(outcome(delattr, o, name), ('raise', 'TypeError'), 'deletion')
    x = D.bytes('appended', 1)
    D.check(fails(extend, o, x), 'extended')
    D.check(fails(extend, o, bytearray(x)), 'extended')
    D.check(fails(extend, o, o), 'extended')
    D.check(fails(put, o, 0, 7), 'element')
    D.check(fails(put, o, slice(0, 1), x), 'slice')
    D.check(fails(drop, o, 0), 'delete element')
    same(D, o, was, fields)
    for k, v in fields.items():
        D.check(constant(v), 'constant field')


def same(D, o, was, fields):
    D.eq(o.to_bytes(), was, 'bytes')
    now = dict(vars(o))
    D.eq(list(now), list(fields), 'names')
    for k, v in fields.items():
        D.eq(now[k], v, 'fields')


def spoil(x):
    """change a mutable argument"""
    if isinstance(x, bytearray):
        x.extend(b'\x01')
        x[0] = 7
    elif isinstance(x, list):
        x.append(x[0] if len(x) > 0 else None)
        x[0] = None
    elif type(x) is shared.ByteData:
        x += b'\x01'


def as_given(D, x):
    """bytes as one of the byte-like types"""
    kind = D.choice('kind', [bytes, bytearray, shared.ByteData])
    if kind is bytes:
        return lambda b: b
    if kind is bytearray:
        return bytearray
    return shared.ByteData.from_bytes


def built(D, cls, args):
    """an object of arguments that the caller modifies afterwards"""
    given = as_given(D, args)
    args = {k: given(v) if isinstance(v, bytes) else v
            for k, v in args.items()}
    r = outcome(cls, **args)
    D.assume(r[0] == 'ok')
    o = r[1]
    was = o.to_bytes()
    fields = dict(vars(o))
    for v in args.values():
        spoil(v)
    same(D, o, was, fields)
    return o


def outpoint_args(D):
    return dict(tx_id=D.bytes('tx_id', 32, 32), index=D.bytes('index', 4, 4))


def txin_args(D):
    return dict(outpoint=mk_outpoint(D), stack_script=D.bytes('stack', 0, 1000),
                redeem_script=D.bytes('redeem', 0, 650),
                sequence=D.bytes('sequence', 4, 4))


def txout_args(D):
    return dict(value=D.bytes('value', 8, 8), output_script=D.bytes('script'))


def item_args(D):
    return dict(item=D.bytes('item'))


def witness_args(D):
    return dict(stack=D.list('items', 0, None, mk_item))


def tx_args(D, segwit=(False, True)):
    ins = D.list('ins', 1, None, mk_txin)
    n = len(ins)
    f = D.choice('segwit', segwit)
    return dict(
        version=D.bytes('version', 4, 4),
        flag=FLAG if f else None, tx_ins=ins,
        tx_outs=D.list('outs', 1, None, mk_txout),
        tx_witnesses=D.list('wits', n, n, mk_witness) if f else None,
        lock_time=D.bytes('lock_time', 4, 4))


@theorem('C17', functions=['riemann.tx.tx.Outpoint', 'riemann.tx.tx.TxOut',
                           'riemann.tx.tx.WitnessStackItem'])
def components(D):
    which = D.choice('which', [0, 1, 2])
    if which == 0:
        frozen(D, built(D, tx.Outpoint, outpoint_args(D)))
    elif which == 1:
        frozen(D, built(D, tx.TxOut, txout_args(D)))
    else:
        frozen(D, built(D, tx.WitnessStackItem, item_args(D)))


@theorem('C17', functions=['riemann.tx.tx.TxIn'])
def txin(D):
    frozen(D, built(D, tx.TxIn, txin_args(D)))


@theorem('C17', functions=['riemann.tx.tx.InputWitness'])
def witness(D):
    frozen(D, built(D, tx.InputWitness, witness_args(D)))


@theorem('C17', functions=['riemann.tx.tx.Tx'])
def transaction(D):
    frozen(D, built(D, tx.Tx, tx_args(D)))


# ------------------------------------------------------------------ copies

def replaced(D, o, cls, names, some):
    """o.copy with a subset of the fields replaced"""
    repl = {}
    for k in names:
        if D.choice('replace_' + k, [False, True]):
            if some[k] is not None:
                repl[k] = some[k]
    args = {k: repl[k] if k in repl else getattr(o, k) for k in names}
    want = outcome(cls, **args)
    was = o.to_bytes()
    fields = dict(vars(o))
    got = outcome(o.copy, **repl)
    D.eq(got[0], want[0], 'accepted')
    if want[0] == 'ok':
        D.check(type(got[1]) is cls, 'class')
        same(D, got[1], want[1].to_bytes(), dict(vars(want[1])))
    else:
        D.eq(got[1], want[1], 'refused')
    same(D, o, was, fields)


@theorem('C17', functions=['riemann.tx.tx.Outpoint.copy'])
def outpoint_copy(D):
    o = tx.Outpoint(**outpoint_args(D))
    replaced(D, o, tx.Outpoint, ['tx_id', 'index'],
             outpoint_args(D.named('new_')))


@theorem('C17', functions=['riemann.tx.tx.TxOut.copy'])
def txout_copy(D):
    o = tx.TxOut(**txout_args(D))
    replaced(D, o, tx.TxOut, ['value', 'output_script'],
             txout_args(D.named('new_')))


@theorem('C17', functions=['riemann.tx.tx.InputWitness.copy'])
def witness_copy(D):
    o = tx.InputWitness(**witness_args(D))
    replaced(D, o, tx.InputWitness, ['stack'],
             witness_args(D.named('new_')))


@theorem('C17', functions=['riemann.tx.tx.TxIn.copy'])
def txin_copy(D):
    o = tx.TxIn(**txin_args(D))
    new = txin_args(D.named('new_'))
    replaced(D, o, tx.TxIn, ['outpoint', 'stack_script', 'redeem_script',
                             'sequence'], new)


@theorem('C17', functions=['riemann.tx.tx.Tx.copy'], tier='thorough')
def transaction_copy_full(D):
    r = outcome(tx.Tx, **tx_args(D))
    D.assume(r[0] == 'ok')
    replaced(D, r[1], tx.Tx, ['version', 'flag', 'tx_ins', 'tx_outs',
                              'tx_witnesses', 'lock_time'],
             tx_args(D.named('new_'), [True]))


# ------------------------------------------------------------------- Zcash

@theorem('C17', networks=is_zcash,
         functions=['riemann.tx.zcash_shared.SproutZkproof',
                    'riemann.tx.zcash_shared.SproutJoinsplit'])
def sprout_parts(D):
    if D.choice('which', [0, 1]):
        frozen(D, built(D, z.SproutZkproof, mk_fields(D, SPROUT_PROOF, None)))
    else:
        frozen(D, built(D, z.SproutJoinsplit,
                        joinsplit_fields(D, mk_sprout_proof(D))))


@theorem('C17', networks=is_zcash,
         functions=['riemann.tx.sapling.SaplingZkproof',
                    'riemann.tx.sapling.SaplingShieldedSpend',
                    'riemann.tx.sapling.SaplingShieldedOutput',
                    'riemann.tx.sapling.SaplingJoinsplit'])
def sapling_parts(D):
    which = D.choice('which', [0, 1, 2, 3])
    if which == 0:
        frozen(D, built(D, sapling.SaplingZkproof,
                        mk_fields(D, SAPLING_PROOF, None)))
    elif which == 1:
        frozen(D, built(D, sapling.SaplingShieldedSpend,
                        mk_fields(D, SPEND, mk_sapling_proof(D))))
    elif which == 2:
        frozen(D, built(D, sapling.SaplingShieldedOutput,
                        mk_fields(D, OUTPUT, mk_sapling_proof(D))))
    else:
        frozen(D, built(D, sapling.SaplingJoinsplit,
                        joinsplit_fields(D, mk_sapling_proof(D))))


def sprout_args(D):
    return dict(
        version=D.choice('version', [b'\x01\x00\x00\x00',
                                     b'\x02\x00\x00\x00']),
        tx_ins=D.list('ins', 0, None, mk_txin),
        tx_outs=D.list('outs', 0, None, mk_txout_long),
        lock_time=D.bytes('lock_time', 4, 4),
        tx_joinsplits=D.list('js', 0, None, mk_sprout_joinsplit),
        joinsplit_pubkey=D.bytes('key', 32, 32),
        joinsplit_sig=D.bytes('sig', 64, 64))


def overwinter_args(D):
    return dict(
        tx_ins=D.list('ins', 0, None, mk_txin),
        tx_outs=D.list('outs', 0, None, mk_txout_long),
        lock_time=D.bytes('lock_time', 4, 4),
        expiry_height=D.bytes('expiry', 4, 4),
        tx_joinsplits=D.list('js', 0, 5, mk_sprout_joinsplit),
        joinsplit_pubkey=D.bytes('key', 32, 32),
        joinsplit_sig=D.bytes('sig', 64, 64))


def sapling_args(D):
    return dict(
        tx_ins=D.list('ins', 0, None, mk_txin),
        tx_outs=D.list('outs', 0, None, mk_txout_long),
        lock_time=D.bytes('lock_time', 4, 4),
        expiry_height=D.bytes('expiry', 4, 4),
        value_balance=D.bytes('balance', 8, 8),
        tx_shielded_spends=D.list('spends', 0, None, mk_spend),
        tx_shielded_outputs=D.list('outputs', 0, None, mk_output),
        tx_joinsplits=D.list('js', 0, 5, mk_sapling_joinsplit),
        joinsplit_pubkey=D.bytes('key', 32, 32),
        joinsplit_sig=D.bytes('sig', 64, 64),
        binding_sig=D.bytes('binding', 64, 64))


@theorem('C17', networks=is_sprout, functions=['riemann.tx.sprout.SproutTx'])
def sprout_tx(D):
    frozen(D, built(D, sprout.SproutTx, sprout_args(D)))


@theorem('C17', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx'])
def overwinter_tx(D):
    frozen(D, built(D, overwinter.OverwinterTx, overwinter_args(D)))


@theorem('C17', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx'])
def sapling_tx(D):
    frozen(D, built(D, sapling.SaplingTx, sapling_args(D)))


def zcopy(D, cls, args, new):
    r = outcome(cls, **args)
    D.assume(r[0] == 'ok')
    replaced(D, r[1], cls, list(args), new)


SPROUT = ('version', 'tx_ins', 'tx_outs', 'lock_time', 'tx_joinsplits',
          'joinsplit_pubkey', 'joinsplit_sig')
OVERWINTER = ('tx_ins', 'tx_outs', 'lock_time', 'expiry_height',
              'tx_joinsplits', 'joinsplit_pubkey', 'joinsplit_sig')
SAPLING = ('tx_ins', 'tx_outs', 'lock_time', 'expiry_height', 'value_balance',
           'tx_shielded_spends', 'tx_shielded_outputs', 'tx_joinsplits',
           'joinsplit_pubkey', 'joinsplit_sig', 'binding_sig')


def zcopy_fields(D, cls, mk, names):
    """copy hands the constructor the new field where there is one and the
    old one elsewhere; what the constructor does is C15"""
    if D.symbolic():
        # the fields may be anything
        args = {k: D.opaque(k) for k in names}
        new = {k: D.opaque('new ' + k) for k in names}
    else:
        args = mk(D)
        new = mk(D.named('new_'))
    r = outcome(cls, **args)
    D.assume(r[0] == 'ok')
    o = r[1]
    repl = {}
    for k in args:
        if D.choice('replace_' + k, [False, True]):
            if new[k] is not None:
                repl[k] = new[k]
    merged = {k: repl[k] if k in repl else getattr(o, k) for k in args}
    want = outcome(cls, **merged)
    got = outcome(o.copy, **repl)
    D.eq(got[0], want[0], 'accepted')
    if want[0] == 'ok':
        D.check(type(got[1]) is cls, 'class')
        for k in args:
            D.eq(getattr(got[1], k), getattr(want[1], k), 'field')
    else:
        D.eq(got[1], want[1], 'refused')


BITCOIN = ('version', 'flag', 'tx_ins', 'tx_outs', 'tx_witnesses',
           'lock_time')


@theorem('C17', functions=['riemann.tx.tx.Tx.copy'],
         record=['riemann.tx.tx.Tx'])
def transaction_copy(D):
    zcopy_fields(D, tx.Tx, tx_args, BITCOIN)


@theorem('C17', networks=is_sprout,
         functions=['riemann.tx.sprout.SproutTx.copy'],
         record=['riemann.tx.sprout.SproutTx'])
def sprout_copy(D):
    zcopy_fields(D, sprout.SproutTx, sprout_args, SPROUT)


@theorem('C17', networks=is_overwinter,
         functions=['riemann.tx.overwinter.OverwinterTx.copy'],
         record=['riemann.tx.overwinter.OverwinterTx'])
def overwinter_copy(D):
    zcopy_fields(D, overwinter.OverwinterTx, overwinter_args, OVERWINTER)


@theorem('C17', networks=is_sapling,
         functions=['riemann.tx.sapling.SaplingTx.copy'],
         record=['riemann.tx.sapling.SaplingTx'])
def sapling_copy(D):
    zcopy_fields(D, sapling.SaplingTx, sapling_args, SAPLING)


# ------------------------------------------------------------------ Decred

def dcr_outpoint_args(D):
    return dict(tx_id=D.bytes('tx_id', 32, 32), index=D.bytes('index', 4, 4),
                tree=D.bytes('tree', 1, 1))


def dcr_in_args(D):
    return dict(outpoint=decred.DecredOutpoint(**dcr_outpoint_args(D)),
                sequence=D.bytes('sequence', 4, 4))


def dcr_out_args(D):
    return dict(value=D.bytes('value', 8, 8), version=D.bytes('version', 2, 2),
                output_script=D.bytes('script'))


def dcr_wit_args(D):
    return dict(value=D.bytes('value', 8, 8), height=D.bytes('height', 4, 4),
                index=D.bytes('index', 4, 4), stack_script=D.bytes('stack'),
                redeem_script=D.bytes('redeem'))


def dcr_tx_args(D):
    return dict(version=D.bytes('version', 4, 4),
                tx_ins=D.list('ins', 1, None, c16_decred.mk_in),
                tx_outs=D.list('outs', 1, None, c16_decred.mk_out),
                lock_time=D.bytes('lock_time', 4, 4),
                expiry=D.bytes('expiry', 4, 4),
                tx_witnesses=D.list('wits', 1, None, c16_decred.mk_wit))


@theorem('C17', networks=is_decred,
         functions=['riemann.tx.decred.DecredOutpoint',
                    'riemann.tx.decred.DecredTxIn',
                    'riemann.tx.decred.DecredTxOut',
                    'riemann.tx.decred.DecredInputWitness'])
def decred_parts(D):
    which = D.choice('which', [0, 1, 2, 3])
    if which == 0:
        frozen(D, built(D, decred.DecredOutpoint, dcr_outpoint_args(D)))
    elif which == 1:
        frozen(D, built(D, decred.DecredTxIn, dcr_in_args(D)))
    elif which == 2:
        frozen(D, built(D, decred.DecredTxOut, dcr_out_args(D)))
    else:
        frozen(D, built(D, decred.DecredInputWitness, dcr_wit_args(D)))


@theorem('C17', networks=is_decred, functions=['riemann.tx.decred.DecredTx'])
def decred_tx(D):
    frozen(D, built(D, decred.DecredTx, dcr_tx_args(D)))


@theorem('C17', networks=is_decred,
         functions=['riemann.tx.decred.DecredOutpoint.copy',
                    'riemann.tx.decred.DecredTxIn.copy',
                    'riemann.tx.decred.DecredTxOut.copy',
                    'riemann.tx.decred.DecredInputWitness.copy'])
def decred_part_copies(D):
    which = D.choice('which', [0, 1, 2, 3])
    N = D.named('new_')
    if which == 0:
        zcopy(D, decred.DecredOutpoint, dcr_outpoint_args(D),
              dcr_outpoint_args(N))
    elif which == 1:
        zcopy(D, decred.DecredTxIn, dcr_in_args(D), dcr_in_args(N))
    elif which == 2:
        zcopy(D, decred.DecredTxOut, dcr_out_args(D), dcr_out_args(N))
    else:
        zcopy(D, decred.DecredInputWitness, dcr_wit_args(D), dcr_wit_args(N))


@theorem('C17', networks=is_decred,
         functions=['riemann.tx.decred.DecredTx.copy'])
def decred_copy(D):
    zcopy(D, decred.DecredTx, dcr_tx_args(D), dcr_tx_args(D.named('new_')))
