"""C20: network selection."""
from dv.api import theorem, outcome
import riemann
from riemann import networks, utils
from riemann.encoding import addresses, base58, bech32, cashaddr
from riemann.script import serialization
from riemann.tx import (decred, overwinter, sapling, shared, sprout, tx,
                        tx_builder, zcash_shared)
from theorems import zlib
from theorems.c16_decred import mk_in as dec_in
from theorems.lib import blake256, hash160, le, mk_txin, mk_txout, rip
from theorems.network_table import DEFAULTS, TABLE

NAMES = sorted(TABLE)
ENCODER = {m.__name__: m for m in (base58, bech32, cashaddr)}
ENCODERS = ('LEGACY_ENCODER', 'SEGWIT_ENCODER', 'CASHADDR_ENCODER')
NAMED = sorted(set(DEFAULTS) - set(ENCODERS)
               - {'SYMBOL', 'P2PK_PREFIX', 'OPCODE_CHANGES'})


def current():
    return riemann.get_current_network()


@theorem('C20', selects=True, functions=[
    'riemann.select_network', 'riemann.get_current_network',
    'riemann.get_current_network_name', 'riemann.networks.get_network'])
def select(D):
    """every supported network can be selected from every other"""
    name = D.choice('name', NAMES)
    r = outcome(riemann.select_network, name)
    D.eq(r, ('ok', None), 'accepted')
    D.check(current() is networks.SUPPORTED[name], 'selected')
    D.check(riemann.network is networks.SUPPORTED[name], 'in force')
    D.eq(riemann.get_current_network_name(), name, 'name')


@theorem('C20', selects=True, functions=['riemann.select_network'])
def select_unknown(D):
    """an unknown network changes nothing"""
    before = current()
    kind = D.choice('kind', ['text', 'number', 'nothing', 'bytes'])
    if kind == 'text':
        name = D.text('name')
        D.assume(name not in networks.SUPPORTED)
    elif kind == 'number':
        name = D.int('n')
    elif kind == 'nothing':
        name = None
    else:
        name = b'bitcoin_main'
    r = outcome(riemann.select_network, name)
    D.eq(r[0], 'raise', 'refused')
    D.check(current() is before, 'unchanged')
    D.check(riemann.network is before, 'still in force')


@theorem('C20', selects=True, functions=['riemann.networks.get_network'])
def parameters_selected(D):
    """selecting a network brings all its parameters into force"""
    name = D.choice('name', NAMES)
    riemann.select_network(name)
    own = TABLE[name]
    n = riemann.network
    for k in NAMED:
        D.eq(getattr(n, k), own.get(k, DEFAULTS[k]), k)
    for k in ENCODERS:
        D.check(getattr(n, k) is ENCODER[own.get(k, DEFAULTS[k])], k)


# ------------------------------------------------------------------ gates

def only_bitcoin(n):
    return n is networks.BitcoinMain


def family(name):
    """which transaction classes belong to a network"""
    for f in ('sprout', 'overwinter', 'sapling'):
        if name.startswith('zcash_' + f):
            return f
    return 'decred' if name.startswith('decred') else 'bitcoin'


def made_at(name, build, *args):
    """build something on another network"""
    riemann.select_network(name)
    return build(*args)


def gate(D, name, home, cls, fields):
    """cls takes the fields on its home networks only"""
    riemann.select_network(name)
    r = outcome(cls, **fields)
    if family(name) in home:
        D.eq(r[0], 'ok', 'supported')
    else:
        D.eq(r, ('raise', 'ValueError'), 'refused')


ZCASH = ('sprout', 'overwinter', 'sapling')


@theorem('C20', networks=only_bitcoin, selects=True, functions=[
    'riemann.tx.zcash_shared.SproutZkproof',
    'riemann.tx.zcash_shared.SproutJoinsplit',
    'riemann.tx.sapling.SaplingZkproof',
    'riemann.tx.sapling.SaplingJoinsplit',
    'riemann.tx.sapling.SaplingShieldedSpend',
    'riemann.tx.sapling.SaplingShieldedOutput'])
def zcash_parts_gated(D):
    """shielded parts exist on Zcash networks only"""
    name = D.choice('name', NAMES)
    kind = D.choice('part', ['proof', 'joinsplit', 'sapling proof',
                             'sapling joinsplit', 'spend', 'output'])
    riemann.select_network('zcash_sapling_main')
    if kind == 'proof':
        gate(D, name, ZCASH, zcash_shared.SproutZkproof,
             zlib.mk_fields(D, zlib.SPROUT_PROOF, None))
    elif kind == 'joinsplit':
        gate(D, name, ZCASH, zcash_shared.SproutJoinsplit,
             zlib.joinsplit_fields(D, zlib.mk_sprout_proof(D)))
    elif kind == 'sapling proof':
        gate(D, name, ZCASH, sapling.SaplingZkproof,
             zlib.mk_fields(D, zlib.SAPLING_PROOF, None))
    elif kind == 'sapling joinsplit':
        gate(D, name, ZCASH, sapling.SaplingJoinsplit,
             zlib.joinsplit_fields(D, zlib.mk_sapling_proof(D)))
    elif kind == 'spend':
        gate(D, name, ZCASH, sapling.SaplingShieldedSpend,
             zlib.mk_fields(D, zlib.SPEND, zlib.mk_sapling_proof(D)))
    else:
        gate(D, name, ZCASH, sapling.SaplingShieldedOutput,
             zlib.mk_fields(D, zlib.OUTPUT, zlib.mk_sapling_proof(D)))


@theorem('C20', networks=only_bitcoin, selects=True, functions=[
    'riemann.tx.sprout.SproutTx', 'riemann.tx.overwinter.OverwinterTx',
    'riemann.tx.sapling.SaplingTx'])
def zcash_transactions_gated(D):
    """each Zcash transaction class exists on its own networks only"""
    name = D.choice('name', NAMES)
    kind = D.choice('kind', ZCASH)
    riemann.select_network('zcash_sapling_main')
    fields = {
        'tx_ins': D.list('ins', 1, 1, mk_txin),
        'tx_outs': D.list('outs', 1, 1, mk_txout),
        'lock_time': D.bytes('lock', 4, 4),
        'tx_joinsplits': [], 'joinsplit_pubkey': None,
        'joinsplit_sig': None}
    expiry = le(D.int('expiry', 0, 10 ** 8), 4)
    if kind == 'sprout':
        fields['version'] = le(1, 4)
        gate(D, name, ['sprout'], sprout.SproutTx, fields)
    elif kind == 'overwinter':
        fields['expiry_height'] = expiry
        gate(D, name, ['overwinter'], overwinter.OverwinterTx, fields)
    else:
        fields['expiry_height'] = expiry
        fields['value_balance'] = bytes(8)
        fields['tx_shielded_spends'] = []
        fields['tx_shielded_outputs'] = []
        fields['binding_sig'] = None
        gate(D, name, ['sapling'], sapling.SaplingTx, fields)


def dec_out(D):
    return decred.DecredTxOut(D.bytes('value', 8, 8), bytes(2),
                              D.bytes('script', 0, 1000))


@theorem('C20', networks=only_bitcoin, selects=True, functions=[
    'riemann.tx.decred.DecredOutpoint', 'riemann.tx.decred.DecredTxIn',
    'riemann.tx.decred.DecredTxOut', 'riemann.tx.decred.DecredInputWitness',
    'riemann.tx.decred.DecredTx'])
def decred_gated(D):
    """Decred classes exist on Decred networks only"""
    name = D.choice('name', NAMES)
    kind = D.choice('part', ['outpoint', 'in', 'out', 'witness', 'tx'])
    riemann.select_network('decred_main')
    home = ['decred']
    if kind == 'outpoint':
        gate(D, name, home, decred.DecredOutpoint, {
            'tx_id': D.bytes('tx_id', 32, 32),
            'index': D.bytes('index', 4, 4), 'tree': b'\x00'})
    elif kind == 'in':
        gate(D, name, home, decred.DecredTxIn, {
            'outpoint': dec_in(D).outpoint, 'sequence': bytes(4)})
    elif kind == 'out':
        gate(D, name, home, decred.DecredTxOut, {
            'value': D.bytes('value', 8, 8),
            'version': D.bytes('version', 2, 2),
            'output_script': D.bytes('script')})
    elif kind == 'witness':
        gate(D, name, home, decred.DecredInputWitness, {
            'value': D.bytes('value', 8, 8),
            'height': D.bytes('height', 4, 4),
            'index': D.bytes('index', 4, 4),
            'stack_script': D.bytes('stack'),
            'redeem_script': D.bytes('redeem')})
    else:
        gate(D, name, home, decred.DecredTx, {
            'version': le(1, 4),
            'tx_ins': D.list('ins', 1, 1, dec_in),
            'tx_outs': D.list('outs', 1, 1, dec_out),
            'lock_time': D.bytes('lock', 4, 4),
            'expiry': D.bytes('expiry', 4, 4), 'tx_witnesses': []})


@theorem('C20', known='C20-segwit-tx', functions=['riemann.tx.tx.Tx'],
         networks=lambda n: not n.SEGWIT)
def segwit_transactions_gated(D):
    """transactions with witnesses exist on segwit networks only"""
    ins = D.list('ins', 1, 1, mk_txin)
    outs = D.list('outs', 1, 1, mk_txout)
    r = outcome(tx.Tx, D.bytes('version', 4, 4), b'\x00\x01', ins, outs,
                [], D.bytes('lock', 4, 4))
    D.eq(r, ('raise', 'ValueError'), 'refused')


# ------------------------------------------------- the selection in force

FIRST = ['bitcoin_main', 'bitcoin_cash_test', 'dogecoin_main',
         'zcash_sapling_main', 'decred_main', 'groestlcoin_main']


def operations(D, name, key):
    """what depends on the network, under the network of that name"""
    own = TABLE[name]
    n = {k: own.get(k, DEFAULTS[k]) for k in DEFAULTS}
    f = family(name)
    h = rip(blake256(key)) if f == 'decred' else hash160(key)
    D.eq(utils.hash160(key), h, 'hash')
    script = b'\x76\xa9\x14' + h + b'\x88\xac'
    D.eq(tx_builder.make_p2pkh_output_script(key), script, 'script')
    if n['CASHADDR_PREFIX'] is not None:
        D.eq(addresses.make_p2pkh_address(key),
             cashaddr.encode(n['CASHADDR_P2PKH'] + h), 'address')
    else:
        D.eq(addresses.make_p2pkh_address(key),
             base58.encode(n['P2PKH_PREFIX'] + h), 'address')
    D.eq(addresses.make_legacy_p2pkh_address(key),
         base58.encode(n['P2PKH_PREFIX'] + h), 'legacy address')
    w = outcome(tx_builder.make_p2wpkh_output_script, key)
    a = outcome(addresses.make_p2wpkh_address, key)
    s = outcome(addresses.from_output_script, b'\x00\x14' + h)
    if n['SEGWIT']:
        D.eq(w, ('ok', b'\x00\x14' + h), 'witness script')
        e = ENCODER[n['SEGWIT_ENCODER']]
        D.eq(a, ('ok', e.encode(b'\x00\x14' + h)), 'witness address')
        D.eq(s, a, 'same')
    else:
        D.eq(w, ('raise', 'ValueError'), 'refused')
        D.eq(a[0], 'raise', 'refused')
        D.eq(s[0], 'raise', 'refused')
    v = outcome(shared.VarInt.from_bytes, b'\xfd\x05\x00')
    if f in ('overwinter', 'sapling'):
        D.eq(v, ('raise', 'ValueError'), 'refused')
    else:
        D.eq(v[0], 'ok', 'accepted')
    o = tx_builder.make_outpoint(bytes(32), 7)
    D.check(type(o) is (decred.DecredOutpoint if f == 'decred'
                        else tx.Outpoint), 'class')
    D.eq(bytes(serialization.serialize('OP_SHA256')),
         bytes([n['CODE_TO_INT_OVERWRITE'].get('OP_SHA256', 168)]),
         'opcode')


@theorem('C20', networks=only_bitcoin, selects=True, codecs=True, functions=[
    'riemann.utils.hash160', 'riemann.tx.tx_builder.make_pkh_output_script',
    'riemann.encoding.addresses.make_pkh_address',
    'riemann.encoding.addresses.from_output_script',
    'riemann.tx.shared.VarInt', 'riemann.tx.tx_builder.make_outpoint',
    'riemann.script.serialization.serialize'])
def governs(D):
    """after a selection the new network governs, and no other"""
    first = D.choice('first', FIRST)
    name = D.choice('name', NAMES)
    key = D.bytes('key')
    riemann.select_network(first)
    operations(D, first, key)
    riemann.select_network(name)
    outcome(riemann.select_network, 'no such network')
    operations(D, name, key)


@theorem('C20', effects=True, functions=['riemann.select_network'])
def nothing_else_selects(D):
    """no function writes global state or keeps state between calls"""
