"""C04: output scripts are exactly the standard templates."""
from dv.api import theorem, outcome
from riemann.script import serialization
from riemann.tx import tx_builder as tb
from theorems.lib import net_hash160, sha256
import riemann

P = 'riemann.tx.tx_builder.'
SERIALIZE = 'riemann.script.serialization.serialize'


def p2pkh(key):
    return b'\x76\xa9\x14' + net_hash160(key) + b'\x88\xac'


def p2sh(script):
    return b'\xa9\x14' + net_hash160(script) + b'\x87'


def key_of(D):
    """a key as bytes or bytearray"""
    key = D.bytes('pubkey')
    if D.choice('mutable', [False, True]):
        return bytearray(key)
    return key


@theorem('C04', functions=[P + 'make_pkh_output_script',
                           P + 'make_p2pkh_output_script'])
def p2pkh_script(D):
    key = key_of(D)
    want = ('ok', p2pkh(bytes(key)))
    for got in [outcome(tb.make_pkh_output_script, key),
                outcome(tb.make_pkh_output_script, key, False),
                outcome(tb.make_p2pkh_output_script, key)]:
        D.eq(got, want, 'template')
        D.check(type(got[1]) is bytes, 'bytes')
    D.eq(len(want[1]), 25, 'length')


@theorem('C04', functions=[P + 'make_pkh_output_script',
                           P + 'make_p2wpkh_output_script'])
def p2wpkh_script(D):
    key = key_of(D)
    want = b'\x00\x14' + net_hash160(bytes(key))
    for got in [outcome(tb.make_pkh_output_script, key, witness=True),
                outcome(tb.make_p2wpkh_output_script, key)]:
        if riemann.network.SEGWIT:
            D.eq(got, ('ok', want), 'template')
            D.check(type(got[1]) is bytes, 'bytes')
        else:
            D.eq(got, ('raise', 'ValueError'), 'refused')


@theorem('C04', functions=[P + 'make_pkh_output_script',
                           P + 'make_p2pkh_output_script',
                           P + 'make_p2wpkh_output_script'])
def key_types(D):
    """a key that is not bytes is refused"""
    key = D.choice('key', ['02' * 33, 5, None, [2] * 33, True])
    D.eq(outcome(tb.make_pkh_output_script, key), ('raise', 'ValueError'),
         'refused')
    D.eq(outcome(tb.make_p2pkh_output_script, key), ('raise', 'ValueError'),
         'refused')
    D.eq(outcome(tb.make_p2wpkh_output_script, key),
         ('raise', 'ValueError'), 'refused')


@theorem('C04', functions=[P + 'make_sh_script_pubkey'])
def script_hashes(D):
    script = D.bytes('script')
    for got in [tb.make_sh_script_pubkey(script),
                tb.make_sh_script_pubkey(script, False)]:
        D.eq(got, p2sh(script), 'p2sh')
        D.check(type(got) is bytes, 'bytes')
    if riemann.network.SEGWIT:
        got = tb.make_sh_script_pubkey(script, witness=True)
        D.eq(got, b'\x00\x20' + sha256(script), 'p2wsh')
        D.check(type(got) is bytes, 'bytes')


@theorem('C04', stubs={SERIALIZE: 'bytearray'},
         functions=[P + 'make_sh_output_script',
                    P + 'make_p2sh_output_script',
                    P + 'make_p2wsh_output_script'])
def script_text(D):
    """the hash is that of the serialised script"""
    text = D.text('script')
    r = outcome(serialization.serialize, text)
    legacy = [outcome(tb.make_sh_output_script, text),
              outcome(tb.make_sh_output_script, text, False),
              outcome(tb.make_p2sh_output_script, text)]
    witness = [outcome(tb.make_sh_output_script, text, True),
               outcome(tb.make_p2wsh_output_script, text)]
    for got in legacy:
        if r[0] == 'ok':
            D.eq(got, ('ok', p2sh(bytes(r[1]))), 'p2sh')
        else:
            D.eq(got[0], 'raise', 'refused')
    for got in witness:
        if not riemann.network.SEGWIT:
            D.eq(got, ('raise', 'ValueError'), 'refused')
        elif r[0] == 'ok':
            D.eq(got, ('ok', b'\x00\x20' + sha256(bytes(r[1]))), 'p2wsh')
        else:
            D.eq(got[0], 'raise', 'refused')


@theorem('C04', functions=[P + 'make_op_return_output'])
def op_return(D):
    data = D.bytes('data')
    got = outcome(tb.make_op_return_output, data)
    n = len(data)
    if n > 77:
        D.eq(got, ('raise', 'ValueError'), 'refused')
        return
    D.eq(got[0], 'ok', 'accepted')
    # the shortest push
    push = bytes([n]) if n <= 75 else b'\x4c' + bytes([n])
    D.eq(bytes(got[1].output_script), b'\x6a' + push + data, 'template')
    D.eq(bytes(got[1].value), b'\x00' * 8, 'no value')


def values(D):
    return D.int('value', 0, 2 ** 64 - 1)


@theorem('C04', functions=[P + 'make_pkh_output', P + 'make_p2pkh_output',
                           P + 'make_p2wpkh_output'])
def pkh_outputs(D):
    key = D.bytes('pubkey')
    v = values(D)
    for got in [outcome(tb.make_pkh_output, v, key),
                outcome(tb.make_p2pkh_output, v, key)]:
        D.eq(got[0], 'ok', 'accepted')
        D.eq(bytes(got[1].output_script), p2pkh(key), 'p2pkh')
    for got in [outcome(tb.make_pkh_output, v, key, True),
                outcome(tb.make_p2wpkh_output, v, key)]:
        if riemann.network.SEGWIT:
            D.eq(got[0], 'ok', 'accepted')
            D.eq(bytes(got[1].output_script),
                 b'\x00\x14' + net_hash160(key), 'p2wpkh')
        else:
            D.eq(got, ('raise', 'ValueError'), 'refused')


@theorem('C04', stubs={SERIALIZE: 'bytearray'},
         functions=[P + 'make_sh_output', P + 'make_p2sh_output',
                    P + 'make_p2wsh_output'])
def sh_outputs(D):
    text = D.text('script')
    v = values(D)
    r = outcome(serialization.serialize, text)
    for got in [outcome(tb.make_sh_output, v, text),
                outcome(tb.make_p2sh_output, v, text)]:
        if r[0] == 'ok':
            D.eq(got[0], 'ok', 'accepted')
            D.eq(bytes(got[1].output_script), p2sh(bytes(r[1])), 'p2sh')
        else:
            D.eq(got[0], 'raise', 'refused')
    for got in [outcome(tb.make_sh_output, v, text, True),
                outcome(tb.make_p2wsh_output, v, text)]:
        if not riemann.network.SEGWIT:
            D.eq(got, ('raise', 'ValueError'), 'refused')
        elif r[0] == 'ok':
            D.eq(got[0], 'ok', 'accepted')
            D.eq(bytes(got[1].output_script),
                 b'\x00\x20' + sha256(bytes(r[1])), 'p2wsh')
        else:
            D.eq(got[0], 'raise', 'refused')
