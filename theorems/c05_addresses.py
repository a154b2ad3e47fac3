"""C05: addresses and output scripts determine each other.

The text encodings stand for their contracts here (C06, C07, C08).
"""
from dv.api import theorem, outcome
from riemann.encoding import addresses as addr, base58, bech32, cashaddr
from riemann.script import serialization
from theorems.lib import net_hash160, sha256
import riemann

A = 'riemann.encoding.addresses.'
SERIALIZE = 'riemann.script.serialization.serialize'


def net():
    return riemann.network


def b58_segwit():
    """are witness programs written in Base58Check?"""
    return net().SEGWIT and net().SEGWIT_ENCODER is base58


def p2pkh(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh(h):
    return b'\xa9\x14' + h + b'\x87'


def legacy_only(D, address):
    """not Base58Check by accident

    A Bech32 text is Base58Check with probability 2**-32.
    """
    if not b58_segwit():
        D.assume(not base58.has_checksum(address))


def is_text(D, r):
    D.eq(r[0], 'ok', 'accepted')
    D.check(isinstance(r[1], str), 'text')


def round_trip(D, address, script, h):
    """the address stands for the script"""
    is_text(D, address)
    a = address[1]
    D.eq(outcome(addr.to_output_script, a), ('ok', script), 'script')
    D.eq(outcome(addr.parse_hash, a), ('ok', h), 'hash')


# ------------------------------------------------------------ round trips

@theorem('C05', codecs=True, functions=[
    A + 'make_pkh_address', A + 'make_p2pkh_address',
    A + 'make_legacy_p2pkh_address', A + 'to_output_script',
    A + 'from_output_script', A + 'parse_hash'])
def pkh_addresses(D):
    key = D.bytes('pubkey')
    h = net_hash160(key)
    script = p2pkh(h)
    new = outcome(addr.make_p2pkh_address, key)
    old = outcome(addr.make_legacy_p2pkh_address, key)
    round_trip(D, new, script, h)
    round_trip(D, old, script, h)
    D.eq(addr.make_pkh_address(key), new[1], 'default')
    D.eq(addr.make_pkh_address(key, cashaddr=False), old[1], 'legacy')
    D.eq(addr.from_output_script(script), new[1], 'address')
    D.eq(addr.from_output_script(script, cashaddr=False), old[1],
         'legacy address')
    D.eq(addr.parse(old[1]), net().P2PKH_PREFIX + h, 'payload')


@theorem('C05', codecs=True, stubs={SERIALIZE: 'bytearray'}, functions=[
    A + 'make_sh_address', A + 'make_p2sh_address',
    A + 'make_legacy_p2sh_address', A + 'to_output_script',
    A + 'from_output_script', A + 'parse_hash'])
def sh_addresses(D):
    text = D.text('script')
    r = outcome(serialization.serialize, text)
    new = outcome(addr.make_p2sh_address, text)
    old = outcome(addr.make_legacy_p2sh_address, text)
    if r[0] != 'ok':
        D.eq(new[0], 'raise', 'refused')
        D.eq(old[0], 'raise', 'refused')
        return
    h = net_hash160(bytes(r[1]))
    script = p2sh(h)
    round_trip(D, new, script, h)
    round_trip(D, old, script, h)
    D.eq(addr.make_sh_address(text), new[1], 'default')
    D.eq(addr.make_sh_address(text, cashaddr=False), old[1], 'legacy')
    D.eq(addr.from_output_script(script), new[1], 'address')
    D.eq(addr.from_output_script(script, cashaddr=False), old[1],
         'legacy address')
    D.eq(addr.parse(old[1]), net().P2SH_PREFIX + h, 'payload')


@theorem('C05', codecs=True, functions=[
    A + 'make_pkh_address', A + 'make_p2wpkh_address',
    A + 'to_output_script', A + 'from_output_script', A + 'parse_hash'])
def wpkh_addresses(D):
    key = D.bytes('pubkey')
    h = net_hash160(key)
    script = b'\x00\x14' + h
    c = D.choice('cashaddr', [True, False])
    got = outcome(addr.make_p2wpkh_address, key)
    if not net().SEGWIT:
        D.eq(got[0], 'raise', 'refused')
        D.eq(outcome(addr.make_pkh_address, key, witness=True,
                     cashaddr=c)[0], 'raise', 'refused')
        D.eq(outcome(addr.from_output_script, script, c)[0], 'raise',
             'refused')
        return
    is_text(D, got)
    legacy_only(D, got[1])
    round_trip(D, got, script, h)
    D.eq(addr.make_pkh_address(key, True), got[1], 'same')
    D.eq(addr.from_output_script(script, c), got[1], 'address')


@theorem('C05', codecs=True, stubs={SERIALIZE: 'bytearray'}, functions=[
    A + 'make_sh_address', A + 'make_p2wsh_address',
    A + 'to_output_script', A + 'from_output_script', A + 'parse_hash'])
def wsh_addresses(D):
    text = D.text('script')
    r = outcome(serialization.serialize, text)
    c = D.choice('cashaddr', [True, False])
    got = outcome(addr.make_p2wsh_address, text)
    if r[0] != 'ok':
        D.eq(got[0], 'raise', 'refused')
        return
    h = sha256(bytes(r[1]))
    script = b'\x00\x20' + h
    if not net().SEGWIT:
        D.eq(got[0], 'raise', 'refused')
        D.eq(outcome(addr.make_sh_address, text, True, c)[0], 'raise',
             'refused')
        D.eq(outcome(addr.from_output_script, script, c)[0], 'raise',
             'refused')
        return
    is_text(D, got)
    legacy_only(D, got[1])
    round_trip(D, got, script, h)
    D.eq(addr.make_sh_address(text, True), got[1], 'same')
    D.eq(addr.from_output_script(script, c), got[1], 'address')


# ------------------------------------------------------- arbitrary scripts

def encoded(D, got, encoder, payload):
    """the text of the payload, or both refuse"""
    want = outcome(encoder.encode, payload)
    D.eq(got[0], want[0], 'accepted')
    if got[0] == 'ok':
        D.eq(got[1], want[1], 'address')


@theorem('C05', codecs=True, functions=[A + 'from_output_script'])
def any_script(D):
    """only the standard templates have an address"""
    s = D.bytes('script')
    c = D.choice('cashaddr', [True, False])
    got = outcome(addr.from_output_script, s, c)
    n = net()
    cash = c and n.CASHADDR_PREFIX is not None
    if len(s) == 25 and s[:3] == b'\x76\xa9\x14' and s[23:] == b'\x88\xac':
        if cash:
            encoded(D, got, cashaddr, b'\x00' + s[3:23])
        else:
            encoded(D, got, base58, n.P2PKH_PREFIX + s[3:23])
    elif len(s) == 23 and s[:2] == b'\xa9\x14' and s[22:] == b'\x87':
        if cash:
            encoded(D, got, cashaddr, b'\x08' + s[2:22])
        else:
            encoded(D, got, base58, n.P2SH_PREFIX + s[2:22])
    elif len(s) == 22 and s[:2] == b'\x00\x14' and n.SEGWIT:
        encoded(D, got, n.SEGWIT_ENCODER, s)
    elif len(s) == 34 and s[:2] == b'\x00\x20' and n.SEGWIT:
        encoded(D, got, n.SEGWIT_ENCODER, s)
    else:
        D.eq(got, ('raise', 'ValueError'), 'refused')


# ------------------------------------------------------ arbitrary addresses

def some_text(D):
    """any text"""
    if D.symbolic():
        return D.text('address')
    n = net()
    h = D.bytes('hash', 0, 40)
    pre = D.choice('prefix', [b'', n.P2PKH_PREFIX, n.P2SH_PREFIX,
                              b'\x00', b'\x08', b'\x00\x14', b'\x00\x20'])
    enc = D.choice('encoder', [base58, n.SEGWIT_ENCODER, cashaddr])
    h = D.choice('cut', [h, (h + bytes(20))[:20], (h + bytes(32))[:32]])
    r = outcome(enc.encode, pre + h)
    if r[0] == 'ok' and r[1] is not None:
        return r[1]
    return D.text('address')


def meaning(D, text):
    """(script, hash) an address stands for, None if it is none"""
    n = net()
    r = outcome(base58.decode, text)
    if r[0] == 'ok':
        p = r[1]
        if n.CASHADDR_PREFIX is not None:
            # not a Base58Check payload of 21 bytes of this network
            D.assume(text.find(n.CASHADDR_PREFIX) != 0)
        if b58_segwit():
            if len(p) == 22 and p[:2] == b'\x00\x14' \
                    or len(p) == 34 and p[:2] == b'\x00\x20':
                return p, p[2:]
        pre = n.P2PKH_PREFIX
        if len(p) == len(pre) + 20 and p[:len(pre)] == pre:
            return p2pkh(p[len(pre):]), p[len(pre):]
        pre = n.P2SH_PREFIX
        if len(p) == len(pre) + 20 and p[:len(pre)] == pre:
            return p2sh(p[len(pre):]), p[len(pre):]
        return None
    r = outcome(bech32.decode, text)
    if r[0] == 'ok' and not b58_segwit():
        p = r[1]
        if len(p) == 22 and p[:2] == b'\x00\x14' \
                or len(p) == 34 and p[:2] == b'\x00\x20':
            return p, p[2:]
        return None
    r = outcome(cashaddr.decode, text)
    if r[0] == 'ok':
        p = r[1]
        if len(p) == 21 and p[:1] == b'\x00':
            return p2pkh(p[1:]), p[1:]
        if len(p) == 21 and p[:1] == b'\x08':
            return p2sh(p[1:]), p[1:]
    return None


@theorem('C05', codecs=True, functions=[A + 'to_output_script',
                                        A + 'parse_hash', A + 'parse'])
def any_text(D):
    """only addresses of the network and its kinds are accepted"""
    text = some_text(D)
    m = meaning(D, text)
    got = outcome(addr.to_output_script, text)
    goth = outcome(addr.parse_hash, text)
    if m is None:
        D.eq(got, ('raise', 'ValueError'), 'refused')
        D.eq(goth, ('raise', 'ValueError'), 'refused')
        return
    D.eq(got, ('ok', m[0]), 'script')
    D.eq(goth, ('ok', m[1]), 'hash')
