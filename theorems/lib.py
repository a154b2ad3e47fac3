"""Specification helpers: plain Python, executed symbolically and natively.

Nothing here calls the code under verification, except the constructors in
the mk_* helpers (which build the inputs of a theorem).
"""
import hashlib
import riemann
from riemann.tx import tx, shared
from theorems import blake_ref


def le(n, w):
    """n as w little-endian bytes"""
    return n.to_bytes(w, 'little')


def cs(n):
    """the CompactSize encoding of n"""
    if n < 253:
        return n.to_bytes(1, 'little')
    if n < 2 ** 16:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 2 ** 32:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def new(cls):
    """an instance without attributes"""
    return cls.__new__(cls)


def starts_cs(b):
    """does b visibly start with a CompactSize encoding? (verifier only)"""
    return False


def starts_txin(b):
    """does b visibly start with a serialised input? (verifier only)"""
    return False


def starts_witness(b):
    """does b visibly start with a serialised input witness?
    (verifier only)"""
    return False


def witness_items(b):
    """the items of the serialised input witness b starts with"""
    n = cs_value(b)
    b = b[len(cs(n)):]
    out = []
    for _ in range(n):
        m = cs_value(b)
        at = len(cs(m))
        out.append(b[at:at + m])
        b = b[at + m:]
    return out


def split_at(script):
    """where the parser splits a script; only known to be a position in it
    (verifier only)"""
    return 0


def cs_value(b):
    """the number encoded by the CompactSize encoding b starts with"""
    n = b[0]
    return n if n < 253 else int.from_bytes(
        b[1:1 + 2 ** (n - 252)], 'little')


def var(b):
    """length-prefixed bytes"""
    return cs(len(b)) + b


def compact_only():
    """does the selected network refuse non-compact encodings?"""
    name = riemann.network.NETWORK_NAME
    return name == 'zcash_overwinter' or name == 'zcash_sapling'


def cat(parts):
    """concatenation"""
    out = b''
    for p in parts:
        out += p
    return out


def sha256(b):
    return hashlib.sha256(b).digest()


def hash256(b):
    """double SHA-256 (not for Decred)"""
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def blake256(b):
    """BLAKE-256 (the verifier treats it as an unknown function)"""
    return blake_ref.digest(bytes(b))


def blake_block(h, block, t):
    """the BLAKE-256 block function: chaining value and message block, counter
    (the verifier treats it as an unknown function; C19.compress)"""
    out = blake_ref.compress(
        [int.from_bytes(h[4 * i:4 * i + 4], 'big') for i in range(8)],
        blake_ref.words_of(block), int.from_bytes(t, 'big'))
    return b''.join([x.to_bytes(4, 'big') for x in out])


def word_at(b, i):
    """word i of a byte string (the verifier knows of it only that it is the
    number in these bytes)"""
    return int.from_bytes(b[4 * i:4 * i + 4], 'big')


def blake_final(h, cache, t):
    """the digest of a message: chaining value after its whole blocks, the
    rest of it, counter of the bits in the blocks (the verifier treats it as
    an unknown function; C19.final_short, C19.final_long)"""
    bits = int.from_bytes(t, 'big') + 8 * len(cache)
    size = bits.to_bytes(8, 'big')
    if len(cache) == 55:
        return blake_block(h, cache + b'\x81' + size, size)
    if len(cache) < 55:
        pad = b'\x80' + bytes(54 - len(cache)) + b'\x01'
        return blake_block(h, cache + pad + size,
                           size if len(cache) else bytes(8))
    h = blake_block(h, cache + b'\x80' + bytes(63 - len(cache)), size)
    return blake_block(h, bytes(55) + b'\x01' + size, bytes(8))


def unspecified():
    """any value (the verifier refuses to look at it)"""


def as_made(o, made, names):
    """are all attributes but those named as in another object?"""
    a, b = vars(o), vars(made)
    return set(a) | set(names) == set(b) | set(names) and all(
        a[n] == b[n] for n in b if n not in names and not callable(b[n]))


def net_hash256(b):
    """the double hash of the selected network"""
    if riemann.network.NETWORK_NAME == 'decred':
        return blake256(blake256(b))
    return hash256(b)


def net_hash160(b):
    if riemann.network.NETWORK_NAME == 'decred':
        return rip(blake256(b))
    return hash160(b)


def rip(b):
    h = hashlib.new('ripemd160')
    h.update(b)
    return h.digest()


def hash160(b):
    return rip(sha256(b))


def blake2b(b, person):
    h = hashlib.blake2b(digest_size=32, person=person)
    h.update(b)
    return h.digest()


def not_decred(n):
    return n.NETWORK_NAME != 'decred'


def is_decred(n):
    return n.NETWORK_NAME == 'decred'


def no_forkid(n):
    return n.FORKID is None and n.NETWORK_NAME != 'decred'


def has_forkid(n):
    return n.FORKID is not None


# ------------------------------------------------------- transaction parts

def mk_outpoint(D):
    return tx.Outpoint(D.bytes('tx_id', 32, 32), D.bytes('index', 4, 4))


def mk_txin(D):
    """an input with its script split in two"""
    stack = D.bytes('stack', 0, 1000)
    redeem = D.bytes('redeem', 0, 650)
    return tx.TxIn(mk_outpoint(D), stack, redeem, D.bytes('sequence', 4, 4))


def mk_txout(D):
    return tx.TxOut(D.bytes('value', 8, 8), D.bytes('script', 0, 251))


def mk_txout_long(D):
    return tx.TxOut(D.bytes('value', 8, 8), D.bytes('script'))


def mk_item(D):
    return tx.WitnessStackItem(D.bytes('item'))


def mk_witness(D):
    return tx.InputWitness(D.list('items', 0, None, mk_item))


def enc_txin(i):
    """serialised input, from its fields"""
    return (i.outpoint.tx_id + i.outpoint.index
            + var(i.stack_script + i.redeem_script) + i.sequence)


def enc_txout(o):
    return o.value + var(o.output_script)


def enc_witness(w):
    return cs(len(w.stack)) + cat([var(x.item) for x in w.stack])
