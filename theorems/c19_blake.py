"""C19: BLAKE-256.

The theorem compress is the block function.  The others are about what is
given to it: a hasher that has taken the bytes M is in the state S(M): the
chaining value after the whole blocks of M, the counter of their bits, and the
rest of M.  A new hasher is in S(b''); update of as much as fits into the
block takes S(M) to S(M + d); update of more is update of what fits followed
by update of the rest; so by induction on the length every update takes S(M)
to S(M + d), and final is the digest of M in every state S(M).
"""
from dv.api import theorem
from riemann import blake256
from riemann.blake256 import BLAKE
from theorems import blake_ref
from theorems.c00_contracts import BLAKE_STATE
from theorems.lib import blake_block, blake_final, as_made

B = 'riemann.blake256.'
FINAL = B + 'BLAKE.final'
COMP = B + 'BLAKE._compress'


@theorem('C19', bits='words', disable=[COMP],
         functions=[B + 'BLAKE._compress'])
def compress(D):
    h = [D.int('h%d' % i, 0, 2 ** 32 - 1) for i in range(8)]
    block = D.bytes('block', 64, 64)
    t = D.int('t', 0, 2 ** 64 - 1)
    b = BLAKE(256)
    b.h = list(h)
    b.t = t
    b.nullt = D.choice('nullt', [0, 1])
    b._compress(block)
    D.eq(b.h, blake_ref.compress(h, blake_ref.words_of(block),
                                 0 if b.nullt else t), 'chaining value')
    D.eq(b.t, t, 'counter')


def word_bytes(h):
    return b''.join([x.to_bytes(4, 'big') for x in h])


def mk_state(D, lo, hi):
    """a hasher in some state S(M), len(M) = lo..hi modulo 64"""
    b = BLAKE(256)
    b.h = [D.int('h%d' % i, 0, 2 ** 32 - 1) for i in range(8)]
    b.t = 512 * D.int('blocks', 0, 2 ** 54)
    b.cache = D.bytes('rest', lo, hi)
    b.state = D.choice('state', [1, 2])
    return b


def state(b):
    return (word_bytes(b.h), b.t, b.cache, b.nullt)


def copy(b):
    c = BLAKE(256)
    c.h = list(b.h)
    c.t = b.t
    c.cache = b.cache
    c.state = b.state
    c.nullt = b.nullt
    return c


@theorem('C19', functions=[B + 'BLAKE'])
def new_hasher(D):
    b = BLAKE(256)
    D.eq(state(b), (word_bytes(blake_ref.IV), 0, b'', 0), 'S(empty)')
    c = BLAKE(256)
    c.update(D.bytes('data', 0, 63))
    D.eq(state(BLAKE(256)), state(b), 'nothing is shared')


@theorem('C19', functions=[B + 'BLAKE.update'])
def update_within_block(D):
    b = mk_state(D, 0, 63)
    d = D.bytes('data', 0, 64)
    D.assume(len(b.cache) + len(d) <= 64 and len(d) < 64)
    h, t, c, z = state(b)
    b.update(d)
    if len(c) + len(d) < 64:
        D.eq(state(b), (h, t, c + d, z), 'kept')
    else:
        D.eq(state(b), (blake_block(h, c + d, (t + 512).to_bytes(8, 'big')),
                        t + 512, b'', z), 'one block')


@theorem('C19', functions=[B + 'BLAKE.update'])
def update_whole_block(D):
    b = mk_state(D, 0, 0)
    d = D.bytes('data', 64, 64)
    h, t, c, z = state(b)
    b.update(d)
    D.eq(state(b), (blake_block(h, d, (t + 512).to_bytes(8, 'big')),
                    t + 512, b'', z), 'one block')


def splits(D, lo, hi):
    b = mk_state(D, lo, hi)
    c = copy(b)
    d = D.bytes('data')
    n = 64 - len(b.cache)
    D.assume(len(d) > n)
    b.update(d[:n])
    b.update(d[n:])
    c.update(d)
    D.eq(state(c), state(b), 'as in two updates')


@theorem('C19', folds=True, functions=[B + 'BLAKE.update'])
def update_splits(D):
    splits(D, 1, 63)


@theorem('C19', folds=True, functions=[B + 'BLAKE.update'])
def update_splits_blocks(D):
    splits(D, 0, 0)


def padding(D, lo, hi):
    n = D.choice('length', list(range(lo, hi)))
    b = mk_state(D, n, n)
    h, t, c, z = state(b)
    r = b.final()
    D.eq(r, blake_final(h, c, t.to_bytes(8, 'big')), 'digest')
    D.eq(b.state, 3, 'state')
    D.eq(b.hash, r, 'kept')
    D.check(as_made(b, BLAKE(256), BLAKE_STATE), 'nothing else changes')
    D.eq(b.final(), r, 'again')
    D.eq(b.digest(), r, 'digest()')
    D.eq(b.hexdigest(), r.hex(), 'hexdigest()')


@theorem('C19', disable=[FINAL], functions=[FINAL])
def final_short(D):
    padding(D, 0, 32)


@theorem('C19', disable=[FINAL], functions=[FINAL])
def final_long(D):
    padding(D, 32, 64)


@theorem('C19', folds=True, functions=[B + 'BLAKE.final'])
def final_with_data(D):
    b = mk_state(D, 0, 63)
    c = copy(b)
    d = D.bytes('data')
    b.update(d)
    D.eq(c.final(d), b.final(), 'update, then final')


@theorem('C19', folds=True, disable=[B + 'blake_hash', FINAL],
         functions=[B + 'blake_hash'])
def one_call(D):
    d = D.bytes('data')
    D.eq(blake256.blake_hash(d), BLAKE(256).final(d), 'blake_hash')
