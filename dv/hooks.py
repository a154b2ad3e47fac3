"""Specification functions with a built-in meaning in the verifier."""
from dv.core import P, STATS, HObj, PyRaise, mk_int, ie, zi
import z3
from dv import ropes as R
from dv.ropes import Rope, CS


def cs(it, f, a, kw):
    """the CompactSize encoding as one segment, unfolded on demand"""
    n = ie(a[0])
    if isinstance(n, int):
        return NotImplemented
    if P().provable(R.z3.And(n >= 0, n < 2 ** 64)):
        return Rope((CS(n),))
    return NotImplemented


def starts_cs(it, f, a, kw):
    if it.pytype(a[0]) not in (bytes, bytearray):
        return False
    return isinstance(R.head_facts(it.rope(a[0])), CS)


def starts_txin(it, f, a, kw):
    """36 bytes, a CompactSize number n and at least n + 4 bytes"""
    if it.pytype(a[0]) not in (bytes, bytearray):
        return False
    r = it.rope(a[0])
    R.head_facts(r)
    n = zi(R.rope_len(r))
    if not P().provable(n >= 36):
        return False
    r = R.rope_slice(r, 36, None)
    s = R.head_facts(r)
    return isinstance(s, CS) and P().provable(
        n >= 36 + zi(R.cs_len(s.x)) + zi(s.x) + 4)


def witness_shape(it, v):
    """n as CompactSize, then n length-prefixed items: the repetition"""
    if it.pytype(v) not in (bytes, bytearray):
        return None
    segs = R.expose_head(it.rope(v))
    if len(segs) < 2 or not isinstance(segs[0], CS) \
            or not isinstance(segs[1], R.Cat):
        return None
    c = segs[1]
    p = P()
    item = list(c.rope.segs)
    if not item or not isinstance(item[0], CS) or not p.provable(
            z3.And(zi(c.lo) == 0, zi(c.hi) == zi(segs[0].x))):
        return None
    with R.scope(c.k >= 0, c.k < zi(c.hi)):
        for f in c.facts:
            R.add_range_facts(f)
            p.assume_expr(f)
        n = R.rope_len(Rope(tuple(item[1:])))
        if not p.provable(zi(n) == zi(item[0].x)):
            return None
    return c


def starts_witness(it, f, a, kw):
    return witness_shape(it, a[0]) is not None


def witness_items(it, f, a, kw):
    c = witness_shape(it, a[0])
    return it.new_list([R.LMap(c.k, c.lo, c.hi, Rope(
        tuple(c.rope.segs[1:])), c.facts)])


def split_at(it, f, a, kw):
    r = it.rope(a[0])
    e = ie(R.int_app('split', r))
    P().assume_expr(z3.And(e >= 0, e <= zi(R.rope_len(r))))
    return mk_int(e)


def cs_value(it, f, a, kw):
    s = R.head_facts(it.rope(a[0]))
    return mk_int(s.x)


def blake_block(it, f, a, kw):
    """the same thing (for word_at) whenever it is of the same things"""
    p = P()
    rs = [it.rope(x) for x in a]
    k = ('blake256 block', tuple(form(r.segs) for r in rs))
    if k not in p.intern:
        p.intern[k] = R.App('blake256 block', (), rs, 32), rs
    return Rope((R.Sub(p.intern[k][0], 0, 32),))


def form(segs):
    """a key: ropes with the same key are equal"""
    return tuple(
        (id(s.a), z3key(s.lo), z3key(s.hi)) if isinstance(s, R.Sub)
        else repr(s) for s in segs)


def z3key(e):
    return e if isinstance(e, int) else (e.get_id(),)


def word_at(it, f, a, kw):
    p = P()
    if p.binders or not isinstance(a[1], int):
        return NotImplemented
    r = R.rope_slice(it.rope(a[0]), 4 * a[1], 4 * a[1] + 4)
    if R.forced_len(r) != 4 or len(r.segs) != 1 or \
            not isinstance(r.segs[0], R.Sub):
        return NotImplemented
    k = ('word_at', form(r.segs))
    if k not in p.intern:
        e = p.fresh_int('word')
        p.assume_expr(z3.And(e >= 0, e < 2 ** 32))
        p.intern[k] = (e, r)
        p.intern[('int_of', e.get_id())] = (e, r, 4, 'big')
    return mk_int(p.intern[k][0])


def blake_final(it, f, a, kw):
    from dv import prims
    return Rope(prims.app('blake256 final', (), [it.rope(x) for x in a],
                          32).segs)


def unspecified(it, f, a, kw):
    from dv.interp import POISON
    return POISON


def as_made(it, f, a, kw):
    from dv.proof import deep_eq
    from dv.interp import BoundMethod
    p = P()
    x, y = p.heap[a[0].id], p.heap[a[1].id]
    names = {s.v for s in it.iter_segs(a[2])}
    if x.cls is not y.cls or set(x.attrs) | names != set(y.attrs) | names:
        return False
    for n in y.attrs:
        u, v = x.attrs.get(n), y.attrs[n]
        if n in names:
            continue
        if isinstance(u, BoundMethod) and isinstance(v, BoundMethod):
            if u.func is not v.func or u.self_.id != a[0].id:
                return False
        elif not deep_eq(it, u, v):
            return False
    return True


def new(it, f, a, kw):
    return P().alloc(HObj(a[0], {}))


def blake_hash(it, f, a, kw):
    """BLAKE-256 as a function of its input (C19 is about its value)"""
    if len(a) != 1 or not it.is_bytes(a[0]):
        return NotImplemented
    STATS.contracts_used.add('riemann.blake256.blake_hash')
    return blake_app(it, f, a, kw)


def blake_app(it, f, a, kw):
    from dv import prims
    return Rope(prims.app('blake256', (), [it.rope(a[0])], 32).segs)


# ------------------------------------------------------------- encodings

def codec_args(it, a, kw):
    """the data, for a call with a checksum"""
    a = list(a)
    if kw.pop('checksum', True) is not True or kw:
        return None
    if len(a) == 2 and a[1] is True:
        a.pop()
    return a[0] if len(a) == 1 else None


def net_attr(it, name):
    import riemann
    return it.getattr(it.module_attr(riemann, 'network'), name)


def mk_encode(kind, attr):
    def encode(it, f, a, kw):
        from dv import strs
        data = codec_args(it, a, dict(kw))
        if data is None or not it.is_bytes(data):
            return NotImplemented
        pre = net_attr(it, attr) if attr else None
        if attr and pre is None:
            return NotImplemented
        r = it.rope(data)
        n = zi(R.rope_len(r))
        p = P()
        if kind == 'bech32':
            # a witness program
            if not p.provable(n >= 4):
                return NotImplemented
            b = R.rope_bytes(R.rope_slice(r, 0, 2))
            if b is None:
                return NotImplemented
            v, m = zi(b[0]), zi(b[1])
            if not p.provable(z3.And(
                    n <= 42, v <= 16, m == n - 2,
                    z3.Or(v != 0, n == 22, n == 34))):
                return NotImplemented
            pre += '1'
        elif kind == 'cashaddr':
            pre += ':'
        STATS.contracts_used.add('riemann.encoding.%s.encode' % kind)
        s = strs.EncStr(kind, r)
        if pre:
            p.intern['text_starts'] = p.intern.get('text_starts', ()) + (
                (s, pre),)
        return s
    return encode


def mk_decode(kind, attr):
    def decode(it, f, a, kw):
        from dv import strs, prims
        s = codec_args(it, a, dict(kw))
        if not isinstance(s, (strs.EncStr, strs.IdStr)):
            return NotImplemented
        pre = net_attr(it, attr) if attr else None
        if attr and pre is None:
            return NotImplemented
        STATS.contracts_used.add('riemann.encoding.%s.decode' % kind)
        if isinstance(s, strs.EncStr) and s.kind == kind:
            return it.unrope(s.rope)
        p = P()
        err = it.exc(ValueError, 'from %s' % kind)
        if isinstance(s, strs.EncStr) and (kind, s.kind) == (
                'base58', 'cashaddr'):
            raise err       # ':' is not in the alphabet
        seen = p.intern.setdefault(('decode', kind), ())
        for t, r in seen:
            if strs.same_text(t, s):
                break
        else:
            r = None if p.choose(2) else prims.fresh_bytes(it, 'decoded')
            p.intern[('decode', kind)] = seen + ((s, r),)
            if r is not None and kind == 'cashaddr':
                p.intern['text_starts'] = p.intern.get(
                    'text_starts', ()) + ((s, pre + ':'),)
        if r is None:
            raise err
        return r
    return decode


# ------------------------------------------- numbers as strings of digits

ALPHABET = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def table_of(base):
    return list(ALPHABET) if base == 58 else list(range(256))


def is_table(it, f, want):
    """does the function map as the list says (None: it raises)?"""
    for c, w in want:
        try:
            v = it.call(f, [c], {})
        except PyRaise:
            v = None
        if v is not w and not (isinstance(v, int) and v == w):
            return False
    return True


def radix_args(it, names, a, kw):
    kw = dict(kw)
    a = list(a) + [kw.pop(n) for n in names[len(a):] if n in kw]
    if kw or len(a) != len(names):
        return None
    return a


def from_long(it, f, a, kw):
    """the string of digits that denotes a pair (C06.step, C06.zeros)"""
    from dv import prims
    a = radix_args(it, ('v', 'prefix', 'base', 'charset'), a, kw)
    if a is None or a[2] not in (58, 256):
        return NotImplemented
    v, n, base, cs = a
    p = P()
    v, n = zi(ie(v)), zi(ie(n))
    if not p.provable(z3.And(v >= 0, n >= 0)) or not is_table(
            it, cs, list(enumerate(table_of(base)))):
        return NotImplemented
    STATS.contracts_used.add('riemann.encoding.base58.from_long')
    for b, u, m, r in p.intern.get('radix', ()):
        if b == base and p.provable(z3.And(u == v, m == n)):
            break
    else:
        r = it.rope(prims.fresh_bytes(it, 'digits'))
        p.assume_expr(zi(R.rope_len(r)) >= n)
        p.intern['radix'] = p.intern.get('radix', ()) + ((base, v, n, r),)
        if base == 58:
            ascii_rope(r)
    return it.unrope(r)


def ascii_rope(r):
    p = P()
    p.intern['ascii'] = p.intern.get('ascii', frozenset()) | R.atoms_in(r)


def to_long(it, f, a, kw):
    """the pair a string of digits denotes"""
    from dv.core import SInt
    a = radix_args(it, ('base', 'lookup_f', 's'), a, kw)
    if a is None or a[0] not in (58, 256) or not it.is_bytes(a[2]):
        return NotImplemented
    base, fn, s = a
    t = table_of(base)
    d = {c: i for i, c in enumerate(t)}
    if not is_table(it, fn, [(c, d.get(c)) for c in range(256)]):
        return NotImplemented
    STATS.contracts_used.add('riemann.encoding.base58.to_long')
    p = P()
    s = it.rope(s)
    for b, u, m, r in p.intern.get('radix', ()):
        if b == base and R.req(r, s):
            return (mk_int(u), mk_int(m))
    bad = p.intern.get('radix_bad', ())
    if base == 58 and (any(R.req(r, s) for r in bad) or p.choose(2)):
        p.intern['radix_bad'] = bad + (s,)
        raise it.exc(ValueError, 'bad character')
    u, m = p.fresh_int('value'), p.fresh_int('zeros')
    p.assume_expr(z3.And(u >= 0, m >= 0, m <= zi(R.rope_len(s))))
    if base == 58:
        ascii_rope(s)
    p.intern['radix'] = p.intern.get('radix', ()) + ((base, u, m, s),)
    return (SInt(u), SInt(m))


CODECS = [('base58', None), ('bech32', 'BECH32_HRP'),
          ('cashaddr', 'CASHADDR_PREFIX')]


def install_codecs(it):
    from dv import api
    for kind, attr in CODECS:
        m = 'riemann.encoding.%s.' % kind
        it.contracts[api.resolve(m + 'encode')] = mk_encode(kind, attr)
        it.contracts[api.resolve(m + 'decode')] = mk_decode(kind, attr)


def api_resolve(name):
    from dv import api
    return api.resolve(name)


def install(it, thm):
    if thm.codecs:
        install_codecs(it)
    if thm.digits:
        B = 'riemann.encoding.base58.'
        it.contracts[api_resolve(B + 'from_long')] = from_long
        it.contracts[api_resolve(B + 'to_long')] = to_long
    from theorems import lib
    from dv import api
    if 'riemann.blake256.blake_hash' not in thm.disable:
        try:
            it.contracts[api.resolve('riemann.blake256.blake_hash')] = \
                blake_hash
        except AttributeError:
            pass
    it.contracts[lib.blake256] = blake_app
    it.contracts[lib.new] = new
    it.contracts[lib.blake_block] = blake_block
    it.contracts[lib.word_at] = word_at
    it.contracts[lib.as_made] = as_made
    it.contracts[lib.unspecified] = unspecified
    if 'riemann.blake256.BLAKE.final' not in thm.disable:
        it.contracts[lib.blake_final] = blake_final
    it.contracts[lib.cs] = cs
    it.contracts[lib.starts_cs] = starts_cs
    it.contracts[lib.cs_value] = cs_value
    it.contracts[lib.starts_txin] = starts_txin
    it.contracts[lib.starts_witness] = starts_witness
    it.contracts[lib.witness_items] = witness_items
    it.contracts[lib.split_at] = split_at
