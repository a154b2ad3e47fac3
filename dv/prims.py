"""Built-in types and functions (the trusted semantics of Python itself)."""
import builtins
import collections.abc
import hashlib
import types
import z3

from dv.core import (
    P, STATS, SInt, SBool, Ref, HObj, HList, HBA, HDict, HSet, HHash, HIter,
    ExcVal, Opaque, PyRaise, Unsupported, Infeasible, mk_int, mk_bool, ie,
    simp, zi, same)
from dv import ropes as R
from dv.ropes import (Rope, SStr, STup, Lit, LItem, LMap, LAcc, lit,
                      rope_len, list_len)
from dv.interp import (Prim, BoundMethod, Closure, NetVal, NetName, SuperVal,
                       UNDEF)


class HASH:
    """type of hashlib objects"""


class Unknown:
    """opaque list of strings, as produced by str.split on unknown text"""


PR = {}


def prim(*names):
    def deco(f):
        for n in names:
            PR[n] = f
        return f
    return deco


def kw1(it, kw, *allowed):
    for k in kw:
        if k not in allowed:
            raise it.exc(TypeError, 'unexpected keyword argument %s' % k)


def concrete_int(it, v):
    e = ie(v)
    if isinstance(e, int):
        return e
    raise Unsupported('concrete integer needed')


def is_int(it, v):
    return it.pytype(v) in (int, bool)


def need_int(it, v, what='an integer is required'):
    if not is_int(it, v):
        if isinstance(v, Opaque):
            raise Unsupported('unknown integer')
        raise it.exc(TypeError, what)


def need_bytes(it, v, what='a bytes-like object is required'):
    if not it.is_bytes(v):
        if isinstance(v, Opaque) and v.typ in (object, bytes):
            raise Unsupported('unknown bytes')
        raise it.exc(TypeError, what)


# ------------------------------------------------------------------- int

_BL = z3.Function('bitlen', z3.IntSort(), z3.IntSort())


def bitlen_expr(x):
    """bit length of a symbolic int (facts for byte boundaries)"""
    p = P()
    t = _BL(x)
    key = ('bl', t.sexpr())
    if key not in p.facts_done:
        p.facts_done.add(key)
        a = z3.If(x >= 0, x, -x)
        p.assume_expr(t >= 0)
        p.assume_expr((t == 0) == (x == 0))
        wide = not p.provable(a < 1 << 64)
        for b in (1, 7, 8, 15, 16, 24, 31, 32, 40, 48, 56, 63, 64) + (
                tuple(range(72, 520, 8)) if wide else ()):
            p.assume_expr((t <= b) == (a < (1 << b)))
    return t


@prim('int.bit_length')
def int_bit_length(it, a, kw):
    e = ie(a[0])
    if isinstance(e, int):
        return e.bit_length()
    return SInt(bitlen_expr(e))


@prim('int.to_bytes')
def int_to_bytes(it, a, kw):
    kw = dict(kw)
    kw1(it, kw, 'length', 'byteorder', 'signed')
    x = a[0]
    n = a[1] if len(a) > 1 else kw.get('length', 1)
    order = a[2] if len(a) > 2 else kw.get('byteorder', 'big')
    signed = kw.get('signed', False)
    need_int(it, n)
    if it.pytype(order) is not str:
        raise it.exc(TypeError, 'byteorder')
    if order not in ('little', 'big'):
        raise it.exc(ValueError, "byteorder must be either 'little' or "
                     "'big'")
    signed = it.truth(signed)
    p = P()
    if it.bits and isinstance(n, int) and not signed:
        from dv import bits
        r = bits.to_rope(it, x, n, order)
        if r is not None:
            return r
    x, n = ie(x), ie(n)
    if isinstance(x, int) and isinstance(n, int):
        return it.native(lambda: x.to_bytes(n, order, signed=signed))
    if isinstance(n, int):
        if n < 0:
            raise it.exc(ValueError, 'length argument must be non-negative')
        if signed:
            h = 256 ** n // 2 if n else 0
            if n == 0:
                if p.branch(zi(x) == 0):
                    return b''
                raise it.exc(OverflowError, 'int too big to convert')
            if not p.branch(z3.And(zi(x) >= -h, zi(x) < h)):
                raise it.exc(OverflowError, 'int too big to convert')
            e = simp(z3.If(zi(x) < 0, zi(x) + 256 ** n, zi(x)))
            return it.unrope(R.mk_rope([R.LE(e, n, order)]))
        if p.branch(zi(x) < 0):
            raise it.exc(OverflowError,
                         "can't convert negative int to unsigned")
        if not p.branch(zi(x) < 256 ** n):
            raise it.exc(OverflowError, 'int too big to convert')
        src = None if isinstance(x, int) else p.intern.get(
            ('int_of', x.get_id()))
        if src is not None and src[2] == n and z3.eq(src[0], x):
            return it.unrope(src[1] if src[3] == order
                             else R.rope_rev(src[1]))
        return it.unrope(R.mk_rope([R.LE(x, n, order)]))
    # symbolic width
    if signed:
        raise Unsupported('signed to_bytes of unknown width')
    if p.branch(zi(n) < 0):
        raise it.exc(ValueError, 'length argument must be non-negative')
    if p.branch(zi(x) < 0):
        raise it.exc(OverflowError,
                     "can't convert negative int to unsigned")
    top = 10 if p.provable(zi(n) <= 10) else 64
    if top == 10 or p.provable(zi(n) <= 64):
        v = R.concretize(n, 0, top)
        return int_to_bytes(it, [mk_int(x), v, order], {})
    # width large enough by definition of the bit length?
    if not isinstance(x, int):
        bl = bitlen_expr(x)
        if p.provable(8 * zi(n) >= bl):
            return it.unrope(R.mk_rope([R.LE(x, n, order)]))
    raise Unsupported('to_bytes of unknown width')


@prim('int.from_bytes')
def int_from_bytes(it, a, kw):
    kw1(it, kw, 'bytes', 'byteorder', 'signed')
    b = a[0] if a else kw['bytes']
    order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
    signed = it.truth(kw.get('signed', False))
    if not it.is_bytes(b):
        b = bytes_ctor(it, [b], {})
    if order not in ('little', 'big'):
        raise it.exc(ValueError, 'byteorder')
    if it.bits and not signed:
        from dv import bits
        r = bits.of_rope(it, it.rope(b), order)
        if r is not None:
            return r
    return R.rope_to_int(it.rope(b), order, signed)


@prim('int')
def int_ctor(it, a, kw):
    if not a:
        return 0
    v = a[0]
    if it.plain(v) and all(it.plain(x) for x in a):
        return it.native(lambda: int(*a, **kw))
    if is_int(it, v) and len(a) == 1:
        return mk_int(ie(v))
    if hasattr(v, 'dv_int'):
        return v.dv_int(it)
    if isinstance(v, (SStr, Opaque)):
        raise Unsupported('int() of unknown text')
    raise it.exc(TypeError, 'int()')


@prim('bool')
def bool_ctor(it, a, kw):
    if not a:
        return False
    if isinstance(a[0], SBool):
        return a[0]
    if isinstance(a[0], SInt):
        return mk_bool(a[0].e != 0)
    return it.truth(a[0])


@prim('abs')
def p_abs(it, a, kw):
    e = ie(a[0])
    if isinstance(e, int):
        return abs(e)
    return mk_int(z3.If(e >= 0, e, -e))


@prim('divmod')
def p_divmod(it, a, kw):
    return (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1]))


@prim('pow')
def p_pow(it, a, kw):
    if len(a) == 2:
        return it.binop('Pow', a[0], a[1])
    if all(it.plain(x) for x in a):
        return it.native(lambda: pow(*a))
    raise Unsupported('pow')


@prim('ord')
def p_ord(it, a, kw):
    v = a[0]
    if isinstance(v, (str, bytes)):
        return it.native(lambda: ord(v))
    if hasattr(v, 'dv_ord'):
        return v.dv_ord(it)
    r = it.srope(v) if it.pytype(v) is str else it.rope(v)
    n = rope_len(r)
    if not (n == 1 if isinstance(n, int) else P().branch(n == 1)):
        raise it.exc(TypeError, 'ord() expected a character')
    return R.rope_index(r, 0)


@prim('chr')
def p_chr(it, a, kw):
    if hasattr(a[0], 'dv_chr'):
        return a[0].dv_chr(it)
    e = ie(a[0])
    if isinstance(e, int):
        return it.native(lambda: chr(e))
    if not P().branch(z3.And(e >= 0, e < 128)):
        raise Unsupported('chr')
    return it.unstr(Rope((R.byte_seg(e),)))


# ----------------------------------------------------------------- generic

@prim('len')
def p_len(it, a, kw):
    return it.length(a[0])


@prim('isinstance')
def p_isinstance(it, a, kw):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    flat = []
    for x in cs:
        if isinstance(x, tuple):
            flat.extend(x)
        elif isinstance(x, types.UnionType):
            flat.extend(x.__args__)
        else:
            flat.append(x)
    t = it.pytype(v)
    if isinstance(v, Opaque) and v.typ is object:
        if any(x is object for x in flat):
            return True
        return False            # an object of an unrelated class
    for x in flat:
        if isinstance(x, NetVal):
            x = x.cls
        if not isinstance(x, type):
            if x is None or it.plain(x):
                raise it.exc(TypeError, 'isinstance() arg 2')
            import typing
            o = typing.get_origin(x)
            if isinstance(o, type):
                x = o
            else:
                raise Unsupported('isinstance with %r' % (x,))
        try:
            if issubclass(t, x):
                return True
        except TypeError:
            raise Unsupported('issubclass')
    return False


@prim('issubclass')
def p_issubclass(it, a, kw):
    c = a[0].cls if isinstance(a[0], NetVal) else a[0]
    d = a[1].cls if isinstance(a[1], NetVal) else a[1]
    if isinstance(a[0], NetVal):
        it.observe('is:' + getattr(d, '__name__', '?'), issubclass(c, d))
    return it.native(lambda: issubclass(c, d))


@prim('type')
def p_type(it, a, kw):
    if len(a) != 1:
        raise Unsupported('type()')
    v = a[0]
    if isinstance(v, Opaque) and v.typ is object:
        raise Unsupported('type of unknown')
    return it.pytype(v)


@prim('callable')
def p_callable(it, a, kw):
    v = a[0]
    return isinstance(v, (Prim, BoundMethod, Closure, types.FunctionType,
                          type, types.BuiltinFunctionType)) or (
        hasattr(v, '__wrapped__'))


@prim('hasattr')
def p_hasattr(it, a, kw):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


@prim('getattr')
def p_getattr(it, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with symbolic name')
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and issubclass(e.exc.cls, AttributeError):
            return a[2]
        raise


@prim('setattr')
def p_setattr(it, a, kw):
    it.setattr(a[0], a[1], a[2])


@prim('delattr')
def p_delattr(it, a, kw):
    it.delattr(a[0], a[1])


@prim('vars')
def p_vars(it, a, kw):
    if len(a) != 1:
        raise Unsupported('vars()')
    return it.getattr(a[0], '__dict__')


@prim('repr', 'ascii')
def p_repr(it, a, kw):
    if it.plain(a[0]):
        return repr(a[0])
    return Opaque(str)


@prim('print')
def p_print(it, a, kw):
    return None


@prim('id', 'hash')
def p_id(it, a, kw):
    raise Unsupported('id/hash')


@prim('format')
def p_format(it, a, kw):
    return it.format_value(a[0], a[1] if len(a) > 1 else '')


@prim('hex')
def p_hex(it, a, kw):
    if it.plain(a[0]):
        return it.native(lambda: hex(a[0]))
    return Opaque(str)


@prim('bin', 'oct')
def p_bin(it, a, kw):
    if it.plain(a[0]):
        raise Unsupported('bin')
    return Opaque(str)


@prim('object')
def p_object(it, a, kw):
    return Opaque(object, P().fresh('obj'))


@prim('object.__setattr__')
def o_setattr(it, a, kw):
    it.setattr(a[0], a[1], a[2], raw=True)


@prim('object.__delattr__')
def o_delattr(it, a, kw):
    it.raw_delattr(a[0], a[1])


@prim('object.__init__', 'object.__init_subclass__')
def o_init(it, a, kw):
    return None


@prim('object.__getattribute__')
def o_getattribute(it, a, kw):
    return it.getattr(a[0], a[1])


@prim('object.__repr__', 'object.__str__', 'object.__format__')
def o_repr(it, a, kw):
    return Opaque(str)


@prim('object.__eq__')
def o_eq(it, a, kw):
    return isinstance(a[0], Ref) and isinstance(a[1], Ref) \
        and a[0].id == a[1].id


@prim('object.__ne__')
def o_ne(it, a, kw):
    return not it.truth(it.eq(a[0], a[1]))


@prim('super')
def p_super(it, a, kw):
    if len(a) == 2:
        return SuperVal(a[0], a[1])
    raise Unsupported('super()')


@prim('typing.cast')
def p_cast(it, a, kw):
    return a[1]


@prim('typing.overload')
def p_overload(it, a, kw):
    return a[0]


# ------------------------------------------------------------------- bytes

@prim('bytes')
def bytes_ctor(it, a, kw):
    if not a and not kw:
        return b''
    v = a[0]
    if len(a) > 1 or kw:
        if isinstance(v, str):
            return it.native(lambda: bytes(*a, **kw))
        raise Unsupported('bytes() with encoding')
    return it.unrope(to_rope(it, v))


def to_rope(it, v):
    """bytes(v) as a rope"""
    if it.is_bytes(v):
        return it.rope(v)
    if it.pytype(v) is int or it.pytype(v) is bool:
        n = ie(v)
        p = P()
        if isinstance(n, int):
            if n < 0:
                raise it.exc(ValueError, 'negative count')
            return lit(bytes(n))
        if p.branch(n < 0):
            raise it.exc(ValueError, 'negative count')
        k = p.fresh_int('z')
        return R.mk_rope([R.Cat(k, 0, n, lit(b'\0'))])
    if it.pytype(v) is str:
        raise it.exc(TypeError, 'string argument without an encoding')
    if isinstance(v, Ref):
        rec = P().heap[v.id]
        if isinstance(rec, HObj):
            f = it.class_lookup(rec.cls, '__bytes__')
            if f is not None:
                return it.rope(it.call(f, [v], {}))
            f = it.class_lookup(rec.cls, '__iter__')
            if f is not None:
                return to_rope(it, it.call(f, [v], {}))
        if isinstance(rec, HIter) and rec.kind == 'rope':
            P().put(v, HIter((), 'rope'))
            return R.rcat(*rec.segs)
    return segs_rope(it, it.iter_segs(v))


def segs_rope(it, segs):
    p = P()
    out = []
    for s in segs:
        if isinstance(s, LItem):
            need_int(it, s.v, 'an integer is required')
            e = ie(s.v)
            if isinstance(e, int):
                if not 0 <= e < 256:
                    raise it.exc(ValueError, 'bytes must be in range(0, '
                                 '256)')
                out.append(Lit(bytes([e])))
            else:
                if not p.branch(z3.And(e >= 0, e < 256)):
                    raise it.exc(ValueError,
                                 'bytes must be in range(0, 256)')
                out.append(R.LE(e, 1))
        elif isinstance(s, LMap):
            e = ie(s.v)
            with R.scope(zi(s.lo) <= s.k, s.k < zi(s.hi), *s.facts):
                ok = p.provable(z3.And(zi(e) >= 0, zi(e) < 256))
            if not ok:
                raise Unsupported('byte range of a symbolic sequence')
            out.append(R.Cat(s.k, s.lo, s.hi, Rope((R.byte_seg(e),)),
                             s.facts))
        else:
            raise Unsupported('bytes() of %r' % (s,))
    return R.mk_rope(out)


@prim('bytearray')
def bytearray_ctor(it, a, kw):
    if not a:
        return it.new_ba(R.EMPTY)
    if len(a) > 1 or kw:
        if isinstance(a[0], str):
            return it.new_ba(lit(it.native(lambda: bytes(*a, **kw))))
        raise Unsupported('bytearray() with encoding')
    return it.new_ba(to_rope(it, a[0]))


@prim('memoryview')
def p_memoryview(it, a, kw):
    need_bytes(it, a[0])
    return it.unrope(it.rope(a[0]))


def text_hex(it, s):
    """rope denoted by hexadecimal text"""
    p = P()
    r = it.srope(s)
    out = []
    for seg in r.segs:
        if isinstance(seg, R.Hex):
            out.extend(seg.rope.segs)
        elif isinstance(seg, Lit):
            try:
                out.append(Lit(bytes.fromhex(seg.b.decode('latin-1'))))
            except ValueError as e:
                raise it.exc(ValueError, str(e))
        else:
            raise Unsupported('fromhex of unstructured text')
    return R.mk_rope(out)


@prim('bytes.fromhex')
def bytes_fromhex(it, a, kw):
    v = a[-1]
    if isinstance(v, str):
        return it.native(lambda: bytes.fromhex(v))
    if hasattr(v, 'dv_fromhex'):
        return v.dv_fromhex(it)
    if isinstance(v, Opaque) and v.typ is str:
        if P().choose(2) == 0:
            return fresh_bytes(it, 'unhex')
        raise it.exc(ValueError, 'non-hexadecimal number')
    if it.pytype(v) is not str:
        raise it.exc(TypeError, 'fromhex() argument must be str')
    return it.unrope(text_hex(it, v))


@prim('bytearray.fromhex')
def ba_fromhex(it, a, kw):
    return it.new_ba(it.rope(bytes_fromhex(it, a, kw)))


def fresh_bytes(it, name, lo=0, hi=None):
    p = P()
    n = p.fresh_int(name + '_len')
    p.assume_expr(n >= lo)
    if hi is not None:
        p.assume_expr(n <= hi)
    at = R.Atom(p.fresh(name), (), n)
    return Rope((R.Sub(at, 0, n),))


@prim('bytes.hex', 'bytearray.hex')
def b_hex(it, a, kw):
    if len(a) > 1 or kw:
        raise Unsupported('hex separator')
    r = it.rope(a[0])
    return it.unstr(R.mk_rope([R.Hex(r)]))


@prim('bytes.decode', 'bytearray.decode')
def b_decode(it, a, kw):
    r = it.rope(a[0])
    c = R.as_concrete(r)
    if c is not None and all(it.plain(x) for x in a[1:]):
        return it.native(lambda: c.decode(*a[1:], **kw))
    p = P()
    for s in r.segs:
        if isinstance(s, R.Hex):
            continue
        if isinstance(s, R.Sub) and s.a.name in p.intern.get('ascii', ()):
            continue
        bs = R.seg_bytes(s)
        if bs is None:
            raise Unsupported('decode of unknown bytes')
        if not p.provable(z3.And([zi(b) < 128 for b in bs])):
            raise Unsupported('decode of non-ASCII bytes')
    return SStr(r)


@prim('bytes.find', 'bytearray.find')
def b_find(it, a, kw):
    if len(a) > 2:
        raise Unsupported('find with bounds')
    h, n = a
    need_bytes(it, n, 'argument should be integer or bytes-like object')
    h, n = it.rope(h), it.rope(n)
    hc, nc = R.as_concrete(h), R.as_concrete(n)
    if hc is not None and nc is not None:
        return hc.find(nc)
    p = P()
    ln = rope_len(n)
    if isinstance(ln, int) and ln == 0:
        return 0
    if not isinstance(ln, int):
        raise Unsupported('find with a symbolic needle')
    # only the prefix case is modelled: 0 or "somewhere else / absent"
    lh = rope_len(h)
    if not (lh >= ln if isinstance(lh, int) else p.branch(lh >= ln)):
        return -1
    pre = R.rope_slice(h, 0, ln)
    eq = R.rope_eq_cond(pre, n)
    if (p.branch(eq) if not isinstance(eq, bool) else eq):
        return 0
    x = p.fresh_int('find')
    p.assume_expr(z3.Or(x == -1, z3.And(x >= 1, x <= zi(lh) - ln)))
    if isinstance(lh, int) and lh == ln:
        return -1
    key = ('find', repr(h), repr(n))
    if key in p.intern:
        return p.intern[key]
    p.intern[key] = SInt(x)
    return SInt(x)


@prim('bytes.startswith', 'bytearray.startswith')
def b_startswith(it, a, kw):
    if isinstance(a[1], tuple):
        for x in a[1]:
            if it.truth(b_startswith(it, [a[0], x], kw)):
                return True
        return False
    need_bytes(it, a[1])
    h, n = it.rope(a[0]), it.rope(a[1])
    ln, lh = rope_len(n), rope_len(h)
    p = P()
    if not (lh >= ln if isinstance(lh, int) and isinstance(ln, int)
            else p.branch(zi(lh) >= zi(ln))):
        return False
    eq = R.rope_eq_cond(R.rope_slice(h, 0, mk_int(ln)), n)
    return eq if isinstance(eq, bool) else mk_bool(eq)


@prim('bytes.endswith', 'bytearray.endswith')
def b_endswith(it, a, kw):
    if isinstance(a[1], tuple):
        for x in a[1]:
            if it.truth(b_endswith(it, [a[0], x], kw)):
                return True
        return False
    need_bytes(it, a[1])
    h, n = it.rope(a[0]), it.rope(a[1])
    ln, lh = rope_len(n), rope_len(h)
    p = P()
    if not (lh >= ln if isinstance(lh, int) and isinstance(ln, int)
            else p.branch(zi(lh) >= zi(ln))):
        return False
    eq = R.rope_eq_cond(
        R.rope_slice(h, mk_int(simp(zi(lh) - zi(ln))), None), n)
    return eq if isinstance(eq, bool) else mk_bool(eq)


@prim('bytes.join', 'bytearray.join')
def b_join(it, a, kw):
    sep = it.rope(a[0])
    segs = list(it.iter_segs(a[1]))
    out = []
    first = True
    for s in segs:
        if isinstance(s, LItem):
            need_bytes(it, s.v, 'sequence item: expected a bytes-like '
                       'object')
            if not first:
                out.extend(sep.segs)
            out.extend(it.rope(s.v).segs)
        elif isinstance(s, LMap):
            if sep.segs:
                raise Unsupported('join with a separator')
            need_bytes(it, s.v)
            out.append(R.Cat(s.k, s.lo, s.hi, it.rope(s.v), s.facts))
        else:
            raise Unsupported('join of %r' % (s,))
        first = False
    r = R.mk_rope(out)
    if it.pytype(a[0]) is bytearray:
        return it.new_ba(r)
    return it.unrope(r)


@prim('bytes.ljust', 'bytearray.ljust', 'bytes.rjust', 'bytearray.rjust')
def b_just(it, a, kw):
    raise Unsupported('ljust/rjust')


def _just(left):
    def f(it, a, kw):
        r = it.rope(a[0])
        need_int(it, a[1])
        w = ie(a[1])
        fill = it.rope(a[2]) if len(a) > 2 else lit(b' ')
        if rope_len(fill) != 1:
            raise it.exc(TypeError, 'fill character')
        n = rope_len(r)
        p = P()
        if not (w > n if isinstance(w, int) and isinstance(n, int)
                else p.branch(zi(w) > zi(n))):
            return it.unrope(r)
        pad = it.repeat(it.unrope(fill), bytes, mk_int(simp(
            zi(w) - zi(n))))
        pr = it.rope(pad)
        return it.unrope(R.rcat(r, pr) if left else R.rcat(pr, r))
    return f


PR['bytes.ljust'] = PR['bytearray.ljust'] = _just(True)
PR['bytes.rjust'] = PR['bytearray.rjust'] = _just(False)


def _native_b(name):
    def f(it, a, kw):
        c = R.as_concrete(it.rope(a[0]))
        args = []
        for x in a[1:]:
            if it.is_bytes(x):
                y = R.as_concrete(it.rope(x))
                if y is None:
                    raise Unsupported('bytes.%s' % name)
                args.append(y)
            elif it.plain(x):
                args.append(x)
            else:
                raise Unsupported('bytes.%s' % name)
        if c is None:
            raise Unsupported('bytes.%s' % name)
        r = it.native(lambda: getattr(c, name)(*args, **kw))
        if isinstance(r, list):
            return it.new_list([LItem(x) for x in r])
        return r
    return f


for _n in ('rfind', 'index', 'count', 'rstrip', 'lstrip', 'strip',
           'replace', 'split', 'upper', 'lower', 'isdigit', 'translate',
           'zfill', 'partition', 'rpartition', 'isalnum'):
    PR['bytes.' + _n] = _native_b(_n)
    PR['bytearray.' + _n] = _native_b(_n)


@prim('bytearray.extend')
def ba_extend(it, a, kw):
    rec = P().get(a[0])
    v = a[1]
    if it.pytype(v) is str:
        raise it.exc(TypeError, 'expected iterable of integers')
    if is_int(it, v) or v is None:
        raise it.exc(TypeError, "can't extend bytearray")
    it.put(a[0], HBA(R.rcat(rec.rope, to_rope(it, v))))


@prim('bytearray.append')
def ba_append(it, a, kw):
    need_int(it, a[1])
    rec = P().get(a[0])
    it.put(a[0], HBA(R.rcat(rec.rope, segs_rope(it, [LItem(a[1])]))))


@prim('bytearray.insert')
def ba_insert(it, a, kw):
    rec = P().get(a[0])
    i = a[1]
    it.setitem(a[0], slice(i, i, None), it.unrope(
        segs_rope(it, [LItem(a[2])])))


@prim('bytearray.reverse')
def ba_reverse(it, a, kw):
    it.put(a[0], HBA(R.rope_rev(P().get(a[0]).rope)))


@prim('bytearray.clear')
def ba_clear(it, a, kw):
    it.put(a[0], HBA(R.EMPTY))


@prim('bytearray.copy')
def ba_copy(it, a, kw):
    return it.new_ba(it.rope(a[0]))


@prim('bytearray.pop')
def ba_pop(it, a, kw):
    i = a[1] if len(a) > 1 else -1
    v = it.getitem(a[0], i)
    it.setitem(a[0], slice(i, i + 1 if ie(i) != -1 else None, None), b'')
    return v


@prim('bytearray.__format__', 'bytes.__format__')
def ba_format(it, a, kw):
    return Opaque(str)


# ------------------------------------------------------------------- str

@prim('str')
def str_ctor(it, a, kw):
    if not a:
        return ''
    v = a[0]
    if len(a) > 1:
        return b_decode(it, a, kw)
    if it.plain(v):
        return it.native(lambda: str(v))
    if isinstance(v, SStr) or hasattr(v, 'dv_text'):
        return v
    return Opaque(str)


@prim('str.format')
def str_format(it, a, kw):
    import string
    fmt = a[0]
    if not isinstance(fmt, str):
        return Opaque(str)
    args = a[1:]
    parts = []
    auto = 0
    for litx, field, spec, conv in string.Formatter().parse(fmt):
        if litx:
            parts.append(litx)
        if field is None:
            continue
        if field == '':
            if auto >= len(args):
                raise it.exc(IndexError, 'Replacement index')
            v = args[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(args):
                raise it.exc(IndexError, 'Replacement index')
            v = args[int(field)]
        elif field.isidentifier():
            if field not in kw:
                raise it.exc(KeyError, field)
            v = kw[field]
        else:
            return Opaque(str)
        if isinstance(v, NetName) and not spec and not conv and \
                fmt == '{}':
            return v
        parts.append(it.format_value(v, spec or '',
                                     ord(conv) if conv else -1))
    return it.join_strs(parts)


@prim('str.join')
def str_join(it, a, kw):
    sep = a[0]
    segs = list(it.iter_segs(a[1]))
    vals = [s.v for s in segs if isinstance(s, LItem)]
    for s in segs:
        v = s.v if isinstance(s, (LItem, LMap)) else None
        if hasattr(v, 'dv_join'):
            return v.dv_join(it, sep, segs)
    if len(vals) == len(segs):
        for v in vals:
            if it.pytype(v) is not str:
                raise it.exc(TypeError, 'sequence item: expected str')
        parts = []
        for i, v in enumerate(vals):
            if i:
                parts.append(sep)
            parts.append(v)
        return it.join_strs(parts) if parts else ''
    if all(isinstance(s, (LItem, LMap)) and isinstance(s.v, Opaque)
           and s.v.typ is str for s in segs):
        return Opaque(str)
    if sep == ' ':
        from dv import strs
        if all(strs.istok_seg(s) for s in segs):
            return strs.JoinStr(segs)
    out = []
    for s in segs:
        if isinstance(s, LMap):
            if sep != '':
                raise Unsupported('join of a symbolic sequence')
            out.append(R.Cat(s.k, s.lo, s.hi, it.srope(s.v), s.facts))
        elif isinstance(s, LItem):
            out.extend(it.srope(s.v).segs)
        else:
            raise Unsupported('join')
    return it.unstr(R.mk_rope(out))


@prim('str.split')
def str_split(it, a, kw):
    s = a[0]
    if isinstance(s, str) and all(it.plain(x) for x in a):
        return it.new_list([LItem(x) for x in it.native(
            lambda: s.split(*a[1:], **kw))])
    if hasattr(s, 'dv_split'):
        return s.dv_split(it, a[1:], kw)
    if isinstance(s, Opaque):
        from dv import strs
        return strs.unknown().dv_split(it, a[1:], kw)
    if isinstance(s, SStr):
        toks = split_text(s.rope, a[1:], kw)
        if toks is not None:
            return it.new_list([LItem(it.unstr(t)) for t in toks])
    raise Unsupported('split of symbolic text')


def split_text(r, a, kw):
    """text made of literals and hexadecimal digits -> tokens"""
    if kw or a and a[0] not in (' ', None):
        return None
    toks = [[]]
    for s in r.segs:
        if isinstance(s, Lit):
            t = s.b.decode('latin-1')
            word = ''
            for c in t:
                if c.isspace():
                    if c != ' ' and a and a[0] == ' ':
                        word += c
                        continue
                    toks[-1].append(Lit(word.encode('latin-1')))
                    toks.append([])
                    word = ''
                else:
                    word += c
            toks[-1].append(Lit(word.encode('latin-1')))
        elif isinstance(s, R.Hex):
            toks[-1].append(s)
        else:
            return None
    out = []
    for t in toks:
        w = R.mk_rope(t)
        n = R.rope_len(w)
        if a and a[0] == ' ':
            out.append(w)
        elif isinstance(n, int):
            if n:
                out.append(w)
        elif P().branch(zi(n) > 0):
            out.append(w)
    return out


def _native_s(name):
    def f(it, a, kw):
        s = a[0]
        if isinstance(s, NetName):
            s = it.netname_concrete(s)
        if hasattr(s, 'dv_' + name):
            return getattr(s, 'dv_' + name)(it, a[1:], kw)
        if isinstance(s, str) and all(it.plain(x) for x in a[1:]):
            r = it.native(lambda: getattr(s, name)(*a[1:], **kw))
            if isinstance(r, list):
                return it.new_list([LItem(x) for x in r])
            return r
        if it.pytype(s) is str and name in (
                'find', 'startswith', 'rfind', 'endswith', 'index') and \
                a[1] is None:
            raise it.exc(TypeError, 'must be str, not NoneType')
        if isinstance(s, str) and hasattr(a[1], 'dv_findin') and len(a) == 2 \
                and name in ('find', 'index', 'rfind', 'rindex'):
            return a[1].dv_findin(it, s, name)
        if isinstance(s, str) and isinstance(a[1], SStr) and \
                name in ('find', 'index'):
            b = R.rope_bytes(a[1].rope)
            if b is not None and len(b) == 1:
                e = z3.IntVal(-1)
                for i in range(len(s) - 1, -1, -1):
                    e = z3.If(zi(b[0]) == ord(s[i]), z3.IntVal(i), e)
                return mk_int(e)
        if isinstance(s, SStr) and name in ('startswith', 'find') and \
                len(a) == 2 and it.pytype(a[1]) is str:
            f2 = b_startswith if name == 'startswith' else b_find
            return f2(it, [it.unrope(s.rope), it.unrope(it.srope(a[1]))],
                      {})
        raise Unsupported('str.%s on symbolic text' % name)
    return f


for _n in ('find', 'rfind', 'startswith', 'endswith', 'lower', 'upper',
           'strip', 'lstrip', 'rstrip', 'replace', 'isdigit', 'isupper',
           'islower', 'index', 'count', 'rsplit', 'partition',
           'rpartition', 'zfill', 'isalnum', 'isalpha', 'title',
           'casefold', 'swapcase', 'removeprefix', 'removesuffix',
           'splitlines', 'isascii', 'rindex', 'ljust', 'rjust',
           'capitalize', 'translate', 'isspace', 'isnumeric'):
    PR['str.' + _n] = _native_s(_n)


@prim('str.encode')
def str_encode(it, a, kw):
    s = a[0]
    if hasattr(s, 'dv_encode'):
        return s.dv_encode(it)
    if isinstance(s, str):
        return it.native(lambda: s.encode(*a[1:], **kw))
    if isinstance(s, Opaque):
        raise Unsupported('encode of unknown text')
    return it.unrope(it.srope(s))


# ----------------------------------------------------------------- lists

@prim('list')
def list_ctor(it, a, kw):
    if not a:
        return it.new_list(())
    return it.new_list(tuple(it.iter_segs(a[0])))


@prim('tuple')
def tuple_ctor(it, a, kw):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, (tuple, STup)):
        return v
    return it.mk_tuple(list(it.iter_segs(v)))


@prim('list.append')
def l_append(it, a, kw):
    rec = P().get(a[0])
    it.put(a[0], HList(rec.segs + (LItem(a[1]),)))


@prim('list.extend')
def l_extend(it, a, kw):
    segs = tuple(it.iter_segs(a[1]))
    rec = P().get(a[0])
    it.put(a[0], HList(rec.segs + segs))


@prim('list.insert')
def l_insert(it, a, kw):
    i = a[1]
    it.setitem(a[0], slice(i, i, None), (a[2],))


@prim('list.pop')
def l_pop(it, a, kw):
    i = a[1] if len(a) > 1 else -1
    rec = P().get(a[0])
    loc = R.list_locate(list(rec.segs), i)
    if loc is None:
        raise it.exc(IndexError, 'pop from empty list')
    it.put(a[0], HList(list(loc[0]) + list(loc[2])))
    return loc[1]


@prim('list.reverse')
def l_reverse(it, a, kw):
    it.put(a[0], HList(R.list_rev(P().get(a[0]).segs)))


@prim('list.copy')
def l_copy(it, a, kw):
    return it.new_list(P().get(a[0]).segs)


@prim('list.clear')
def l_clear(it, a, kw):
    it.put(a[0], HList(()))


@prim('list.index', 'tuple.index')
def l_index(it, a, kw):
    for i, s in enumerate(it.iter_segs(a[0])):
        if not isinstance(s, LItem):
            raise Unsupported('index in symbolic sequence')
        if it.truth(it.eq(s.v, a[1])):
            return i
    raise it.exc(ValueError, 'not in list')


@prim('list.count', 'tuple.count')
def l_count(it, a, kw):
    n = 0
    for s in it.iter_segs(a[0]):
        if not isinstance(s, LItem):
            raise Unsupported('count in symbolic sequence')
        if it.truth(it.eq(s.v, a[1])):
            n += 1
    return n


@prim('list.remove')
def l_remove(it, a, kw):
    i = l_index(it, a, kw)
    l_pop(it, [a[0], i], {})


@prim('list.sort')
def l_sort(it, a, kw):
    v = p_sorted(it, [a[0]], kw)
    it.put(a[0], HList(P().get(v).segs))


@prim('sorted')
def p_sorted(it, a, kw):
    segs = it.iter_segs(a[0])
    vals = [s.v for s in segs if isinstance(s, LItem)]
    if len(vals) == len(segs) and all(it.plain(v) for v in vals) and \
            not kw:
        return it.new_list([LItem(v) for v in it.native(
            lambda: sorted(vals))])
    raise Unsupported('sorted')


@prim('set', 'frozenset')
def set_ctor(it, a, kw):
    if not a:
        return P().alloc(HSet([]))
    segs = it.iter_segs(a[0])
    out = []
    for s in segs:
        if not isinstance(s, LItem):
            raise Unsupported('set of symbolic sequence')
        out.append(s.v)
    return P().alloc(HSet(out))


@prim('set.add')
def set_add(it, a, kw):
    rec = P().get(a[0])
    it.put(a[0], HSet(rec.items + [a[1]]))


@prim('dict')
def dict_ctor(it, a, kw):
    d = {}
    if a:
        v = a[0]
        if isinstance(v, Ref) and isinstance(P().heap[v.id], HDict):
            d.update(P().heap[v.id].items)
        else:
            for s in it.iter_segs(v):
                if not isinstance(s, LItem):
                    raise Unsupported('dict of symbolic sequence')
                k = it.getitem(s.v, 0)
                if not it.plain(k):
                    raise Unsupported('symbolic dict key')
                d[k] = it.getitem(s.v, 1)
    d.update(kw)
    return P().alloc(HDict(d))


@prim('dict.get')
def d_get(it, a, kw):
    return it.dict_get(P().get(a[0]), a[1], a[2] if len(a) > 2 else None)


@prim('dict.items')
def d_items(it, a, kw):
    return tuple((k, v) for k, v in P().get(a[0]).items.items())


@prim('dict.keys')
def d_keys(it, a, kw):
    return tuple(P().get(a[0]).items)


@prim('dict.values')
def d_values(it, a, kw):
    return tuple(P().get(a[0]).items.values())


@prim('dict.copy')
def d_copy(it, a, kw):
    return P().alloc(HDict(P().get(a[0]).items))


@prim('dict.pop')
def d_pop(it, a, kw):
    rec = P().get(a[0])
    if not it.plain(a[1]):
        raise Unsupported('symbolic dict key')
    if a[1] not in rec.items:
        if len(a) > 2:
            return a[2]
        raise it.exc(KeyError, a[1])
    v = rec.items[a[1]]
    it.delitem(a[0], a[1])
    return v


@prim('dict.update')
def d_update(it, a, kw):
    d = dict(P().get(a[0]).items)
    if len(a) > 1:
        d.update(it.dict_items(a[1]))
    d.update(kw)
    it.put(a[0], HDict(d))


@prim('dict.setdefault')
def d_setdefault(it, a, kw):
    rec = P().get(a[0])
    if not it.plain(a[1]):
        raise Unsupported('symbolic dict key')
    if a[1] not in rec.items:
        it.setitem(a[0], a[1], a[2] if len(a) > 2 else None)
    return P().get(a[0]).items[a[1]]


# ------------------------------------------------------------- iteration

def new_iter(segs, kind='gen'):
    return P().alloc(HIter(segs, kind))


@prim('iter')
def p_iter(it, a, kw):
    v = a[0]
    if it.is_bytes(v):
        return P().alloc(HIter((it.rope(v),), 'rope'))
    if isinstance(v, Ref) and isinstance(P().heap[v.id], HIter):
        return v
    return new_iter(it.iter_segs(v), 'iter')


@prim('next')
def p_next(it, a, kw):
    v = a[0]
    if isinstance(v, Ref) and isinstance(P().heap[v.id], HIter):
        kind = P().heap[v.id].kind
        segs = it.iter_segs(v)
        loc = R.list_locate(list(segs), 0)
        if loc is None:
            if len(a) > 1:
                return a[1]
            raise it.exc(StopIteration)
        P().put(v, HIter(loc[2], 'iter' if kind == 'rope' else kind))
        return loc[1]
    raise Unsupported('next')


@prim('range')
def p_range(it, a, kw):
    for x in a:
        need_int(it, x, 'cannot be interpreted as an integer')
    es = [ie(x) for x in a]
    if all(isinstance(e, int) for e in es):
        return it.native(lambda: range(*es))
    if len(es) == 3 and es[2] != 1:
        raise Unsupported('symbolic range with step')
    lo, hi = (0, es[0]) if len(es) == 1 else (es[0], es[1])
    p = P()
    if not p.branch(zi(hi) >= zi(lo)):
        return ()
    k = p.fresh_int('ri')
    return STup([LMap(k, lo, hi, SInt(k))])


@prim('enumerate')
def p_enumerate(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    pos = ie(start)
    out = []
    for s in it.iter_segs(a[0]):
        if isinstance(s, LItem):
            out.append(LItem((mk_int(pos), s.v)))
            pos = simp(zi(pos) + 1)
        elif isinstance(s, LMap):
            out.append(LMap(s.k, s.lo, s.hi, (
                mk_int(zi(pos) + s.k - zi(s.lo)), s.v), s.facts))
            pos = simp(zi(pos) + zi(s.hi) - zi(s.lo))
        else:
            raise Unsupported('enumerate')
    return new_iter(out)


@prim('zip')
def p_zip(it, a, kw):
    lists = [list(it.iter_segs(x)) for x in a]
    if all(all(isinstance(s, LItem) for s in l) for l in lists):
        return new_iter([LItem(tuple(s.v for s in t))
                         for t in zip(*lists)])
    p = P()
    # align the segments
    out = []
    while True:
        if any(not l for l in lists):
            return new_iter(out)
        heads = [l[0] for l in lists]
        if all(isinstance(h, LItem) for h in heads):
            out.append(LItem(tuple(h.v for h in heads)))
            for l in lists:
                l.pop(0)
            continue
        lens = [R.lseg_len(h) for h in heads]
        m = lens[0]
        for x in lens[1:]:
            if isinstance(m, int) and isinstance(x, int):
                m = min(m, x)
            elif p.branch(zi(x) < zi(m)):
                m = x
        if isinstance(m, int) and m == 0 or p.provable(zi(m) == 0):
            for l, h, n in zip(lists, heads, lens):
                if p.provable(zi(n) == 0):
                    l.pop(0)
            continue
        k = p.fresh_int('zk')
        vals, facts = [], []
        for i, h in enumerate(heads):
            if isinstance(h, LItem):
                vals.append(h.v)
                continue
            off = [(h.k, simp(k + zi(h.lo)))]
            vals.append(R.subst(h.v, off))
            facts.extend(z3.substitute(f, *off) for f in h.facts)
        out.append(LMap(k, 0, m, tuple(vals), facts))
        for i, l in enumerate(lists):
            h = heads[i]
            if isinstance(h, LItem):
                l.pop(0)
            else:
                l[0:1] = R.lnorm([LMap(h.k, simp(zi(h.lo) + zi(m)), h.hi,
                                       h.v, h.facts)])
                if l and isinstance(l[0], LMap) and p.provable(
                        zi(l[0].lo) >= zi(l[0].hi)):
                    l.pop(0)


@prim('reversed')
def p_reversed(it, a, kw):
    v = a[0]
    if it.is_bytes(v):
        return P().alloc(HIter((R.rope_rev(it.rope(v)),), 'rope'))
    if hasattr(v, 'dv_reversed'):
        return v.dv_reversed(it)
    return new_iter(R.list_rev(it.iter_segs(v)))


@prim('map')
def p_map(it, a, kw):
    from dv import loops
    f = a[0]
    if len(a) == 2:
        segs = it.iter_segs(a[1])
        return new_iter(loops.map_segs(it, segs, lambda v: it.call(
            f, [v], {})))
    z = p_zip(it, a[1:], {})
    return new_iter(loops.map_segs(it, it.iter_segs(z), lambda v: it.call(
        f, list(v), {})))


@prim('filter')
def p_filter(it, a, kw):
    f = a[0]
    out = []
    for s in it.iter_segs(a[1]):
        if not isinstance(s, LItem):
            raise Unsupported('filter of symbolic sequence')
        if it.truth(it.call(f, [s.v], {}) if f is not None else s.v):
            out.append(s)
    return new_iter(out)


@prim('itertools.chain', 'chain')
def p_chain(it, a, kw):
    out = []
    for x in a:
        out.extend(it.iter_segs(x))
    return new_iter(out)


@prim('chain.from_iterable')
def p_chain_from(it, a, kw):
    out = []
    for s in it.iter_segs(a[-1]):
        if not isinstance(s, LItem):
            raise Unsupported('chain of symbolic sequence')
        out.extend(it.iter_segs(s.v))
    return new_iter(out)


@prim('functools.reduce', '_functools.reduce', 'reduce')
def p_reduce(it, a, kw):
    segs = list(it.iter_segs(a[1]))
    if len(a) > 2:
        acc = a[2]
    else:
        if not segs:
            raise it.exc(TypeError, 'reduce() of empty iterable')
        if not isinstance(segs[0], LItem):
            raise Unsupported('reduce over a symbolic sequence')
        acc = segs.pop(0).v
    for s in segs:
        if not isinstance(s, LItem):
            raise Unsupported('reduce over a symbolic sequence')
        acc = it.call(a[0], [acc, s.v], {})
    return acc


def _minmax(name):
    def f(it, a, kw):
        key = kw.get('key')
        if key is not None:
            raise Unsupported('min/max key')
        if len(a) == 1:
            segs = it.iter_segs(a[0])
            vals = [s.v for s in segs if isinstance(s, LItem)]
            if len(vals) != len(segs):
                raise Unsupported('min/max of symbolic sequence')
            if not vals:
                if 'default' in kw:
                    return kw['default']
                raise it.exc(ValueError, '%s() arg is empty' % name)
        else:
            vals = a
        if all(it.plain(v) for v in vals):
            return it.native(lambda: getattr(builtins, name)(vals))
        r = vals[0]
        for v in vals[1:]:
            need_int(it, v)
            need_int(it, r)
            x, y = zi(ie(r)), zi(ie(v))
            r = mk_int(z3.If(y < x, y, x) if name == 'min' else
                       z3.If(y > x, y, x))
        return r
    return f


PR['min'] = _minmax('min')
PR['max'] = _minmax('max')


def int_cases(it, v):
    """an integer expression, of an element that may differ by case"""
    if isinstance(v, R.ListCases):
        out = None
        for c, x in reversed(v.cs):
            e = zi(int_cases(it, x))
            out = e if out is None else z3.If(c, e, out)
        return out
    need_int(it, v, 'unsupported operand')
    return ie(v)


@prim('sum')
def p_sum(it, a, kw):
    acc = a[1] if len(a) > 1 else kw.get('start', 0)
    for s in it.iter_segs(a[0]):
        if isinstance(s, LItem):
            acc = it.binop('Add', acc, s.v)
        elif isinstance(s, LMap):
            acc = it.binop('Add', acc, mk_int(R.sum_term(
                s.k, s.lo, s.hi, int_cases(it, s.v))))
        elif isinstance(s, R.LFlat):
            acc = it.binop('Add', acc, mk_int(s.total(
                lambda x: int_cases(it, x))))
        else:
            raise Unsupported('sum')
    return acc


def truth_cases(it, v):
    """the truth of an element that may differ by case"""
    if isinstance(v, R.ListCases):
        out = None
        for c, x in reversed(v.cs):
            e = truth_cases(it, x)
            out = e if out is None else z3.If(c, e, out)
        return out
    if isinstance(v, bool) or it.plain(v):
        return z3.BoolVal(bool(v))
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, SInt):
        return v.e != 0
    raise Unsupported('quantified truth of %r' % (v,))


def truth_flat(it, s, want):
    """an LFlat as the LMap of whether all (any) of a tuple hold"""
    cs = []
    for c, xs in s.v.cs:
        es = [truth_cases(it, x) for x in xs]
        cs.append((c, SBool(z3.simplify(
            (z3.And if want else z3.Or)(*es)))))
    return LMap(s.k, s.lo, s.hi, R.ListCases(cs), s.facts)


def quantified(it, s, want):
    """is the truth value of every element of LMap s equal to `want`?

    forks: (True: a universal fact) / (False: a witness index)"""
    p = P()
    if isinstance(s, R.LFlat):
        s = truth_flat(it, s, want)
    v = s.v
    if isinstance(v, bool) or it.plain(v):
        if bool(v) == want:
            return True
        return not p.branch(zi(s.lo) < zi(s.hi))
    e = z3.simplify(truth_cases(it, v))
    if not want:
        e = z3.Not(e)
    # provable for all?
    with R.scope(zi(s.lo) <= s.k, s.k < zi(s.hi), *s.facts):
        if p.provable(e):
            return True
    if p.choose(2) == 0:
        p.add_forall(s.lo, s.hi, s.k, e)
        return True
    j = p.fresh_int('wit')
    p.assume_expr(z3.And(zi(s.lo) <= j, j < zi(s.hi)))
    for f in s.facts:
        p.assume_expr(z3.substitute(f, (s.k, j)))
    p.new_index(j)
    g = z3.Not(z3.substitute(e, (s.k, j)))
    R.add_range_facts(g)
    p.assume_expr(g)
    if p.check() == z3.unsat:
        raise Infeasible()
    return False


@prim('all')
def p_all(it, a, kw):
    for s in it.iter_segs(a[0]):
        if isinstance(s, LItem):
            if not it.truth(s.v):
                return False
        elif not quantified(it, s, True):
            return False
    return True


@prim('any')
def p_any(it, a, kw):
    for s in it.iter_segs(a[0]):
        if isinstance(s, LItem):
            if it.truth(s.v):
                return True
        elif not quantified(it, s, False):
            return True
    return False


# ---------------------------------------------------------------- hashing

DIGEST = {'sha256': 32, 'ripemd160': 20, 'blake2b': 64, 'blake2s': 32,
          'sha1': 20, 'sha512': 64, 'md5': 16, 'sha224': 28, 'sha384': 48,
          'sha3_256': 32, 'sha3_512': 64}


def new_hash(it, alg, data, params=()):
    if alg not in DIGEST:
        raise Unsupported('hash algorithm %s' % alg)
    r = R.EMPTY
    if data is not None:
        need_bytes(it, data, 'object supporting the buffer API required')
        r = it.rope(data)
    return P().alloc(HHash(alg, params, r))


for _alg in ('sha256', 'ripemd160', 'sha1', 'sha512', 'md5', 'sha224',
             'sha384', 'sha3_256', 'sha3_512'):
    def _mk(alg):
        def f(it, a, kw):
            kw1(it, kw, 'usedforsecurity', 'string', 'data')
            return new_hash(it, alg, a[0] if a else kw.get('data'))
        return f
    for _m in ('hashlib.', '_hashlib.openssl_', '_hashlib.', '_sha2.',
               '_sha1.'):
        PR[_m + _alg] = _mk(_alg)


@prim('hashlib.new', '_hashlib.new', 'hashlib.__hash_new')
def hash_new(it, a, kw):
    alg = a[0] if a else kw.get('name')
    data = a[1] if len(a) > 1 else kw.get('data')
    if not isinstance(alg, str):
        raise Unsupported('hash name')
    if alg in ('blake2b', 'blake2s'):
        return blake2(alg)(it, [data] if data is not None else [], {})
    if alg.lower() not in DIGEST:
        raise it.exc(ValueError, 'unsupported hash type')
    return new_hash(it, alg.lower(), data)


def blake2(alg):
    def f(it, a, kw):
        kw = dict(kw)
        data = a[0] if a else kw.pop('data', None)
        size = kw.pop('digest_size', DIGEST[alg])
        params = [('digest_size', concrete_int(it, size))]
        for k, n in (('key', 64), ('salt', 16), ('person', 16)):
            if k in kw:
                v = kw.pop(k)
                need_bytes(it, v)
                c = R.as_concrete(it.rope(v))
                if c is None:
                    raise Unsupported('symbolic %s' % k)
                if len(c) > n:
                    raise it.exc(ValueError, 'maximum %s length' % k)
                if k != 'key':
                    c = c.rstrip(b'\0')
                if c:
                    params.append((k, c))
        kw.pop('usedforsecurity', None)
        if kw:
            raise it.exc(TypeError, 'unexpected keyword argument')
        if not 1 <= params[0][1] <= DIGEST[alg]:
            raise it.exc(ValueError, 'digest_size')
        return new_hash(it, alg, data, tuple(params))
    return f


for _m in ('hashlib.', '_blake2.', ''):
    PR[_m + 'blake2b'] = blake2('blake2b')
    PR[_m + 'blake2s'] = blake2('blake2s')


@prim('HASH.update')
def hash_update(it, a, kw):
    need_bytes(it, a[1], 'object supporting the buffer API required')
    rec = P().get(a[0])
    P().put(a[0], HHash(rec.alg, rec.params,
                        R.rcat(rec.rope, it.rope(a[1]))))


@prim('HASH.copy')
def hash_copy(it, a, kw):
    rec = P().get(a[0])
    return P().alloc(HHash(rec.alg, rec.params, rec.rope))


def hash_value(alg, params, rope):
    """digest as rope; uninterpreted unless the input is a constant"""
    c = R.as_concrete(rope)
    size = dict(params).get('digest_size', DIGEST.get(alg))
    if c is not None and len(c) < 4096:
        if alg in ('blake2b', 'blake2s'):
            h = getattr(hashlib, alg)(c, **dict(params))
            return lit(h.digest())
        return lit(hashlib.new(alg, c).digest())
    STATS.trusted.add('%s is a function of its input bytes, with a %d-byte '
                      'result (uninterpreted)' % (alg, size))
    return app(alg, params, (rope,), size)


def app(alg, params, ropes, size):
    return Rope((R.Sub(R.App(alg, params, ropes, size), 0, size),))


@prim('HASH.digest')
def hash_digest(it, a, kw):
    rec = P().get(a[0])
    return it.unrope(hash_value(rec.alg, rec.params, rec.rope))


@prim('HASH.hexdigest')
def hash_hexdigest(it, a, kw):
    r = hash_digest(it, a, kw)
    return b_hex(it, [r], {})


# ------------------------------------------------------ struct / binascii

@prim('_struct.pack', 'struct.pack')
def s_pack(it, a, kw):
    fmt = a[0]
    order, items = parse_struct(fmt)
    if len(items) != len(a) - 1:
        raise PyRaise(ExcVal(_struct_error(), ('items',)))
    out = []
    for (n, signed), v in zip(items, a[1:]):
        try:
            out.extend(it.rope(int_to_bytes(
                it, [v, n, order], {'signed': signed})).segs)
        except PyRaise as e:
            raise PyRaise(ExcVal(_struct_error(), ('range',)))
    return it.unrope(R.mk_rope(out))


def _struct_error():
    import struct
    return struct.error


def parse_struct(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Unsupported('struct format')
    order = {'<': 'little', '>': 'big', '!': 'big'}.get(fmt[:1])
    if order is None:
        raise Unsupported('native struct order')
    items = []
    cnt = ''
    for ch in fmt[1:]:
        if ch.isdigit():
            cnt += ch
            continue
        n = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'L': 4, 'l': 4, 'I': 4,
             'i': 4, 'Q': 8, 'q': 8}.get(ch)
        if n is None:
            raise Unsupported('struct format %r' % fmt)
        items.extend([(n, ch.islower())] * (int(cnt) if cnt else 1))
        cnt = ''
    return order, items


@prim('_struct.unpack', 'struct.unpack')
def s_unpack(it, a, kw):
    order, items = parse_struct(a[0])
    need_bytes(it, a[1])
    r = it.rope(a[1])
    total = sum(n for n, _ in items)
    ln = rope_len(r)
    if not (ln == total if isinstance(ln, int) else P().branch(
            ln == total)):
        raise PyRaise(ExcVal(_struct_error(), ('size',)))
    out = []
    pos = 0
    for n, signed in items:
        out.append(int_from_bytes(it, [it.unrope(R.rope_slice(
            r, pos, pos + n)), order], {'signed': signed}))
        pos += n
    return tuple(out)


@prim('binascii.hexlify')
def s_hexlify(it, a, kw):
    return it.unrope(it.srope(b_hex(it, [a[0]], {})))


@prim('binascii.unhexlify', 'binascii.a2b_hex')
def s_unhexlify(it, a, kw):
    v = a[0]
    if it.is_bytes(v):
        v = it.unstr(it.rope(v))
    return it.unrope(text_hex(it, v))


@prim('_operator.index', 'operator.index')
def op_index(it, a, kw):
    need_int(it, a[0])
    return a[0]


def install(it):
    it.prims.update(PR)


@prim('slice')
def p_slice(it, a, kw):
    return slice(*a)
