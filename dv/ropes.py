"""Symbolic byte strings (ropes) and symbolic sequences."""
import z3
from dv.core import (
    P, S, SInt, SBool, Ref, HObj, HList, HBA, HDict, HIter, HHash, ExcVal,
    Unsupported, Infeasible, simp, same, zi, zadd, zsub, mk_int, mk_bool, ie)

MAXEXPAND = 140


# ------------------------------------------------------------------ atoms

class Atom:
    """an unknown byte string, possibly one of an indexed family"""
    __slots__ = ('name', 'args', 'length', '_k')

    def __init__(self, name, args, length):
        self.name = name
        self.args = tuple(args)
        self.length = length

    def __repr__(self):
        if self.args:
            return '%s[%s]' % (self.name, ','.join(map(S, self.args)))
        return self.name


class App:
    """application of an uninterpreted byte-valued function (hash)"""
    __slots__ = ('alg', 'params', 'ropes', 'length')

    def __init__(self, alg, params, ropes, length):
        self.alg = alg
        self.params = params
        self.ropes = tuple(ropes)
        self.length = length

    def __repr__(self):
        return '%s%s(%s)' % (self.alg, self.params or '',
                             ', '.join(map(repr, self.ropes)))


# --------------------------------------------------------------- segments

class Lit:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        h = self.b.hex()
        return "x'%s'" % h


class Sub:
    __slots__ = ('a', 'lo', 'hi')

    def __init__(self, a, lo, hi):
        self.a = a
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        if same(self.lo, 0) and same(self.hi, self.a.length):
            return repr(self.a)
        return '%r[%s:%s]' % (self.a, S(self.lo), S(self.hi))


class LE:
    """integer x in n bytes; order 'little' or 'big'"""
    __slots__ = ('x', 'n', 'order')

    def __init__(self, x, n, order='little'):
        self.x = x
        self.n = n
        self.order = order

    def __repr__(self):
        return '%s(%s,%s)' % (self.order[0] + 'e', S(self.x), S(self.n))


class CS:
    """Bitcoin CompactSize encoding of x"""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return 'CS(%s)' % S(self.x)


class Cat:
    """concatenation of rope(k) for lo <= k < hi"""
    __slots__ = ('k', 'lo', 'hi', 'rope', 'facts')

    def __init__(self, k, lo, hi, rope, facts=()):
        self.k = k
        self.lo = lo
        self.hi = hi
        self.rope = rope
        self.facts = tuple(facts)

    def __repr__(self):
        return 'Cat(%s in %s..%s: %r)' % (
            S(self.k), S(self.lo), S(self.hi), self.rope)


class Rev:
    __slots__ = ('seg',)

    def __init__(self, seg):
        self.seg = seg

    def __repr__(self):
        return 'Rev(%r)' % self.seg


class Hex:
    """lower-case hex digits of a rope (string segment)"""
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope

    def __repr__(self):
        return 'Hex(%r)' % self.rope


class Cases:
    """one of several ropes, by (mutually exclusive, exhaustive) condition"""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __repr__(self):
        return 'Cases(%s)' % ', '.join(
            '%s: %r' % (S(c), r) for c, r in self.cs)


class StrSeg:
    """opaque string segment with no structure (e.g. formatted message)"""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'StrSeg(%s)' % self.tag


class Rope:
    """immutable symbolic byte string"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return '<' + ' '.join(map(repr, self.segs)) + '>'


class SStr:
    """symbolic text; rope of ASCII codes"""
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope

    def __repr__(self):
        return 'SStr(%r)' % self.rope


class ListCases:
    """a value that is one of several by condition (loop-body merge)"""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __repr__(self):
        return 'LCases(%s)' % ', '.join(
            '%s: %r' % (S(c), r) for c, r in self.cs)


# ------------------------------------------------------------ list segments

class LItem:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Item(%r)' % (self.v,)


class LMap:
    __slots__ = ('k', 'lo', 'hi', 'v', 'facts')

    def __init__(self, k, lo, hi, v, facts=()):
        self.k = k
        self.lo = lo
        self.hi = hi
        self.v = v
        self.facts = tuple(facts)

    def __repr__(self):
        return 'Map(%s in %s..%s: %r)' % (
            S(self.k), S(self.lo), S(self.hi), self.v)


class LFlat:
    """the concatenation over lo <= k < hi of tuples that differ by case

    v: ListCases of tuples"""
    __slots__ = ('k', 'lo', 'hi', 'v', 'facts')

    def __init__(self, k, lo, hi, v, facts=()):
        self.k = k
        self.lo = lo
        self.hi = hi
        self.v = v
        self.facts = tuple(facts)

    def __repr__(self):
        return 'Flat(%s in %s..%s: %r)' % (
            S(self.k), S(self.lo), S(self.hi), self.v)

    def total(self, fn):
        """sum over all elements' fn"""
        out = None
        for c, x in reversed(self.v.cs):
            n = 0
            for y in x:
                n = zadd(n, fn(y))
            n = simp(n)
            out = n if out is None else simp(z3.If(c, zi(n), zi(out)))
        return sum_term(self.k, self.lo, self.hi, out)


class LAcc:
    """loop accumulator marker: an unknown list prefix of given length"""
    __slots__ = ('name', 'length')

    def __init__(self, name, length):
        self.name = name
        self.length = length

    def __repr__(self):
        return 'LAcc(%s)' % self.name


class STup:
    """tuple of symbolic length"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return 'STup(%r)' % (self.segs,)


EMPTY = Rope(())


def lit(b):
    return Rope((Lit(bytes(b)),)) if len(b) else EMPTY


# ---------------------------------------------------------------- lengths

def seg_len(s):
    if isinstance(s, Lit):
        return len(s.b)
    if isinstance(s, Sub):
        return simp(zsub(s.hi, s.lo)) if not same(s.lo, 0) else s.hi
    if isinstance(s, LE):
        return s.n
    if isinstance(s, CS):
        return cs_len(s.x)
    if isinstance(s, Cat):
        return cat_len(s)
    if isinstance(s, Rev):
        return seg_len(s.seg)
    if isinstance(s, Hex):
        return simp(rope_len(s.rope) * 2)
    if isinstance(s, Cases):
        ls = [rope_len(r) for _, r in s.cs]
        if all(same(ls[0], x) for x in ls):
            return ls[0]
        e = zi(ls[-1])
        for (c, _), x in zip(reversed(s.cs[:-1]), reversed(ls[:-1])):
            e = z3.If(c, zi(x), e)
        return e
    raise Unsupported('length of %r' % (s,))


def cs_len(x):
    if isinstance(x, int):
        return 1 if x < 0xfd else 3 if x <= 0xffff else \
            5 if x <= 0xffffffff else 9
    return z3.If(x < 0xfd, z3.IntVal(1), z3.If(
        x <= 0xffff, z3.IntVal(3), z3.If(
            x <= 0xffffffff, z3.IntVal(5), z3.IntVal(9))))


def rope_len(r):
    n = 0
    for s in r.segs:
        n = zadd(n, seg_len(s))
    return simp(n)


def const_len(r):
    n = rope_len(r)
    return n if isinstance(n, int) else None


def forced_value(e):
    """the only value of e on this path, or None"""
    e = simp(e)
    if isinstance(e, int):
        return e
    p = P()
    if p.solver.check() != z3.sat:
        return None
    v = p.solver.model().eval(e, model_completion=True)
    if not z3.is_int_value(v):
        return None
    v = v.as_long()
    return v if p.provable(e == v) else None


def forced_len(r):
    """the only length of r on this path, or None"""
    return forced_value(rope_len(r))


# -------------------------------------------------------- symbolic sums
#
# Sum(lo, hi, e(k)) is a z3 function application S_key(lo, hi, params),
# keyed on the shape of e with its free integer constants abstracted.

_SUMFN = {}


_FREE = {}


def _free(e):
    i = e.get_id()
    c = _FREE.get(i)
    if c is not None:
        return c
    out = {}
    if z3.is_const(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[e.decl().name()] = e
    else:
        for x in e.children():
            out.update(_free(x)[1])
    c = _FREE[i] = (e, out)
    return c


def free_consts(e):
    """the uninterpreted constants of an expression"""
    if isinstance(e, int):
        return []
    return list(_free(e)[1].values())


def free_names(e):
    if isinstance(e, int):
        return ()
    return _free(e)[1]


def mentions(e, names):
    f = free_names(e)
    return any(n in f for n in names)


class SumInfo:
    __slots__ = ('fn', 'e', 'k', 'params')


def sum_term(k, lo, hi, e):
    """z3 term for sum of e over lo <= k < hi"""
    e = simp(e)
    if isinstance(e, int):
        if e == 0:
            return 0
        if isinstance(lo, int) and isinstance(hi, int):
            return e * max(hi - lo, 0)
        n = simp(zsub(hi, lo))
        if P().provable(zi(hi) >= zi(lo)):
            return simp(n * e)
        return simp(z3.If(zi(hi) >= zi(lo), zi(n) * e, z3.IntVal(0)))
    if isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
        return 0
    if not mentions(e, {k.decl().name()}):
        # invariant summand: n * e is non-linear, keep it as a sum
        pass
    consts = [c for c in free_consts(e) if not c.eq(k)]
    uniq = []
    for c in consts:
        if not any(c.eq(u) for u in uniq) and c.sort() == z3.IntSort():
            uniq.append(c)
    K = z3.Int('_K')
    pairs = [(k, K)]
    ps = []
    for i, c in enumerate(uniq):
        pv = z3.Int('_P%d' % i)
        pairs.append((c, pv))
        ps.append(pv)
    shape = z3.simplify(z3.substitute(e, *pairs))
    key = shape.sexpr()
    info = _SUMFN.get(key)
    if info is None:
        info = SumInfo()
        info.fn = z3.Function('Sum!%d' % len(_SUMFN),
                              *([z3.IntSort()] * (2 + len(ps))),
                              z3.IntSort())
        info.e, info.k, info.params = shape, K, ps
        _SUMFN[key] = info
        _SUMFN[info.fn.name()] = info
    t = info.fn(zi(lo), zi(hi), *uniq)
    new = ('sum', t.sexpr()) not in P().facts_done
    sum_facts(t)
    if new:
        pos, neg = signed_parts(e)
        pos, neg = z3.simplify(pos), z3.simplify(neg)
        if not z3.is_int_value(neg) and not z3.is_int_value(pos):
            P().assume_expr(t == zi(sum_term(k, lo, hi, pos))
                            - zi(sum_term(k, lo, hi, neg)))
    return t


def signed_parts(e):
    """(a, b) with e = a - b"""
    zero = z3.IntVal(0)
    if z3.is_int_value(e):
        n = e.as_long()
        return z3.IntVal(max(n, 0)), z3.IntVal(max(-n, 0))
    if z3.is_add(e):
        ps = [signed_parts(c) for c in e.children()]
        return z3.Sum([a for a, _ in ps]), z3.Sum([b for _, b in ps])
    if z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        n = e.arg(0).as_long()
        a, b = signed_parts(e.arg(1))
        return (n * a, n * b) if n > 0 else (-n * b, -n * a)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = signed_parts(e.arg(1))
        c, d = signed_parts(e.arg(2))
        return z3.If(e.arg(0), a, c), z3.If(e.arg(0), b, d)
    return e, zero


def sum_inst(info, args, j):
    """summand at index j"""
    return z3.substitute(info.e, (info.k, zi(j)),
                         *zip(info.params, args[2:]))


def sum_facts(t):
    """basic facts about a sum term (empty sum; sign)"""
    p = P()
    key = ('sum', t.sexpr())
    if key in p.facts_done:
        return
    p.facts_done.add(key)
    info = _SUMFN[t.decl().name()]
    lo, hi = t.arg(0), t.arg(1)
    p.assume_expr(z3.Implies(lo >= hi, t == 0))
    # non-negativity when every summand is non-negative
    j = p.fresh_int('sj')
    args = [t.arg(i) for i in range(t.num_args())]
    with scope(lo <= j, j < hi):
        e = sum_inst(info, args, j)
        add_range_facts(e)
        nonneg = p.check(e < 0) == z3.unsat
        positive = nonneg and p.check(e < 1) == z3.unsat
    if nonneg:
        p.assume_expr(t >= 0)
    if positive:
        p.assume_expr(z3.Implies(lo <= hi, t >= hi - lo))
    # equal to another sum over the same range, if every summand is
    at = (lo.sexpr(), hi.sexpr())
    nm = t.decl().name()
    fns = _fns(info.e)
    for k in [k for k in p.facts_done if k[0] == 'sumr' and k[1] == at]:
        o = k[2]
        oi = _SUMFN[o.decl().name()]
        if o.decl().name() == nm or not (fns & _fns(oi.e)):
            continue
        with scope(lo <= j, j < hi):
            oe = sum_inst(oi, [o.arg(i) for i in range(o.num_args())], j)
            add_range_facts(oe)
            e = sum_inst(info, args, j)
            add_range_facts(e)
            same_ = p.check(e != oe) == z3.unsat
        if same_:
            p.assume_expr(t == o)
            break
    p.facts_done.add(('sumr', at, t))


def _fns(e):
    return frozenset(nm for x, nm in _apps(e)[1].values()
                     if not z3.is_const(x) and not nm.startswith('Sum!'))


def sum_split(k, lo, mid, hi, e):
    """record Sum(lo,hi) = Sum(lo,mid) + Sum(mid,hi)"""
    a, b, c = (sum_term(k, lo, hi, e), sum_term(k, lo, mid, e),
               sum_term(k, mid, hi, e))
    f = zi(a) == zi(b) + zi(c)
    P().assume_expr(z3.Implies(z3.And(zi(lo) <= zi(mid), zi(mid) <= zi(hi)),
                               f))


def sum_first(k, lo, hi, e):
    """record Sum(lo,hi) = e(lo) + Sum(lo+1,hi)"""
    lo1 = simp(zadd(lo, 1))
    a, c = sum_term(k, lo, hi, e), sum_term(k, lo1, hi, e)
    e0 = e if isinstance(e, int) else z3.substitute(e, (k, zi(lo)))
    nested_facts(e0)
    P().assume_expr(z3.Implies(zi(lo) < zi(hi), zi(a) == e0 + zi(c)))


def sum_last(k, lo, hi1, e):
    """record Sum(lo,hi) = Sum(lo,hi-1) + e(hi-1) where hi = hi1+1"""
    hi = simp(zadd(hi1, 1))
    a, c = sum_term(k, lo, hi, e), sum_term(k, lo, hi1, e)
    e0 = e if isinstance(e, int) else z3.substitute(e, (k, zi(hi1)))
    nested_facts(e0)
    P().assume_expr(z3.Implies(zi(lo) <= zi(hi1), zi(a) == zi(c) + e0))


def cat_len(c):
    return sum_term(c.k, c.lo, c.hi, rope_len(c.rope))


# ------------------------------------------------- range facts for atoms
#
# Unknown functions carry range facts (length and byte ranges).  They are
# asserted for every application that enters the path.

RANGE = {}


def byte_range(t):
    return [t >= 0, t <= 255]


_APPS = {}


def _apps(e):
    """the applications of named functions and constants in e"""
    i = e.get_id()
    c = _APPS.get(i)
    if c is not None:
        return c
    out = {}
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = (e, e.decl().name())
        for x in e.children():
            out.update(_apps(x)[1])
    c = _APPS[i] = (e, out)
    return c


def nested_facts(e):
    """facts about the sums inside a summand"""
    if not isinstance(e, (int, bool)):
        for t, nm in _apps(e)[1].values():
            if nm.startswith('Sum!'):
                sum_facts(t)


def add_range_facts(e):
    """assert range facts for all registered applications in e"""
    if isinstance(e, (int, bool)):
        return
    p = P()
    for i, (t, nm) in _apps(e)[1].items():
        if nm.startswith('Sum!'):
            sum_facts(t)
            continue
        rf = p.range_facts.get(nm) or RANGE.get(nm)
        if rf is not None:
            key = ('rf', i)
            if key not in p.facts_done:
                p.facts_done.add(key)
                for f in rf(t):
                    p.assume_expr(f)


# --------------------------------------------------------- normalisation

def norm(segs):
    out = []
    for s in segs:
        if isinstance(s, Lit):
            if not s.b:
                continue
            if out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].b + s.b)
                continue
        elif isinstance(s, Sub):
            if same(s.lo, s.hi):
                continue
            if out and isinstance(out[-1], Sub) \
                    and same_atom(out[-1].a, s.a) \
                    and same(out[-1].hi, s.lo):
                out[-1] = Sub(s.a, out[-1].lo, s.hi)
                continue
        elif isinstance(s, LE):
            if isinstance(s.n, int):
                if s.n == 0:
                    continue
                if isinstance(s.x, int):
                    s = Lit(s.x.to_bytes(s.n, s.order))
                    if out and isinstance(out[-1], Lit):
                        out[-1] = Lit(out[-1].b + s.b)
                        continue
        elif isinstance(s, CS):
            if isinstance(s.x, int):
                s = Lit(cs_bytes(s.x))
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].b + s.b)
                    continue
        elif isinstance(s, Cat):
            if same(s.lo, s.hi) or (
                    isinstance(s.lo, int) and isinstance(s.hi, int)
                    and s.hi <= s.lo) or not s.rope.segs:
                continue
        elif isinstance(s, Hex):
            if not s.rope.segs:
                continue
            if all(isinstance(x, Lit) for x in s.rope.segs):
                b = b''.join(x.b for x in s.rope.segs)
                s = Lit(b.hex().encode())
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].b + s.b)
                    continue
            elif out and isinstance(out[-1], Hex):
                out[-1] = Hex(mk_rope(out[-1].rope.segs + s.rope.segs))
                continue
        elif isinstance(s, Rev):
            if isinstance(s.seg, Rev):
                s = s.seg.seg
        out.append(s)
    return out


def cs_bytes(x):
    if x < 0xfd:
        return bytes([x])
    if x <= 0xffff:
        return b'\xfd' + x.to_bytes(2, 'little')
    if x <= 0xffffffff:
        return b'\xfe' + x.to_bytes(4, 'little')
    return b'\xff' + x.to_bytes(8, 'little')


def mk_rope(segs):
    return Rope(norm(segs))


def rcat(*rs):
    segs = []
    for r in rs:
        segs.extend(r.segs)
    return Rope(norm(segs))


def as_concrete(r):
    """bytes if fully literal, else None"""
    if not r.segs:
        return b''
    if len(r.segs) == 1 and isinstance(r.segs[0], Lit):
        return r.segs[0].b
    return None


def same_atom(a, b):
    if a is b:
        return True
    if isinstance(a, Atom) and isinstance(b, Atom):
        return a.name == b.name and all(
            same(x, y) for x, y in zip(a.args, b.args))
    return False


def atom_eq(a, b):
    """prove two atoms equal"""
    if same_atom(a, b):
        return True
    if isinstance(a, Atom) and isinstance(b, Atom):
        return (a.name == b.name and len(a.args) == len(b.args) and all(
            P().provable(zi(x) == zi(y)) for x, y in zip(a.args, b.args)))
    if isinstance(a, App) and isinstance(b, App):
        return (a.alg == b.alg and a.params == b.params
                and len(a.ropes) == len(b.ropes)
                and all(req(x, y) for x, y in zip(a.ropes, b.ropes)))
    return False


# -------------------------------------------------------------- content

_BFN = {}


def shape_fn(prefix, v, sort, extra=()):
    """uninterpreted function for an opaque property of value v.

    Keyed on the shape of v with its free integer constants abstracted to
    arguments, so that substituting an index in v substitutes it here."""
    names = set()
    val_consts(v, names, set())
    bad = [n for n in names if n.startswith('acc!')]
    if bad:
        raise Unsupported('opaque value depends on a loop accumulator')
    cs = [z3.Int(n) for n in sorted(names)]
    pairs = [(c, z3.Int('_A%d' % i)) for i, c in enumerate(cs)]
    key = (prefix, repr(subst(v, pairs)) if pairs else repr(v), len(cs))
    f = _BFN.get(key)
    if f is None:
        f = z3.Function('%s:%d' % (prefix, len(_BFN)),
                        *([z3.IntSort()] * (len(cs) + len(extra))
                          + [sort]))
        _BFN[key] = f
    return f, cs


def atom_byte(a, i):
    """z3 expr for byte i of an atom"""
    p = P()
    if isinstance(a, Atom):
        key = (a.name + '.b', len(a.args))
        f = _BFN.get(key)
        if f is None:
            f = z3.Function(a.name + '.b',
                            *([z3.IntSort()] * (len(a.args) + 2)))
            _BFN[key] = f
        args = a.args
    else:
        f, args = shape_fn('app', a, z3.IntSort(), (0,))
    RANGE[f.name()] = byte_range
    t = f(*[zi(x) for x in args], zi(i))
    add_range_facts(t)
    return t


LIMBS = {}       # integer built from bytes -> (expression, its bytes)


def seg_byte(s, i):
    """byte i (python int or z3 expr, in range) of a fixed-layout segment"""
    if isinstance(s, Lit):
        if isinstance(i, int):
            return s.b[i]
        e = z3.IntVal(s.b[-1])
        for j in range(len(s.b) - 2, -1, -1):
            e = z3.If(i == j, z3.IntVal(s.b[j]), e)
        return e
    if isinstance(s, Sub):
        return atom_byte(s.a, simp(zadd(s.lo, i)))
    if isinstance(s, LE) and isinstance(s.n, int) and isinstance(i, int):
        j = i if s.order == 'little' else s.n - 1 - i
        if isinstance(s.x, int):
            return (s.x >> (8 * j)) & 255
        x = s.x
        limbs = LIMBS.get(x.get_id())
        if limbs is not None and limbs[0].eq(x):
            return limbs[1][j] if j < len(limbs[1]) else 0
        if s.n == 1:
            return x
        if j:
            x = x / (256 ** j)
        if j != s.n - 1:
            x = x % 256
        return z3.simplify(x)
    if isinstance(s, Rev):
        n = seg_len(s.seg)
        return seg_byte(s.seg, simp(zsub(zsub(n, 1), i)))
    raise Unsupported('byte of %r' % (s,))


def seg_bytes(s):
    """list of byte exprs of a constant-length segment, or None"""
    n = seg_len(s)
    if not isinstance(n, int) or n > MAXEXPAND:
        return None
    if isinstance(s, (Lit, Sub, LE, Rev)):
        return [seg_byte(s, i) for i in range(n)]
    if isinstance(s, Cases):
        cols = []
        for _, r in s.cs:
            b = rope_bytes(r)
            if b is None:
                return None
            cols.append(b)
        out = []
        for i in range(n):
            e = zi(cols[-1][i])
            for (c, _), col in zip(reversed(s.cs[:-1]),
                                   reversed(cols[:-1])):
                e = z3.If(c, zi(col[i]), e)
            out.append(e)
        return out
    if isinstance(s, Hex):
        b = rope_bytes(s.rope)
        if b is None:
            return None
        out = []
        for x in b:
            for d in (zi(x) / 16, zi(x) % 16):
                out.append(z3.simplify(z3.If(d < 10, d + 48, d + 87)))
        return out
    if isinstance(s, Cat) and isinstance(s.lo, int) and isinstance(s.hi, int):
        out = []
        for j in range(s.lo, s.hi):
            b = rope_bytes(inst_cat(s, j))
            if b is None:
                return None
            out.extend(b)
        return out
    return None


def rope_bytes(r):
    out = []
    for s in r.segs:
        b = seg_bytes(s)
        if b is None:
            return None
        out.extend(b)
    return out


def inst_cat(c, j):
    """rope of element j of a Cat (facts assumed under the range guard)"""
    pairs = [(c.k, zi(j))]
    for f in c.facts:
        g = z3.substitute(f, *pairs)
        add_range_facts(g)
        P().assume_expr(z3.Implies(
            z3.And(zi(c.lo) <= zi(j), zi(j) < zi(c.hi)), g))
    return subst(c.rope, pairs)


# ---------------------------------------------------------- substitution

_SUBST = {}


def sub_e(e, pairs):
    if isinstance(e, int):
        return e
    f = free_names(e)
    if not any(a.decl().name() in f for a, _ in pairs):
        return e
    key = (e.get_id(),) + tuple((a.get_id(), b.get_id()) for a, b in pairs)
    c = _SUBST.get(key)
    if c is None:
        r = z3.substitute(e, *pairs)
        r = e if r.eq(e) else simp(r)
        c = _SUBST[key] = (e, pairs, r)
    if c[2] is not e:
        add_range_facts(c[2])
    return c[2]


def subst(v, pairs):
    """substitute index variables in any symbolic value"""
    if v is None or isinstance(v, (int, str, bytes, bool, float)):
        return v
    if isinstance(v, SInt):
        e = sub_e(v.e, pairs)
        return v if e is v.e else mk_int(e)
    if isinstance(v, SBool):
        return mk_bool(z3.substitute(v.e, *pairs))
    if isinstance(v, Rope):
        return mk_rope([subst(s, pairs) for s in v.segs])
    if isinstance(v, SStr):
        return SStr(subst(v.rope, pairs))
    if isinstance(v, Lit):
        return v
    if isinstance(v, Sub):
        return Sub(subst(v.a, pairs), sub_e(v.lo, pairs), sub_e(v.hi, pairs))
    if isinstance(v, Atom):
        if not v.args and isinstance(v.length, int):
            return v
        return Atom(v.name, [sub_e(x, pairs) for x in v.args],
                    sub_e(v.length, pairs))
    if isinstance(v, App):
        return App(v.alg, subst(v.params, pairs),
                   [subst(r, pairs) for r in v.ropes], v.length)
    if isinstance(v, LE):
        return LE(sub_e(v.x, pairs), sub_e(v.n, pairs), v.order)
    if isinstance(v, CS):
        return CS(sub_e(v.x, pairs))
    if isinstance(v, Cat):
        return Cat(v.k, sub_e(v.lo, pairs), sub_e(v.hi, pairs),
                   subst(v.rope, pairs),
                   [z3.substitute(f, *pairs) for f in v.facts])
    if isinstance(v, Rev):
        return Rev(subst(v.seg, pairs))
    if isinstance(v, Hex):
        return Hex(subst(v.rope, pairs))
    if isinstance(v, Cases):
        return Cases([(z3.substitute(c, *pairs), subst(r, pairs))
                      for c, r in v.cs])
    if isinstance(v, ListCases):
        return ListCases([(z3.substitute(c, *pairs), subst(r, pairs))
                          for c, r in v.cs])
    if isinstance(v, LItem):
        return LItem(subst(v.v, pairs))
    if isinstance(v, LMap):
        return LMap(v.k, sub_e(v.lo, pairs), sub_e(v.hi, pairs),
                    subst(v.v, pairs),
                    [z3.substitute(f, *pairs) for f in v.facts])
    if isinstance(v, LFlat):
        return LFlat(v.k, sub_e(v.lo, pairs), sub_e(v.hi, pairs),
                     subst(v.v, pairs),
                     [z3.substitute(f, *pairs) for f in v.facts])
    if isinstance(v, LAcc):
        return v
    if isinstance(v, STup):
        return STup([subst(s, pairs) for s in v.segs])
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, Ref):
        return subst_ref(v, pairs)
    if isinstance(v, ExcVal):
        return v
    if hasattr(v, 'dv_subst'):
        return v.dv_subst(pairs)
    return v


def _changed(a, b):
    return repr(a) != repr(b)


def subst_ref(r, pairs):
    p = P()
    key = ('sref', r.id, tuple((S(a), S(b)) for a, b in pairs))
    c = p.intern.get(key)
    if c is not None and c.id in p.heap and p.intern.get(
            ('srec', r.id)) is p.heap[r.id]:
        return c
    rec = p.heap[r.id]
    if not rec_mentions(r, {a.decl().name() for a, _ in pairs}):
        return r
    new = Ref(p.next_ref)
    p.next_ref += 1
    if isinstance(rec, HObj):
        nrec = HObj(rec.cls, {k: subst(x, pairs)
                              for k, x in rec.attrs.items()})
    elif isinstance(rec, HBA):
        nrec = HBA(subst(rec.rope, pairs))
    elif isinstance(rec, HList):
        nrec = HList([subst(x, pairs) for x in rec.segs])
    elif isinstance(rec, HDict):
        nrec = HDict({k: subst(x, pairs) for k, x in rec.items.items()})
    else:
        raise Unsupported('object %r depends on a loop index' % rec)
    p.heap[new.id] = nrec
    p.intern[('frozen', new.id)] = True
    p.intern[key] = new
    p.intern[('srec', r.id)] = rec
    return new


def val_consts(v, out, seen):
    """names of the free integer constants in a value"""
    if v is None or isinstance(v, (str, bytes, bool, int, float)):
        return
    if isinstance(v, z3.ExprRef):
        for c in free_consts(v):
            out.add(c.decl().name())
        return
    if isinstance(v, (SInt, SBool)):
        val_consts(v.e, out, seen)
    elif isinstance(v, (Rope, STup)):
        for s in v.segs:
            val_consts(s, out, seen)
    elif isinstance(v, (SStr, Hex)):
        val_consts(v.rope, out, seen)
    elif isinstance(v, Sub):
        val_consts(v.a, out, seen)
        val_consts(v.lo, out, seen)
        val_consts(v.hi, out, seen)
    elif isinstance(v, Atom):
        for x in v.args:
            val_consts(x, out, seen)
        val_consts(v.length, out, seen)
    elif isinstance(v, App):
        for r in v.ropes:
            val_consts(r, out, seen)
        val_consts(v.params, out, seen)
    elif isinstance(v, LE):
        val_consts(v.x, out, seen)
        val_consts(v.n, out, seen)
    elif isinstance(v, CS):
        val_consts(v.x, out, seen)
    elif isinstance(v, (Cat, LMap, LFlat)):
        inner = set()
        val_consts(v.rope if isinstance(v, Cat) else v.v, inner, seen)
        for f in v.facts:
            val_consts(f, inner, seen)
        inner.discard(v.k.decl().name())
        out |= inner
        val_consts(v.lo, out, seen)
        val_consts(v.hi, out, seen)
    elif isinstance(v, Rev):
        val_consts(v.seg, out, seen)
    elif isinstance(v, (Cases, ListCases)):
        for c, r in v.cs:
            val_consts(c, out, seen)
            val_consts(r, out, seen)
    elif isinstance(v, LItem):
        val_consts(v.v, out, seen)
    elif isinstance(v, LAcc):
        out.add(v.name)
        val_consts(v.length, out, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            val_consts(x, out, seen)
    elif isinstance(v, Ref):
        if v.id in seen:
            return
        seen.add(v.id)
        rec = P().heap[v.id]
        if isinstance(rec, HObj):
            for x in rec.attrs.values():
                val_consts(x, out, seen)
        elif isinstance(rec, HBA):
            val_consts(rec.rope, out, seen)
        elif isinstance(rec, (HList, HIter)):
            for x in rec.segs:
                val_consts(x, out, seen)
        elif isinstance(rec, HDict):
            for x in rec.items.values():
                val_consts(x, out, seen)
        elif isinstance(rec, HHash):
            val_consts(rec.rope, out, seen)
    elif hasattr(v, 'dv_consts'):
        v.dv_consts(out, seen)


def atoms_in(v):
    """names of accumulator atoms mentioned in a value"""
    out = set()
    _atoms(v, out, set())
    return out


def _atoms(v, out, seen):
    if isinstance(v, Atom):
        out.add(v.name)
        return
    if isinstance(v, (Rope, STup)):
        for s in v.segs:
            _atoms(s, out, seen)
    elif isinstance(v, (SStr, Hex)):
        _atoms(v.rope, out, seen)
    elif isinstance(v, Sub):
        _atoms(v.a, out, seen)
    elif isinstance(v, App):
        for r in v.ropes:
            _atoms(r, out, seen)
    elif isinstance(v, Cat):
        _atoms(v.rope, out, seen)
    elif isinstance(v, (LMap, LFlat)):
        _atoms(v.v, out, seen)
    elif isinstance(v, Rev):
        _atoms(v.seg, out, seen)
    elif isinstance(v, (Cases, ListCases)):
        for c, r in v.cs:
            _atoms(r, out, seen)
    elif isinstance(v, LItem):
        _atoms(v.v, out, seen)
    elif isinstance(v, LAcc):
        out.add(v.name)
    elif isinstance(v, (tuple, list)):
        for x in v:
            _atoms(x, out, seen)
    elif isinstance(v, Ref):
        if v.id in seen:
            return
        seen.add(v.id)
        rec = P().heap[v.id]
        if isinstance(rec, HObj):
            for x in rec.attrs.values():
                _atoms(x, out, seen)
        elif isinstance(rec, HBA):
            _atoms(rec.rope, out, seen)
        elif isinstance(rec, (HList, HIter)):
            for x in rec.segs:
                _atoms(x, out, seen)
        elif isinstance(rec, HHash):
            _atoms(rec.rope, out, seen)


def rec_mentions(ref, names):
    out = set()
    val_consts(ref, out, set())
    return bool(out & names)


def value_mentions(v, names):
    out = set()
    val_consts(v, out, set())
    if out & names:
        return True
    return bool(atoms_in(v) & names)


# ------------------------------------------------------------- splitting

def unfold_cs(x):
    """rope for CompactSize(x), forking on the size class"""
    if isinstance(x, int):
        return lit(cs_bytes(x))
    p = P()
    if p.branch(x < 0xfd):
        return Rope((LE(x, 1),))
    if p.branch(x <= 0xffff):
        return Rope((Lit(b'\xfd'), LE(x, 2)))
    if p.branch(x <= 0xffffffff):
        return Rope((Lit(b'\xfe'), LE(x, 4)))
    return Rope((Lit(b'\xff'), LE(x, 8)))


def cut(segs, pos):
    """split a segment list at byte position pos -> (left, right).

    pos is known to satisfy 0 <= pos <= len.  May fork.
    """
    p = P()
    left = []
    segs = list(segs)
    guard = 0
    while True:
        guard += 1
        if guard > 60:
            raise Unsupported('cannot locate slice position %s in %r' % (
                S(pos)[:300], segs[0]))
        pos = simp(pos)
        if isinstance(pos, int) and pos == 0:
            return left, segs
        if not segs:
            # pos must be 0 here
            return left, segs
        if not isinstance(pos, int) and p.provable(pos == 0):
            return left, segs
        s = segs[0]
        n = seg_len(s)
        if isinstance(n, int) and isinstance(pos, int):
            if n <= pos:
                left.append(s)
                segs.pop(0)
                pos -= n
                continue
        elif p.provable(zi(pos) >= zi(n)):
            left.append(s)
            segs.pop(0)
            pos = simp(zsub(pos, n))
            continue
        # the cut may be inside s
        if isinstance(s, CS):
            segs[0:1] = list(unfold_cs(s.x).segs)
            continue
        if isinstance(s, Cases):
            segs[0:1] = list(pick_case(s).segs)
            continue
        if isinstance(s, Cat):
            m = find_cut(s, pos)
            if m is not None:
                left.append(Cat(s.k, s.lo, m, s.rope, s.facts))
                segs[0] = Cat(s.k, m, s.hi, s.rope, s.facts)
                return left, segs
            m = find_elem(s, pos)
            if m is not None:
                t = sum_term(s.k, s.lo, m, rope_len(s.rope))
                left.append(Cat(s.k, s.lo, m, s.rope, s.facts))
                segs[0:1] = list(inst_cat(s, m).segs) + [
                    Cat(s.k, simp(m + 1), s.hi, s.rope, s.facts)]
                pos = simp(zsub(pos, t))
                continue
            if p.branch(zi(s.lo) < zi(s.hi)):
                first = inst_cat(s, s.lo)
                sum_first(s.k, s.lo, s.hi, rope_len(s.rope))
                segs[0:1] = list(first.segs) + [
                    Cat(s.k, simp(zadd(s.lo, 1)), s.hi, s.rope, s.facts)]
            else:
                segs.pop(0)
            continue
        if not p.branch(zi(pos) < zi(n)):
            left.append(s)
            segs.pop(0)
            pos = simp(zsub(pos, n))
            continue
        a, b = split_segs(s, pos)
        left += a
        segs[0:1] = b
        return left, segs


def find_cut(c, pos):
    """index m with catlen(lo,m) == pos, from the known loop indices"""
    p = P()
    e = rope_len(c.rope)
    if isinstance(e, int) and e:
        if isinstance(pos, int):
            if pos % e == 0:
                m = simp(zadd(c.lo, pos // e))
                if p.provable(z3.And(zi(c.lo) <= zi(m), zi(m) <= zi(c.hi))):
                    return m
            return None
    done = []
    for m in cut_cands(pos):
        if any(m.eq(x) for x in done):
            continue
        done.append(m)
        if not p.provable(z3.And(zi(c.lo) <= m, m <= zi(c.hi))):
            continue
        sum_split(c.k, c.lo, m, c.hi, e)
        t = sum_term(c.k, c.lo, m, e)
        if p.provable(zi(t) == zi(pos)):
            return m
    return None


def find_elem(c, pos):
    """index m of the element in which pos lies, if it is a known one"""
    p = P()
    e = rope_len(c.rope)
    if isinstance(pos, int) or isinstance(e, int):
        return None
    done = []
    for m in cut_cands(pos):
        if any(m.eq(x) for x in done):
            continue
        done.append(m)
        if not p.provable(z3.And(zi(c.lo) <= m, m < zi(c.hi))):
            continue
        sum_last(c.k, c.lo, m, e)
        t = sum_term(c.k, c.lo, m, e)
        u = sum_term(c.k, c.lo, simp(m + 1), e)
        if p.provable(z3.And(zi(t) <= zi(pos), zi(pos) < zi(u))):
            return m
    return None


def cut_cands(pos):
    """the known indices, and those that occur in the position"""
    p = P()
    cands = []
    for k in p.binders:
        cands.append(k)
        cands.append(k + 1)
    for k in p.known_cuts.values():
        cands.append(k)
        cands.append(k + 1)
    if not isinstance(pos, int):
        # positions of the form base + Sum(lo, m, ..): m is a candidate
        for t in _sum_apps(pos):
            cands.append(t.arg(1))
        for t in free_consts(pos):
            if t.sort() == z3.IntSort():
                cands.append(t)
    return cands


def _sum_apps(e):
    out = []
    stack = [e]
    seen = set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name().startswith('Sum!'):
            out.append(t)
        stack.extend(t.children())
    return out


def pick_case(s):
    p = P()
    for c, r in s.cs[:-1]:
        if p.branch(c):
            return r
    p_c = s.cs[-1][0]
    p.assume_expr(p_c) if not isinstance(p_c, bool) else None
    return s.cs[-1][1]


def split_seg(s, pos):
    """split at 0 < pos < len(s)"""
    if isinstance(s, Lit):
        if not isinstance(pos, int):
            pos = concretize(pos, 0, len(s.b))
        return Lit(s.b[:pos]), Lit(s.b[pos:])
    if isinstance(s, Sub):
        m = simp(zadd(s.lo, pos))
        return Sub(s.a, s.lo, m), Sub(s.a, m, s.hi)
    if isinstance(s, LE) and isinstance(s.n, int):
        if not isinstance(pos, int):
            pos = concretize(pos, 0, s.n)
        x = s.x
        if s.order == 'little':
            return (LE(simp(x % (256 ** pos)), pos),
                    LE(simp(x / (256 ** pos)), s.n - pos))
        m = 256 ** (s.n - pos)
        return (LE(simp(x / m), pos, 'big'),
                LE(simp(x % m), s.n - pos, 'big'))
    if isinstance(s, Rev):
        n = seg_len(s.seg)
        a, b = split_seg(s.seg, simp(zsub(n, pos)))
        return Rev(b), Rev(a)
    raise Unsupported('split inside %r' % (s,))


def split_segs(s, pos):
    """split at 0 < pos < len(s), into lists"""
    if not isinstance(s, Hex):
        a, b = split_seg(s, pos)
        return [a], [b]
    l, r = cut(s.rope.segs, simp(zi(pos) / 2))
    if P().branch(zi(pos) % 2 == 0):
        return [Hex(mk_rope(l))], [Hex(mk_rope(r))]
    x, r = cut(r, 1)
    x = zi(ie(rope_index(mk_rope(x), 0)))
    return ([Hex(mk_rope(l))] if l else []) + [hex_digit(x / 16)], [
        hex_digit(x % 16)] + ([Hex(mk_rope(r))] if r else [])


def hex_digit(d):
    """the character of a digit"""
    return byte_seg(simp(z3.If(d < 10, 48 + d, 87 + d)))


def concretize(e, lo, hi):
    """fork on the concrete value of a small-range expression"""
    p = P()
    for v in range(lo, hi):
        if p.branch(e == v):
            return v
    p.assume_expr(e == hi)
    return hi


def norm_index(v, n, default):
    """Python slice bound -> position in 0..n (forks)"""
    p = P()
    if v is None:
        return default
    e = ie(v)
    if isinstance(e, int) and isinstance(n, int):
        if e < 0:
            e = max(n + e, 0)
        return min(e, n)
    if isinstance(e, int):
        if e < 0:
            if p.branch(zi(n) + e < 0):
                return 0
            return simp(zi(n) + e)
        if e == 0:
            return 0
        if p.branch(zi(n) < e):
            return n
        return e
    if p.branch(e < 0):
        e2 = simp(e + n)
        if p.branch(zi(e2) < 0):
            return 0
        return e2
    if p.branch(e > zi(n)):
        return n
    return e


def slice_segs(segs, a, b, total):
    """segs[a:b] for normalised 0<=a,b<=total"""
    p = P()
    if isinstance(a, int) and isinstance(b, int):
        if a >= b:
            return []
    elif same(a, b):
        return []
    elif not p.provable(zi(a) <= zi(b)) and not p.branch(zi(a) < zi(b)):
        return []
    if same(b, total):
        left = list(segs)
    else:
        left, _ = cut(segs, b)
    if isinstance(a, int) and a == 0:
        return left
    _, r = cut(left, a)
    return r


def rope_slice(r, a, b, step=None):
    if step is not None and ie(step) == -1 and a is None and b is None:
        return rope_rev(r)
    if step is not None and ie(step) != 1:
        bs = rope_bytes(r)
        if bs is None:
            raise Unsupported('slice step')
        idx = range(len(bs))[slice(a, b, step)]
        return mk_rope([byte_seg(bs[i]) for i in idx])
    n = rope_len(r)
    a = norm_index(a, n, 0)
    b = norm_index(b, n, n)
    return mk_rope(slice_segs(r.segs, a, b, n))


def byte_seg(e):
    if isinstance(e, int):
        return Lit(bytes([e]))
    return LE(e, 1)


def rope_rev(r):
    out = []
    for s in reversed(r.segs):
        if isinstance(s, Lit):
            out.append(Lit(s.b[::-1]))
        elif isinstance(s, LE):
            out.append(LE(s.x, s.n,
                          'big' if s.order == 'little' else 'little'))
        elif isinstance(s, Rev):
            out.append(s.seg)
        elif isinstance(s, Sub):
            out.append(Rev(s))
        elif isinstance(s, CS):
            out.extend(rope_rev(unfold_cs(s.x)).segs)
        elif isinstance(s, Cat) and not value_mentions(
                (s.rope, tuple(s.facts)), {s.k.decl().name()}):
            out.append(Cat(s.k, s.lo, s.hi, rope_rev(s.rope), s.facts))
        else:
            out.append(Rev(s))
    return mk_rope(out)


def head_facts(r):
    """the first nonempty segment; a repetition in its place is known to be
    at least as long as its first instance"""
    p = P()
    for s in r.segs:
        n = seg_len(s)
        if n == 0 or not isinstance(n, int) and p.provable(n == 0):
            continue
        if isinstance(s, Cat):
            if not p.provable(zi(s.lo) < zi(s.hi)):
                return s
            sum_first(s.k, s.lo, s.hi, rope_len(s.rope))
            return head_facts(inst_cat(s, s.lo))
        return s
    return None


def expose_head(r):
    """segments with a repetition at the front unrolled once"""
    p = P()
    segs = list(r.segs)
    while segs:
        s = segs[0]
        n = seg_len(s)
        if n == 0 or not isinstance(n, int) and p.provable(n == 0):
            segs.pop(0)
            continue
        if isinstance(s, Cat) and p.provable(zi(s.lo) < zi(s.hi)):
            segs[0:1] = list(inst_cat(s, s.lo).segs) + [
                Cat(s.k, simp(zadd(s.lo, 1)), s.hi, s.rope, s.facts)]
            continue
        break
    return segs


def rope_index(r, i):
    """byte at index i; returns python int or SInt; None when out of range"""
    p = P()
    n = rope_len(r)
    e = ie(i)
    if isinstance(e, int) and isinstance(n, int):
        if e < 0:
            e += n
        if not 0 <= e < n:
            return None
    else:
        if isinstance(e, int):
            if e < 0:
                if p.branch(zi(n) + e < 0):
                    return None
                e = simp(zi(n) + e)
            elif not p.provable(zi(n) > e):
                head_facts(r)
                if not p.branch(zi(n) > e):
                    return None
        else:
            if p.branch(e < 0):
                e = simp(e + n)
                if p.branch(zi(e) < 0):
                    return None
            elif not p.branch(e < zi(n)):
                return None
    segs = r.segs
    if len(segs) == 1 and isinstance(segs[0], (Lit, Sub)):
        return mk_int(seg_byte(segs[0], e))
    _, right = cut(segs, e)
    right = list(right)
    while right:
        s = right[0]
        if isinstance(s, CS):
            right[0:1] = list(unfold_cs(s.x).segs)
            continue
        if isinstance(s, Cases):
            right[0:1] = list(pick_case(s).segs)
            continue
        if isinstance(s, Cat):
            if p.branch(zi(s.lo) < zi(s.hi)):
                first = inst_cat(s, s.lo)
                sum_first(s.k, s.lo, s.hi, rope_len(s.rope))
                right[0:1] = list(first.segs) + [
                    Cat(s.k, simp(zadd(s.lo, 1)), s.hi, s.rope, s.facts)]
            else:
                right.pop(0)
            continue
        sn = seg_len(s)
        if not isinstance(sn, int) and not p.branch(zi(sn) > 0):
            right.pop(0)
            continue
        if isinstance(s, Hex):
            x = zi(ie(rope_index(s.rope, 0)))
            return mk_int(hex_digit(x / 16).x)
        return mk_int(seg_byte(s, 0))
    raise Infeasible()


# ---------------------------------------------------------------- equality

def req(r1, r2):
    """prove that two ropes are equal (False: not proven)"""
    if r1 is r2:
        return True
    p = P()
    if _req(list(norm(r1.segs)), list(norm(r2.segs)), 0):
        return True
    for a, b in p.rope_eqs:
        for x, y in ((a, b), (b, a)):
            m1 = replace_segs(r1, x, y)
            if m1 is not None and _req(list(m1.segs), list(r2.segs), 0):
                return True
            m2 = replace_segs(r2, x, y)
            if m2 is not None and _req(list(r1.segs), list(m2.segs), 0):
                return True
    return False


def replace_segs(r, x, y):
    n = len(x.segs)
    if n == 0:
        return None
    for i in range(len(r.segs) - n + 1):
        if all(seg_same(r.segs[i + j], x.segs[j]) for j in range(n)):
            return mk_rope(r.segs[:i] + y.segs + r.segs[i + n:])
    return None


def seg_same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


class scope:
    """temporary assumptions for a proof step"""

    def __init__(self, *es):
        self.es = es

    def __enter__(self):
        p = P()
        self.n = len(p.pc)
        self.fd = set(p.facts_done)
        self.cache = dict(p.cache)
        p.solver.push()
        p.nofork += 1
        for e in self.es:
            p.pc.append(e if not isinstance(e, bool) else z3.BoolVal(e))
            p.solver.add(e)
        return self

    def __exit__(self, *a):
        p = P()
        p.nofork -= 1
        p.solver.pop()
        del p.pc[self.n:]
        p.facts_done = self.fd
        p.cache = self.cache
        return False


def _req(s1, s2, depth):
    p = P()
    if depth > 40:
        return False
    s1, s2 = list(s1), list(s2)
    steps = 0
    while True:
        steps += 1
        if steps > 3000:
            return False
        while s1 and same(seg_len0(s1[0]), 0):
            s1.pop(0)
        while s2 and same(seg_len0(s2[0]), 0):
            s2.pop(0)
        if not s1 or not s2:
            rest = s1 or s2
            return all(p.provable(zi(seg_len(s)) == 0) for s in rest)
        a, b = s1[0], s2[0]
        if seg_same(a, b):
            s1.pop(0)
            s2.pop(0)
            continue
        if isinstance(a, Lit) and isinstance(b, Lit):
            n = min(len(a.b), len(b.b))
            if a.b[:n] != b.b[:n]:
                return False
            s1[0:1] = [Lit(a.b[n:])] if len(a.b) > n else []
            s2[0:1] = [Lit(b.b[n:])] if len(b.b) > n else []
            continue
        # Cases: prove under each case
        if isinstance(a, Cases) or isinstance(b, Cases):
            c, first = (a, True) if isinstance(a, Cases) else (b, False)
            for cond, r in c.cs:
                with scope(cond):
                    if p.check() == z3.unsat:
                        continue
                    t1 = (list(r.segs) + s1[1:]) if first else s1
                    t2 = s2 if first else (list(r.segs) + s2[1:])
                    if not _req(norm(t1), norm(t2), depth + 1):
                        return False
            return True
        la, lb = seg_len(a), seg_len(b)
        if isinstance(a, CS) and isinstance(b, CS):
            if p.provable(zi(a.x) == zi(b.x)):
                s1.pop(0)
                s2.pop(0)
                continue
            return False
        if isinstance(a, Cat) and isinstance(b, Cat):
            r = cat_cat(a, b)
            if r is not None:
                ra, rb = r
                s1[0:1] = ra
                s2[0:1] = rb
                continue
            return False
        if isinstance(a, Cat) or isinstance(b, Cat):
            c, sl = (a, s1) if isinstance(a, Cat) else (b, s2)
            if p.provable(zi(c.lo) >= zi(c.hi)):
                sl.pop(0)
                continue
            if p.provable(zi(c.lo) < zi(c.hi)):
                with_first(c, sl)
                continue
            # unknown emptiness: case split
            with scope(zi(c.lo) >= zi(c.hi)):
                sl2 = sl[1:]
                ok = _req(sl2 if sl is s1 else s1,
                          sl2 if sl is s2 else s2, depth + 1)
            if not ok:
                return False
            with scope(zi(c.lo) < zi(c.hi)):
                sl2 = list(sl)
                with_first(c, sl2)
                return _req(sl2 if sl is s1 else s1,
                            sl2 if sl is s2 else s2, depth + 1)
        if isinstance(a, CS) or isinstance(b, CS):
            c = a if isinstance(a, CS) else b
            x = zi(c.x)
            alts = [(z3.And(x >= 0, x < 0xfd), [LE(x, 1)]),
                    (z3.And(x >= 0xfd, x <= 0xffff), [Lit(b'\xfd'),
                                                      LE(x, 2)]),
                    (z3.And(x > 0xffff, x <= 0xffffffff),
                     [Lit(b'\xfe'), LE(x, 4)]),
                    (z3.And(x > 0xffffffff, x < 2 ** 64),
                     [Lit(b'\xff'), LE(x, 8)])]
            if not p.provable(z3.And(x >= 0, x < 2 ** 64)):
                return False
            for cond, segs in alts:
                with scope(cond):
                    if p.check() == z3.unsat:
                        continue
                    t1 = (segs + s1[1:]) if c is a else s1
                    t2 = (segs + s2[1:]) if c is b else s2
                    if not _req(norm(t1), norm(t2), depth + 1):
                        return False
            return True
        if isinstance(a, Hex) and isinstance(b, Hex):
            if len(s1) == 1 and len(s2) == 1:
                return _req(list(a.rope.segs), list(b.rope.segs), depth + 1)
            if p.provable(zi(la) == zi(lb)):
                if not _req(list(a.rope.segs), list(b.rope.segs), depth + 1):
                    return False
                s1.pop(0)
                s2.pop(0)
                continue
        # equal length segments
        eq = (la == lb) if isinstance(la, int) and isinstance(lb, int) \
            else p.provable(zi(la) == zi(lb))
        if eq:
            if isinstance(la, int) != isinstance(lb, int):
                a, b = const_sub(a, lb), const_sub(b, la)
            if seg_eq(a, b):
                s1.pop(0)
                s2.pop(0)
                continue
            return False
        if isinstance(la, int) and isinstance(lb, int):
            if la < lb:
                if not try_split(s2, la):
                    return False
            else:
                if not try_split(s1, lb):
                    return False
            continue
        for q, l in ((s1, la), (s2, lb)):
            if not isinstance(l, int) and isinstance(q[0], Sub):
                v = forced_value(l)
                if v is not None:
                    q[0:1] = [const_sub(q[0], v)] if v else []
                    break
        else:
            v = None
        if v is not None:
            continue
        if p.provable(zi(la) <= zi(lb)):
            if p.provable(zi(la) == 0):
                s1.pop(0)
                continue
            if not try_split(s2, la):
                return False
            continue
        if p.provable(zi(lb) <= zi(la)):
            if p.provable(zi(lb) == 0):
                s2.pop(0)
                continue
            if not try_split(s1, lb):
                return False
            continue
        return False


def const_sub(s, n):
    """a Sub whose length is provably the constant n"""
    if isinstance(s, Sub) and isinstance(n, int):
        return Sub(s.a, s.lo, simp(zadd(s.lo, n)))
    return s


def seg_len0(s):
    if isinstance(s, (Lit, Sub, LE)):
        return seg_len(s)
    return 1


def with_first(c, sl):
    first = inst_cat(c, c.lo)
    sum_first(c.k, c.lo, c.hi, rope_len(c.rope))
    sl[0:1] = list(first.segs) + norm([
        Cat(c.k, simp(zadd(c.lo, 1)), c.hi, c.rope, c.facts)])


def try_split(sl, n):
    s = sl[0]
    if isinstance(s, (Sub, Rev)) or (
            isinstance(s, (Lit, LE)) and isinstance(n, int)):
        try:
            a, b = split_seg(s, n)
        except Unsupported:
            return False
        sl[0:1] = [a, b]
        return True
    return False


def cat_cat(a, b):
    """match two Cats; returns the unmatched remainders or None"""
    p = P()

    def tmpl_eq(off):
        """rope_a(j) == rope_b(j + off) for all j in the common range"""
        j = p.fresh_int('j')
        with scope(zi(a.lo) <= j, j < zi(a.hi),
                   zi(b.lo) <= j + off, j + off < zi(b.hi)):
            p.binders.append(j)
            try:
                if p.check() == z3.unsat:
                    return True
                return req(inst_cat(a, j), inst_cat(b, simp(j + off)))
            finally:
                p.binders.pop()
    off = simp(zsub(zi(b.lo), zi(a.lo)))
    na, nb = zsub(zi(a.hi), zi(a.lo)), zsub(zi(b.hi), zi(b.lo))
    if p.provable(na == nb):
        if tmpl_eq(off):
            return [], []
        # same number of elements, shifted bodies
        return None
    if p.provable(z3.And(na >= 0, na <= nb)):
        if tmpl_eq(off):
            m = simp(zi(a.hi) + off)
            return [], norm([Cat(b.k, m, b.hi, b.rope, b.facts)])
    if p.provable(z3.And(nb >= 0, nb <= na)):
        if tmpl_eq(off):
            m = simp(zi(b.hi) - off)
            return norm([Cat(a.k, m, a.hi, a.rope, a.facts)]), []
    return None


def seg_eq(a, b):
    """prove equality of two equal-length segments"""
    p = P()
    if isinstance(a, Sub) and isinstance(b, Sub):
        if atom_eq(a.a, b.a) and (same(a.lo, b.lo) or p.provable(
                zi(a.lo) == zi(b.lo))):
            return True
    if isinstance(a, LE) and isinstance(b, LE) and a.order == b.order:
        if same(a.x, b.x) or p.provable(zi(a.x) == zi(b.x)):
            return True
    if isinstance(a, Rev) and isinstance(b, Rev):
        if seg_eq(a.seg, b.seg):
            return True
    ba, bb = seg_bytes(a), None
    if ba is not None:
        bb = seg_bytes(b)
    if ba is not None and bb is not None and len(ba) == len(bb):
        return p.provable(z3.And([zi(x) == zi(y) for x, y in zip(ba, bb)]))
    return False


def rope_eq_cond(r1, r2):
    """equality as a python bool or z3 expr usable for branching"""
    p = P()
    c1, c2 = as_concrete(r1), as_concrete(r2)
    if c1 is not None and c2 is not None:
        return c1 == c2
    n1, n2 = rope_len(r1), rope_len(r2)
    if isinstance(n1, int) and isinstance(n2, int):
        if n1 != n2:
            return False
    elif not p.branch(zi(n1) == zi(n2)):
        return False
    if isinstance(n1, int) and n1 == 0 or isinstance(n2, int) and n2 == 0:
        return True
    if all_same(r1, r2):
        return True
    n = n1 if isinstance(n1, int) else n2 if isinstance(n2, int) else None
    if n is not None and n <= MAXEXPAND:
        b1 = fixed_bytes(r1, n)
        b2 = fixed_bytes(r2, n)
        if b1 is not None and b2 is not None:
            return z3.And([zi(x) == zi(y) for x, y in zip(b1, b2)])
    if req(r1, r2):
        return True
    x, y = sorted((r1, r2), key=repr)
    f, cs = shape_fn('req', (x, y), z3.BoolSort())
    b = f(*cs) if cs else z3.Bool(f.name())
    if p.branch(b):
        p.rope_eqs.append((r1, r2))
        return True
    return False


def all_same(r1, r2):
    return len(r1.segs) == len(r2.segs) and all(
        seg_same(x, y) for x, y in zip(r1.segs, r2.segs))


def fixed_bytes(r, n):
    """bytes of a rope whose length is known to be n on this path"""
    b = rope_bytes(r)
    if b is not None:
        return b if len(b) == n else None
    if len(r.segs) == 1 and isinstance(r.segs[0], Sub):
        return [seg_byte(r.segs[0], i) for i in range(n)]
    out = []
    for i in range(n):
        v = rope_index(r, i)
        if v is None:
            raise Infeasible()
        out.append(ie(v))
    return out


def rope_to_int(r, order, signed=False):
    """int.from_bytes"""
    p = P()
    c = as_concrete(r)
    if c is not None:
        return int.from_bytes(c, order, signed=signed)
    if len(r.segs) == 1 and isinstance(r.segs[0], LE) and not signed:
        s = r.segs[0]
        if s.order == order:
            return mk_int(s.x)
    n = forced_len(r)
    if n is None and len(r.segs) == 1 and isinstance(r.segs[0], LE) \
            and r.segs[0].order == order and signed:
        raise Unsupported('signed conversion of unknown width')
    if n is None:
        return int_app('int_' + order + ('_s' if signed else ''), r)
    if n > 64:
        return int_app('int_' + order + ('_s' if signed else ''), r)
    bs = fixed_bytes(r, n)
    if order == 'big':
        bs = bs[::-1]
    e = 0
    for i, x in enumerate(bs):
        e = zadd(e, x * (256 ** i) if i else x)
    e = simp(e)
    if not isinstance(e, int) and n > 1:
        LIMBS[e.get_id()] = (e, list(bs))
        if not signed and len(r.segs) == 1 and isinstance(r.segs[0], Sub):
            p.intern[('int_of', e.get_id())] = (e, r, n, order)
    if signed:
        e = simp(z3.If(zi(bs[-1]) >= 128, zi(e) - 256 ** n, zi(e)))
    return mk_int(e)


def int_app(name, r):
    p = P()
    for k, v in list(p.intern.items()):
        if k[0] == ('iapp', name) and v[0] is not r and req(v[0], r):
            return SInt(v[1])
    f, cs = shape_fn(name, r, z3.IntSort())
    t = f(*cs) if cs else z3.Int(f.name())
    if not name.endswith('_s'):
        RANGE[f.name()] = lambda t: [t >= 0]
        if not cs:
            p.assume_expr(t >= 0)
        else:
            add_range_facts(t)
    p.intern[(('iapp', name), repr(r))] = (r, t)
    return SInt(t)


# ---------------------------------------------------------------- lists

def lseg_len(s):
    if isinstance(s, LItem):
        return 1
    if isinstance(s, LMap):
        return simp(zsub(s.hi, s.lo))
    if isinstance(s, LFlat):
        return s.total(lambda x: 1)
    if isinstance(s, LAcc):
        return s.length
    raise Unsupported('length of %r' % (s,))


def list_len(segs):
    n = 0
    for s in segs:
        n = zadd(n, lseg_len(s))
    return simp(n)


def inst_map(s, j, pick=True):
    pairs = [(s.k, zi(j))]
    p = P()
    for f in s.facts:
        g = z3.substitute(f, *pairs)
        add_range_facts(g)
        p.assume_expr(z3.Implies(
            z3.And(zi(s.lo) <= zi(j), zi(j) < zi(s.hi)), g))
    v = s.v
    while pick and isinstance(v, ListCases):
        for c, x in v.cs[:-1]:
            if p.branch(z3.substitute(c, *pairs)):
                v = x
                break
        else:
            c, v = v.cs[-1]
            if not isinstance(c, bool):
                p.assume_expr(z3.substitute(c, *pairs))
    return subst(v, pairs)


def pick_lcase(v):
    p = P()
    for c, x in v.cs[:-1]:
        if p.branch(c):
            return x
    c = v.cs[-1][0]
    if not isinstance(c, bool):
        p.assume_expr(c)
    return v.cs[-1][1]


def lnorm(segs):
    out = []
    for s in segs:
        if isinstance(s, LMap):
            if same(s.lo, s.hi):
                continue
            if isinstance(s.lo, int) and isinstance(s.hi, int):
                if s.hi <= s.lo:
                    continue
                if s.hi - s.lo <= 1:
                    out.append(LItem(inst_map(s, s.lo)))
                    continue
            if out and isinstance(out[-1], LMap) and out[-1].v is s.v \
                    and same(out[-1].hi, s.lo):
                out[-1] = LMap(s.k, out[-1].lo, s.hi, s.v, s.facts)
                continue
        out.append(s)
    return out


def lcut(segs, pos):
    p = P()
    left = []
    segs = list(segs)
    while True:
        pos = simp(pos)
        if isinstance(pos, int) and pos == 0 or not segs:
            return left, segs
        if not isinstance(pos, int) and p.provable(pos == 0):
            return left, segs
        s = segs[0]
        n = lseg_len(s)
        if isinstance(n, int) and isinstance(pos, int):
            past = n <= pos
        else:
            past = p.branch(zi(pos) >= zi(n))
        if past:
            left.append(s)
            segs.pop(0)
            pos = simp(zsub(pos, n))
            continue
        if isinstance(s, LItem):
            # pos < 1, pos >= 0, pos != 0 : impossible
            p.assume_expr(zi(pos) == 0)
            return left, segs
        if isinstance(s, LMap):
            m = simp(zadd(s.lo, pos))
            left.append(LMap(s.k, s.lo, m, s.v, s.facts))
            segs[0] = LMap(s.k, m, s.hi, s.v, s.facts)
            return left, segs
        raise Unsupported('cut inside %r' % (s,))


def list_slice(segs, a, b, step=None):
    n = list_len(segs)
    if step is not None and ie(step) != 1:
        if ie(step) == -1 and a is None and b is None:
            return list_rev(segs)
        if all(isinstance(s, LItem) for s in segs):
            return tuple(segs)[slice(a, b, step)]
        raise Unsupported('list slice step')
    p = P()
    a = norm_index(a, n, 0)
    b = norm_index(b, n, n)
    if isinstance(a, int) and isinstance(b, int):
        if a >= b:
            return ()
    elif same(a, b) or not p.branch(zi(a) < zi(b)):
        return ()
    left = list(segs) if same(b, n) else lcut(segs, b)[0]
    if isinstance(a, int) and a == 0:
        return tuple(left)
    return tuple(lcut(left, a)[1])


def list_rev(segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, LItem):
            out.append(s)
        elif isinstance(s, LMap):
            k = P().fresh_int('rk')
            v = subst(s.v, [(s.k, simp(zi(s.hi) - 1 - k + zi(s.lo)))])
            out.append(LMap(k, s.lo, s.hi, v))
        else:
            raise Unsupported('reverse')
    return tuple(out)


def list_locate(segs, i):
    """position of index i -> (left, value, right) or None if out of range"""
    p = P()
    n = list_len(segs)
    e = ie(i)
    if isinstance(e, int) and isinstance(n, int):
        if e < 0:
            e += n
        if not 0 <= e < n:
            return None
    elif isinstance(e, int):
        if e < 0:
            if p.branch(zi(n) + e < 0):
                return None
            e = simp(zi(n) + e)
        elif not p.branch(zi(n) > e):
            return None
    else:
        if p.branch(e < 0):
            e = simp(e + n)
            if p.branch(zi(e) < 0):
                return None
        elif not p.branch(e < zi(n)):
            return None
    left, right = lcut(segs, e)
    while right:
        s = right[0]
        if isinstance(s, LItem):
            return left, s.v, right[1:]
        if isinstance(s, LMap):
            if not p.branch(zi(s.lo) < zi(s.hi)):
                right = right[1:]
                continue
            v = inst_map(s, s.lo)
            return left, v, lnorm([LMap(s.k, simp(zadd(s.lo, 1)), s.hi,
                                        s.v, s.facts)]) + list(right[1:])
        raise Unsupported('index into %r' % (s,))
    raise Infeasible()
