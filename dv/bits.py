"""Bit-level values: every bit is an affine form over GF(2).

A form is a Python integer: bit 0 is the constant 1, the others are atoms (a
bit of an integer term, or a bit of a drawn character).  Linear codes such as
the Bech32 checksum are decided exactly here; a path carries the equations
that its decisions imposed on the atoms.
"""
import ast

import z3

from dv.core import (
    P, SInt, SBool, Ref, HList, ExcVal, PyRaise, Unsupported, Infeasible,
    mk_int, mk_bool, ie, zi)
from dv import ropes as R
from dv import strs
from dv.ropes import Rope, SStr, LItem

ATOMS = {}            # key -> form
ATOM_KEYS = {}        # position -> key
KEEP = []             # terms of keys stay alive
WIDTH_TERMS = {}      # id of a term -> term
BACK = {}             # forms -> z3 constant
FORMS = {}            # id of that constant -> forms


def atom(key, keep=None):
    f = ATOMS.get(key)
    if f is None:
        i = len(ATOMS) + 1
        f = ATOMS[key] = 1 << i
        ATOM_KEYS[i] = (key, keep)
        if keep is not None:
            KEEP.append(keep)
    return f


# ------------------------------------------------------------- equations

def reduce(f):
    for piv, row in P().intern.get('gf', ()):
        if f & piv:
            f ^= row
    return f


def reduce_all(fs):
    rows = P().intern.get('gf', ())
    if not rows:
        return tuple(fs)
    out = []
    for f in fs:
        for piv, row in rows:
            if f & piv:
                f ^= row
        out.append(f)
    return tuple(out)


def impose(f):
    """f = 0"""
    f = reduce(f)
    if f == 0:
        return
    if f == 1:
        raise Infeasible()
    piv = 1 << (f.bit_length() - 1)
    p = P()
    p.intern['gf'] = p.intern.get('gf', ()) + ((piv, f),)


def decide(f):
    """is the bit set? (may fork)"""
    f = reduce(f)
    if f in (0, 1):
        return bool(f)
    if P().nofork:
        raise Unsupported('undecided bit inside a proof step')
    if P().choose(2) == 0:
        impose(f ^ 1)
        return True
    impose(f)
    return False


def all_zero(fs):
    """are all the bits clear? (may fork)"""
    fs = sorted(set(f for f in reduce_all(fs) if f))
    if not fs:
        return True
    if 1 in fs:
        return False
    if len(fs) == 1:
        return not decide(fs[0])
    p = P()
    # a constant combination?
    key = basis(fs)
    if key is None:
        return False
    for k in p.intern.get('gfne', ()):
        if basis([reduce(f) for f in k]) == key:
            return False
    if p.nofork:
        raise Unsupported('undecided bits inside a proof step')
    if p.choose(2) == 0:
        for f in fs:
            impose(f)
        return True
    p.intern['gfne'] = p.intern.get('gfne', ()) + (key,)
    return False


def basis(fs):
    """reduced echelon basis; None when it contains the constant 1"""
    rows = []
    for f in fs:
        for piv, r in rows:
            if f & piv:
                f ^= r
        if f == 1:
            return None
        if f:
            piv = 1 << (f.bit_length() - 1)
            rows = [(q, r ^ f if r & piv else r) for q, r in rows]
            rows.append((piv, f))
    return tuple(sorted(r for _, r in rows))


# --------------------------------------------------------------- integers

def width_of(it, e):
    """k such that 0 <= e < 2**k is known"""
    p = P()
    for k in (1, 5, 7, 8, 16, 32, 64):
        if p.provable(z3.And(e >= 0, e < 2 ** k)):
            return k
    return None


def of_term(it, e):
    """bits of an integer term"""
    f = FORMS.get(e.get_id())
    if f is not None and z3.eq(f[0], e):
        return mk(f[1])
    p = P()
    k = p.intern.get(('width', e.get_id()))
    if k is None:
        k = width_of(it, e)
    if k is None:
        return None
    p.intern[('width', e.get_id())] = k
    WIDTH_TERMS[e.get_id()] = e
    return mk(tuple(atom((e.get_id(), i), e) for i in range(k)), raw=True)


def to_bits(it, v):
    """value -> tuple of forms, or None"""
    if isinstance(v, Bits):
        return v.fs
    if isinstance(v, WordSum):
        return to_bits(it, v.whole())
    if isinstance(v, bool):
        return (1,) if v else ()
    if isinstance(v, int):
        if v < 0:
            return None
        return tuple(v >> i & 1 for i in range(v.bit_length()))
    if isinstance(v, SInt):
        b = of_term(it, v.e)
        return to_bits(it, b) if b is not None else None
    return None


def mk(fs, raw=False):
    """forms -> value"""
    fs = list(fs) if raw else list(reduce_all(fs))
    while fs and fs[-1] == 0:
        fs.pop()
    if all(f in (0, 1) for f in fs):
        return sum(f << i for i, f in enumerate(fs))
    return Bits(tuple(fs))


class Bits:
    """an integer, not negative, by its bits (lowest first)"""
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = fs

    def __repr__(self):
        return 'Bits<%s>' % ' '.join(
            str(f) if f in (0, 1) else form_text(f)
            for f in reversed(reduce_all(self.fs)))

    def dv_type(self):
        return int

    def dv_truth(self, it):
        return not all_zero(self.fs)

    def lo(self):
        return sum(1 << i for i, f in enumerate(self.fs) if f == 1)

    def hi(self):
        return sum(1 << i for i, f in enumerate(self.fs) if f)

    # ------------------------------------------------------------ integers
    def term(self):
        """the integer term with these bits"""
        fs = reduce_all(self.fs)
        while fs and fs[-1] == 0:
            fs = fs[:-1]
        if all(f < 2 for f in fs):
            return sum(f << i for i, f in enumerate(fs))
        k, keep = ATOM_KEYS.get((fs[0].bit_length() - 1), (None, None)) \
            if fs and fs[0] > 1 else (None, None)
        if keep is not None:
            n = P().intern.get(('width', keep.get_id()))
            if n is not None and len(fs) <= n and all(
                    (f == atom((keep.get_id(), i), keep)) for i, f in
                    enumerate(fs)) and len(fs) == n:
                return keep
        if P().intern.get('gf'):
            # a term with the same bits on this path?
            for k, n in P().intern.items():
                if k[0] == 'width' and reduce_all(
                        [atom((k[1], i)) for i in range(n)]) == \
                        fs + (0,) * (n - len(fs)):
                    return WIDTH_TERMS[k[1]]
        if fs not in BACK:
            c = z3.Int('bits!%d' % len(BACK))
            BACK[fs] = c
            FORMS[c.get_id()] = (c, fs)
        c = BACK[fs]
        p = P()
        key = ('bits_range', c.get_id())
        if key not in p.intern:
            p.intern[key] = True
            p.assume_expr(z3.And(c >= 0, c < 2 ** len(fs)))
        return c

    to_int_expr = term

    def dv_int(self, it):
        return self

    def simple(self):
        """the term, when it is one the bits were taken from"""
        fs = reduce_all(self.fs)
        if not fs or fs[0] < 2 or fs[0] & (fs[0] - 1):
            return None
        k, keep = ATOM_KEYS.get(fs[0].bit_length() - 1)
        if keep is None:
            return None
        t = self.term()
        return t if t is keep else None

    # ---------------------------------------------------------- operations
    def dv_binop(self, it, op, a, b):
        return bit_op(it, op, a, b)

    def dv_compare(self, it, op, a, b):
        if isinstance(a, Bits) and isinstance(b, int):
            return cmp_const(it, op, a, int(b))
        if isinstance(b, Bits) and isinstance(a, int):
            return cmp_const(it, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE',
                                  'GtE': 'LtE'}[op], b, int(a))
        ta, tb = it.pytype(a), it.pytype(b)
        if ta not in (int, bool) or tb not in (int, bool):
            raise it.exc(TypeError, 'ordering')
        return it.compare(op, as_sint(a), as_sint(b))

    def dv_eq(self, it, a, b):
        t = [it.pytype(x) for x in (a, b)]
        if not all(x in (int, bool) for x in t):
            return False
        x, y = to_bits(it, a), to_bits(it, b)
        if x is None or y is None:
            if isinstance(a, int) or isinstance(b, int):
                return False      # negative
            return it.eq(as_sint(a), as_sint(b))
        for u, v in ((a, b), (b, a)):
            if isinstance(u, Bits) and isinstance(v, int):
                s = u.simple()
                if s is not None:
                    return mk_bool(s == v)
        return mk_cond(xor(x, y))

    def dv_prove_eq(self, it, a, b):
        x, y = to_bits(it, a), to_bits(it, b)
        if x is None or y is None:
            return False
        return not any(reduce_all(xor(x, y)))

    def dv_invert(self):
        raise Unsupported('complement of a bit pattern')

    def dv_ite(self, it, a, b):
        fs = [f for f in reduce_all(self.fs) if f]
        if not fs or 1 in fs:
            return a if fs else b
        if len(fs) > 1:
            return None
        return ite(it, fs[0], a, b)

    def dv_not(self, it):
        fs = [f for f in reduce_all(self.fs) if f]
        if len(fs) == 1:
            return Cond((fs[0] ^ 1,), neg=True)
        return not self.dv_truth(it)

    def dv_table(self, it, s):
        """s[self] for a string s"""
        fs = reduce_all(self.fs)
        n = 1 << len(fs)
        if n > len(s):
            if it.truth(cmp_const(it, 'GtE', self, len(s))):
                raise it.exc(IndexError, 'string index out of range')
            fs = reduce_all(self.fs)
            while fs and fs[-1] == 0:
                fs = fs[:-1]
            n = 1 << len(fs)
        t = tuple(s[i] if i < len(s) else s[-1] for i in range(n))
        return mk_text([mk_char(t, fs)])

    def dv_tuple_item(self, it, segs):
        """element of a list of constants"""
        vals = [s.v for s in segs if isinstance(s, LItem)]
        if len(vals) != len(segs):
            return None
        fs = reduce_all(self.fs)
        n = 1 << len(fs)
        if n > len(vals):
            if it.truth(cmp_const(it, 'GtE', self, len(vals))):
                raise it.exc(IndexError, 'list index out of range')
            fs = reduce_all(self.fs)
            while fs and fs[-1] == 0:
                fs = fs[:-1]
            n = 1 << len(fs)
        vals = [vals[i] if i < len(vals) else vals[-1] for i in range(n)]
        if all(isinstance(v, str) and len(v) == 1 for v in vals):
            return mk_text([mk_char(tuple(vals), fs)])
        if all(isinstance(v, int) for v in vals):
            return table_int(tuple(vals), fs, True)
        return vals[enumerate_index(fs, n)]

    def dv_chr(self, it):
        fs = reduce_all(self.fs)
        if len(fs) > 8:
            raise Unsupported('chr')
        return mk_text([mk_char(tuple(chr(i) for i in range(1 << len(fs))),
                                fs)])

    def dv_format(self, it, spec):
        from dv.core import Opaque
        return Opaque(str)

    def dv_subst(self, pairs):
        return self

    def dv_consts(self, out, seen):
        pass


def form_text(f):
    out = ['1'] if f & 1 else []
    i = 1
    f >>= 1
    while f and len(out) < 4:
        if f & 1:
            k = ATOM_KEYS[i][0]
            out.append('%s' % (k,) if not isinstance(k[0], int)
                       else 't%s.%s' % k)
        f >>= 1
        i += 1
    return '+'.join(out) + ('+..' if f else '')


def of_rope(it, r, order):
    """int.from_bytes"""
    n = R.const_len(r)
    if n is None or n > 128:
        return None
    out = []
    items = [s.v for s in it.rope_iter(r) if isinstance(s, LItem)]
    if len(items) != n:
        return None
    if order == 'big':
        items.reverse()
    for v in items:
        b = to_bits(it, v)
        if b is None:
            return None
        out.extend(b + (0,) * (8 - len(b)))
    return mk(out)


def to_rope(it, x, n, order):
    """int.to_bytes"""
    if not isinstance(x, Bits):
        return None
    fs = reduce_all(x.fs)
    if not 0 <= n <= 128:
        return None
    if len(fs) > 8 * n:
        if not all_zero(fs[8 * n:]):
            raise it.exc(OverflowError, 'int too big to convert')
        fs = fs[:8 * n]
    out = []
    for i in range(n):
        v = mk(fs[8 * i:8 * i + 8])
        out.append(R.Lit(bytes([v])) if isinstance(v, int)
                   else R.byte_seg(ie(v)))
    if order == 'big':
        out.reverse()
    return it.unrope(R.mk_rope(out))


def refresh(it, r):
    """a rope, its bits under the equations of the path"""
    p = P()
    if not p.intern.get('gf'):
        return r
    key = ('refresh', p.intern['gf'])
    pairs = p.intern.get(key)
    n = sum(1 for k in p.intern if k[0] == 'bits_range')
    if pairs is None or pairs[0] != n:
        out = []
        for k in [k for k in p.intern if k[0] == 'bits_range']:
            c, fs = FORMS[k[1]]
            if reduce_all(fs) != fs:
                out.append((c, zi(ie(mk(fs)))))
        pairs = p.intern[key] = (n, out)
    return R.subst(r, pairs[1]) if pairs[1] else r


def as_sint(v):
    if isinstance(v, Bits):
        return mk_int(v.term())
    return v


def xor(x, y):
    n = max(len(x), len(y))
    return tuple((x[i] if i < len(x) else 0) ^ (y[i] if i < len(y) else 0)
                 for i in range(n))


def ite(it, f, a, b):
    """a if bit f else b"""
    x, y = to_bits(it, a), to_bits(it, b)
    if x is None or y is None:
        return None
    d = reduce_all(xor(x, y))
    if any(u > 1 for u in d):
        return None
    return mk([(y[i] if i < len(y) else 0) ^ (f if u else 0)
               for i, u in enumerate(d)])


def bit_op(it, op, a, b):
    ta, tb = it.pytype(a), it.pytype(b)
    if ta not in (int, bool) or tb not in (int, bool):
        return NotImplemented
    if isinstance(a, SBool):
        a = SInt(ie(a)) if not isinstance(ie(a), int) else ie(a)
    if isinstance(b, SBool):
        b = SInt(ie(b)) if not isinstance(ie(b), int) else ie(b)
    if op == 'Add' and it.words:
        r = word_add(it, a, b)
        if r is not None:
            return r
    x, y = to_bits(it, a), to_bits(it, b)
    if op in ('LShift', 'RShift') and isinstance(b, int) and x is not None:
        if b < 0:
            raise it.exc(ValueError, 'negative shift count')
        if op == 'LShift':
            return mk((0,) * b + tuple(x))
        return mk(x[b:])
    if x is not None and y is not None:
        x, y = reduce_all(x), reduce_all(y)
        n = max(len(x), len(y))
        x += (0,) * (n - len(x))
        y += (0,) * (n - len(y))
        if op == 'BitXor':
            return mk([u ^ v for u, v in zip(x, y)])
        if op == 'BitAnd':
            out = []
            for u, v in zip(x, y):
                if u == 0 or v == 0 or u ^ v == 1:
                    out.append(0)
                elif u == 1 or u == v:
                    out.append(v)
                elif v == 1:
                    out.append(u)
                else:
                    out.append(v if decide(u) else 0)
            return mk(out)
        if op == 'BitOr' or op == 'Add' and all(
                u == 0 or v == 0 for u, v in zip(x, y)):
            out = []
            for u, v in zip(x, y):
                if u == 1 or v == 1 or u ^ v == 1:
                    out.append(1)
                elif u == 0 or u == v:
                    out.append(v)
                elif v == 0:
                    out.append(u)
                else:
                    out.append(1 if decide(u) else v)
            return mk(out)
        if op == 'Sub' and all(v == 0 or u == 1 or u == v
                               for u, v in zip(x, y)):
            # no borrow
            return mk([u ^ v for u, v in zip(x, y)])
    if op == 'Mult':
        for u, v, w in ((a, b, x), (b, a, y)):
            if isinstance(v, int) and v >= 0 and w is not None:
                if v == 0:
                    return 0
                if v & (v - 1) == 0:
                    return mk((0,) * (v.bit_length() - 1) + tuple(w))
                if len(w) == 1:
                    return mk([w[0] if v >> i & 1 else 0
                               for i in range(v.bit_length())])
    if op in ('FloorDiv', 'Mod') and isinstance(b, int) and b > 0 and \
            b & (b - 1) == 0 and x is not None:
        k = b.bit_length() - 1
        return mk(x[k:]) if op == 'FloorDiv' else mk(x[:k])
    if op in ('LShift', 'RShift') and isinstance(b, Bits):
        n = enumerate_value(b)
        return bit_op(it, op, a, n)
    if op == 'Mult' and (ta is not int or tb is not int):
        return NotImplemented
    u, v = as_sint(a), as_sint(b)
    return it.int_op(op, u, v)


# ------------------------------------------------------- sums of words

SUM_BITS = {}         # (k, summands, constant) -> forms
SUM_OF = {}           # forms of a sum modulo 2**k -> (k, parts, constant)


def sum_bits(parts, const, k):
    """the sum of the parts modulo 2**k: bits of it

    The bits of a sum of several unknowns are new atoms, the same ones for the
    same summands in any order; a summand that is itself such a sum modulo
    2**k counts as its summands.
    """
    out = []
    todo = [tuple(reduce_all(p))[:k] for p in parts]
    while todo:
        p = list(todo.pop())
        while p and p[-1] == 0:
            p.pop()
        p = tuple(p)
        if all(f in (0, 1) for f in p):
            const += sum(f << i for i, f in enumerate(p))
            continue
        s = SUM_OF.get((k, p))
        if s is not None:
            todo.extend(s[0])
            const += s[1]
        else:
            out.append(p)
    const %= 1 << k
    if not out:
        return tuple(const >> i & 1 for i in range(k))
    if len(out) == 1 and const == 0:
        return out[0]
    out = tuple(sorted(out))
    key = (k, out, const)
    fs = SUM_BITS.get(key)
    if fs is None:
        n = len(SUM_BITS)
        fs = SUM_BITS[key] = tuple(atom(('sum', n, i)) for i in range(k))
        SUM_OF[(k, fs)] = (out, const)
    return fs


class WordSum:
    """a sum not yet reduced; parts are bits"""
    __slots__ = ('parts', 'const')

    def __init__(self, parts, const):
        self.parts = parts
        self.const = const

    def dv_type(self):
        return int

    def whole(self):
        """the exact sum: no bit of it can be lost"""
        top = self.const + sum((1 << len(p)) - 1 for p in self.parts)
        return mk(sum_bits(self.parts, self.const, top.bit_length()))

    def dv_binop(self, it, op, a, b):
        if op == 'Add':
            return word_add(it, a, b)
        if op in ('BitAnd', 'Mod'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, WordSum) and isinstance(y, int) \
                        and not isinstance(y, bool) and y > 0 and (
                            x is a or op == 'BitAnd'):
                    m = y if op == 'BitAnd' else y - 1
                    if m & (m + 1) == 0:
                        return mk(sum_bits(x.parts, x.const,
                                           m.bit_length()))
        a = a.whole() if isinstance(a, WordSum) else a
        b = b.whole() if isinstance(b, WordSum) else b
        return it.binop(op, a, b)

    def dv_truth(self, it):
        return it.truth(self.whole())

    def dv_compare(self, it, op, a, b):
        a = a.whole() if isinstance(a, WordSum) else a
        b = b.whole() if isinstance(b, WordSum) else b
        return it.compare(op, a, b)

    def dv_eq(self, it, a, b):
        a = a.whole() if isinstance(a, WordSum) else a
        b = b.whole() if isinstance(b, WordSum) else b
        return it.eq(a, b)

    def dv_prove_eq(self, it, a, b):
        from dv import proof
        a = a.whole() if isinstance(a, WordSum) else a
        b = b.whole() if isinstance(b, WordSum) else b
        return proof.deep_eq(it, a, b)

    def to_int_expr(self):
        return ie(self.whole())

    def dv_int(self, it):
        return self

    def dv_subst(self, pairs):
        return self

    def dv_consts(self, out, seen):
        pass


def word_add(it, a, b):
    """a sum of numbers of known width, or None"""
    parts, const = [], 0
    for x in (a, b):
        if isinstance(x, WordSum):
            parts.extend(x.parts)
            const += x.const
        elif isinstance(x, int):
            if x < 0:
                return None
            const += x
        else:
            f = to_bits(it, x)
            if f is None:
                return None
            parts.append(tuple(f))
    return WordSum(tuple(parts), const) if parts else const


def enumerate_value(b):
    return sum(1 << i for i, f in enumerate(b.fs) if decide(f))


def enumerate_index(fs, n):
    return sum(1 << i for i, f in enumerate(fs) if decide(f))


def cmp_const(it, op, a, c):
    """compare bits with a number"""
    if op == 'Gt':
        return cmp_const(it, 'GtE', a, c + 1)
    if op == 'LtE':
        return cmp_const(it, 'Lt', a, c + 1)
    if op == 'Lt':
        r = cmp_const(it, 'GtE', a, c)
        return mk_bool(z3.Not(r.e)) if isinstance(r, SBool) else \
            r.dv_not(it) if isinstance(r, Cond) else not r
    vals = getattr(a, 'vals', None)
    if vals:
        return subset_cond(a.index, [j for j, v in enumerate(vals)
                                     if v >= c])
    fs = reduce_all(a.fs)
    mn = sum(1 << i for i, f in enumerate(fs) if f == 1)
    mx = sum(1 << i for i, f in enumerate(fs) if f)
    if c <= mn:
        return True
    if c > mx:
        return False
    s = a.simple()
    if s is not None:
        return mk_bool(s >= c)
    if c & (c - 1) == 0 and len(fs) == c.bit_length():
        return Cond((fs[-1] ^ 1,))
    # a >= c, from the top
    n = max(len(fs), c.bit_length())
    for i in range(n - 1, -1, -1):
        f = fs[i] if i < len(fs) else 0
        if c >> i & 1:
            if c & ((1 << i) - 1) == 0:
                return decide(f)
            if not decide(f):
                return False
        else:
            rest = c & ((1 << i) - 1)
            # above the highest set bit of what remains of c: any set bit
            # decides
            if rest == 0:
                return True
            hi = rest.bit_length()
            zs = [fs[j] for j in range(hi, min(i + 1, len(fs)))]
            if not all_zero(zs):
                return True
            sub = mk(fs[:hi])
            if isinstance(sub, int):
                return sub >= rest
            return cmp_const(it, 'GtE', sub, rest)
    return True


class TableBits(Bits):
    """the bits of a table entry"""
    __slots__ = ('vals', 'index')

    def __init__(self, fs, vals, index):
        self.fs = fs
        self.vals = vals
        self.index = index


def mk_cond(fs):
    """all the bits are clear"""
    fs = [f for f in reduce_all(fs) if f]
    if not fs:
        return True
    if basis(fs) is None:
        return False
    return Cond(tuple(sorted(set(fs))))


class Cond:
    """a truth value: all the forms are zero"""
    __slots__ = ('fs', 'neg')

    def __init__(self, fs, neg=False):
        self.fs = fs
        self.neg = False

    def __repr__(self):
        return 'Cond(%s)' % ', '.join(form_text(f) for f in self.fs)

    def dv_type(self):
        return bool

    def dv_truth(self, it):
        return all_zero(self.fs)

    def dv_not(self, it):
        if len(self.fs) == 1:
            return Cond((self.fs[0] ^ 1,))
        return not self.dv_truth(it)

    def dv_ite(self, it, a, b):
        fs = [f for f in reduce_all(self.fs) if f]
        if not fs:
            return a
        if 1 in fs:
            return b
        if len(fs) > 1:
            return None
        return ite(it, fs[0] ^ 1, a, b)

    def as_bits(self):
        if len(self.fs) == 1:
            return mk((self.fs[0] ^ 1,))
        return 1 if all_zero(self.fs) else 0

    def to_int_expr(self):
        return ie(self.as_bits())

    def dv_int(self, it):
        return self.as_bits()

    def dv_binop(self, it, op, a, b):
        a = a.as_bits() if isinstance(a, Cond) else a
        b = b.as_bits() if isinstance(b, Cond) else b
        return it.binop(op, a, b)

    def dv_compare(self, it, op, a, b):
        a = a.as_bits() if isinstance(a, Cond) else a
        b = b.as_bits() if isinstance(b, Cond) else b
        return it.compare(op, a, b)

    def dv_eq(self, it, a, b):
        a = a.as_bits() if isinstance(a, Cond) else a
        b = b.as_bits() if isinstance(b, Cond) else b
        return it.eq(a, b)


# ------------------------------------------------------------------ texts

class BitChar:
    """the character table[index]"""
    __slots__ = ('t', 'fs')

    def __init__(self, t, fs):
        self.t = t
        self.fs = fs

    def __repr__(self):
        return 'BitChar<%s>[%s]' % (''.join(self.t)[:8], ' '.join(
            form_text(f) for f in reversed(reduce_all(self.fs))))


def mk_char(t, fs):
    fs = tuple(fs)
    for i, f in enumerate(fs):
        if f in (0, 1):
            t = tuple(c for j, c in enumerate(t) if (j >> i & 1) == f)
            return mk_char(t, fs[:i] + fs[i + 1:])
    if all(c == t[0] for c in t):
        return t[0]
    return BitChar(t, fs)


def now(c):
    """a character under the equations of the path"""
    if isinstance(c, BitChar):
        return mk_char(c.t, reduce_all(c.fs))
    return c


def unknown_bit(key):
    """an undetermined truth value, the same one for the same question"""
    return Cond((atom(('q',) + key) ^ 1,))


def char_eq(a, b):
    """-> True, False or Cond"""
    a, b = now(a), now(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        js = [j for j, c in enumerate(a.t) if c == b]
        if not js:
            return False
        if len(js) == 1:
            return mk_cond([f ^ (js[0] >> i & 1)
                            for i, f in enumerate(a.fs)])
        return subset_cond(a.fs, js)
    if a.fs == b.fs:
        js = [j for j in range(len(a.t)) if a.t[j] == b.t[j]]
        return subset_cond(a.fs, js)
    if a.t == b.t and len(set(a.t)) == len(a.t):
        return mk_cond(xor(a.fs, b.fs))
    if not set(a.t) & set(b.t):
        return False
    return unknown_bit(('eq', a.t, a.fs, b.t, b.fs))


def subset_cond(fs, js):
    """is the index in js?"""
    n = 1 << len(fs)
    if not js:
        return False
    if len(js) == n:
        return True
    # an affine subspace?
    if len(js) & (len(js) - 1) == 0:
        b = js[0]
        d = set(j ^ b for j in js)
        gens = []
        span = {0}
        for x in sorted(d):
            if x not in span:
                gens.append(x)
                span |= {s ^ x for s in span}
        if span == d:
            # linear functionals vanishing on the span
            k = len(fs)
            out = []
            for m in range(1, n):
                if all(bin(m & g).count('1') % 2 == 0 for g in gens):
                    out.append(m)
            forms = []
            for m in out:
                f = bin(m & b).count('1') & 1
                for i in range(k):
                    if m >> i & 1:
                        f ^= fs[i]
                forms.append(f)
            bs = basis([f for f in forms if f])
            if bs is None:
                return False
            return mk_cond(bs)
    return unknown_bit(('in', tuple(js), fs))


def table_int(vals, fs, bits=True):
    """the number vals[index]"""
    fs = tuple(fs)
    if all(v == vals[0] for v in vals):
        return vals[0]
    if min(vals) >= 0:
        aff = all(
            vals[j] == fold(vals, j) for j in range(len(vals)))
        if aff:
            w = max(vals).bit_length()
            out = []
            for b in range(w):
                f = vals[0] >> b & 1
                for i in range(len(fs)):
                    if (vals[1 << i] ^ vals[0]) >> b & 1:
                        f ^= fs[i]
                out.append(f)
            return mk(out)
        w = max(vals).bit_length()
        return TableBits(tuple(
            atom(('tab', fs, vals, b)) for b in range(w)),
            vals, fs)
    return vals[enumerate_index(fs, len(vals))]


def fold(vals, j):
    v = vals[0]
    i = 0
    while j:
        if j & 1:
            v ^= vals[1 << i] ^ vals[0]
        j >>= 1
        i += 1
    return v


def mk_text(cs):
    cs = [now(c) for c in cs]
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    return ChText(cs)


class ChText(strs.StrBase):
    """a text of known length, by its characters"""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def __repr__(self):
        return 'ChText(%s)' % ''.join(
            c if isinstance(c, str) else '?' for c in self.cs)

    def dv_truth(self, it):
        return bool(self.cs)

    def dv_len(self, it):
        return len(self.cs)

    def dv_iter(self, it):
        return [LItem(mk_text([c])) for c in self.cs]

    def dv_getitem(self, it, i):
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in
                   (i.start, i.stop, i.step)):
                return mk_text(self.cs[i])
            raise Unsupported('slice of a text')
        if not isinstance(i, int):
            raise Unsupported('index of a text')
        return mk_text([it.native(lambda: self.cs[i])])

    def dv_eq(self, it, a, b):
        if it.pytype(a) is not str or it.pytype(b) is not str:
            return False
        x, y = chars(a), chars(b)
        if x is None or y is None:
            raise Unsupported('comparison of texts')
        return texts_eq(it, x, y)

    def dv_prove_eq(self, it, a, b):
        x, y = chars(a), chars(b)
        if x is None or y is None or len(x) != len(y):
            return False
        return all(char_eq(u, v) is True for u, v in zip(x, y))

    def dv_lower(self, it, a, kw):
        return self.mapped(str.lower)

    def dv_upper(self, it, a, kw):
        return self.mapped(str.upper)

    def dv_casefold(self, it, a, kw):
        return self.mapped(str.casefold)

    def dv_swapcase(self, it, a, kw):
        return self.mapped(str.swapcase)

    def mapped(self, f):
        out = []
        for c in self.cs:
            if isinstance(c, str):
                out.extend(f(c))
            else:
                t = tuple(f(x) for x in c.t)
                if any(len(x) != 1 for x in t):
                    raise Unsupported('case of %s' % ''.join(c.t))
                out.append(mk_char(t, c.fs))
        return mk_text(out)

    def every(self, it, f, some=None):
        for c in self.cs:
            if isinstance(c, str):
                if not f(c):
                    return False
            else:
                r = subset_cond(c.fs, [j for j, x in enumerate(c.t)
                                       if f(x)])
                if not it.truth(r):
                    return False
        return True

    def dv_isalnum(self, it, a, kw):
        return self.every(it, str.isalnum)

    def dv_isalpha(self, it, a, kw):
        return self.every(it, str.isalpha)

    def dv_isascii(self, it, a, kw):
        return self.every(it, str.isascii)

    def dv_isdigit(self, it, a, kw):
        return self.every(it, str.isdigit)

    def dv_islower(self, it, a, kw):
        return self.cased(it, str.lower)

    def dv_isupper(self, it, a, kw):
        return self.cased(it, str.upper)

    def cased(self, it, f):
        if not self.every(it, lambda c: f(c) == c):
            return False
        return not self.every(it, lambda c: c.lower() == c.upper())

    def at(self, it, i, s):
        if i < 0 or i + len(s) > len(self.cs):
            return False
        return it.truth(texts_eq(it, self.cs[i:i + len(s)], s))

    def pattern(self, it, a):
        if not a or it.pytype(a[0]) is not str:
            raise it.exc(TypeError, 'must be str')
        s = chars(a[0])
        if s is None or not all(isinstance(x, int) for x in a[1:]):
            raise Unsupported('search in a text')
        return s

    def dv_find(self, it, a, kw):
        s = self.pattern(it, a)
        lo = a[1] if len(a) > 1 else 0
        hi = a[2] if len(a) > 2 else len(self.cs)
        for i in range(*slice(lo, hi).indices(len(self.cs))):
            if i + len(s) <= hi and self.at(it, i, s):
                return i
        return -1

    def dv_rfind(self, it, a, kw):
        s = self.pattern(it, a)
        if len(a) > 1:
            raise Unsupported('rfind in a range')
        for i in range(len(self.cs) - len(s), -1, -1):
            if self.at(it, i, s):
                return i
        return -1

    def dv_index(self, it, a, kw):
        r = self.dv_find(it, a, kw)
        if r < 0:
            raise it.exc(ValueError, 'substring not found')
        return r

    def dv_rindex(self, it, a, kw):
        r = self.dv_rfind(it, a, kw)
        if r < 0:
            raise it.exc(ValueError, 'substring not found')
        return r

    def dv_count(self, it, a, kw):
        s = self.pattern(it, a)
        i = n = 0
        while i <= len(self.cs) - len(s):
            if self.at(it, i, s):
                n += 1
                i += max(1, len(s))
            else:
                i += 1
        return n

    def dv_startswith(self, it, a, kw):
        if isinstance(a[0], tuple):
            return any(self.at(it, 0, chars(x)) for x in a[0])
        return self.at(it, 0, self.pattern(it, a))

    def dv_endswith(self, it, a, kw):
        s = self.pattern(it, a)
        return self.at(it, len(self.cs) - len(s), s)

    def dv_removeprefix(self, it, a, kw):
        s = self.pattern(it, a)
        return mk_text(self.cs[len(s):]) if self.at(it, 0, s) else self

    def pieces(self, it, s, limit, right=False):
        if not s:
            raise it.exc(ValueError, 'empty separator')
        out, cur, i = [], 0, 0
        cuts = []
        n = len(self.cs)
        if right:
            i = n - len(s)
            while i >= 0 and (limit < 0 or len(cuts) < limit):
                if self.at(it, i, s):
                    cuts.insert(0, i)
                    i -= len(s)
                else:
                    i -= 1
        else:
            while i <= n - len(s) and (limit < 0 or len(cuts) < limit):
                if self.at(it, i, s):
                    cuts.append(i)
                    i += len(s)
                else:
                    i += 1
        for c in cuts:
            out.append(mk_text(self.cs[cur:c]))
            cur = c + len(s)
        out.append(mk_text(self.cs[cur:]))
        return out

    def dv_split(self, it, a, kw, right=False):
        kw = dict(kw)
        limit = a[1] if len(a) > 1 else kw.pop('maxsplit', -1)
        if kw or not a or a[0] is None or not isinstance(limit, int):
            raise Unsupported('split of a text')
        return it.new_list([LItem(x) for x in self.pieces(
            it, self.pattern(it, a[:1]), limit, right)])

    def dv_rsplit(self, it, a, kw):
        return self.dv_split(it, a, kw, True)

    def dv_partition(self, it, a, kw, right=False):
        s = self.pattern(it, a)
        x = self.pieces(it, s, 1, right)
        if len(x) == 1:
            return ('', '', x[0]) if right else (x[0], '', '')
        return (x[0], mk_text(s), x[1])

    def dv_rpartition(self, it, a, kw):
        return self.dv_partition(it, a, kw, True)

    def dv_contains(self, it, x):
        if it.pytype(x) is not str:
            raise it.exc(TypeError, 'requires string')
        return self.dv_find(it, [x], {}) >= 0

    def one(self):
        if len(self.cs) != 1:
            raise Unsupported('text of several characters')
        return now(self.cs[0])

    def dv_instr(self, it, s):
        """self in s"""
        if not self.cs:
            return True
        c = self.one()
        if isinstance(c, str):
            return c in s
        return subset_cond(c.fs, [j for j, x in enumerate(c.t) if x in s])

    def dv_findin(self, it, s, name):
        """s.find(self)"""
        c = self.one()
        if isinstance(c, str):
            return it.native(lambda: getattr(s, name)(c))
        if name in ('index', 'rindex') and not it.truth(
                self.dv_instr(it, s)):
            raise it.exc(ValueError, 'substring not found')
        c = self.one()
        if isinstance(c, str):
            return it.native(lambda: getattr(s, name)(c))
        f = 'r' if name[0] == 'r' else ''
        return table_int(tuple(getattr(s, f + 'find')(x) for x in c.t),
                         c.fs)

    def dv_ord(self, it):
        if len(self.cs) != 1:
            raise it.exc(TypeError, 'ord() expected a character')
        c = self.one()
        if isinstance(c, str):
            return ord(c)
        return table_int(tuple(ord(x) for x in c.t), c.fs)

    def dv_indict(self, it, items):
        c = self.one()
        if isinstance(c, str):
            return c in items
        return subset_cond(c.fs, [j for j, x in enumerate(c.t)
                                  if x in items])

    def dv_dictget(self, it, items, default):
        from dv.interp import UNDEF
        if not it.truth(self.dv_indict(it, items)):
            if default is UNDEF:
                raise it.exc(KeyError, 'character')
            return default
        c = self.one()
        if isinstance(c, str):
            return items[c]
        vals = [items.get(x) for x in c.t]
        known = [v for v in vals if v is not None]
        vals = tuple(known[0] if v is None else v for v in vals)
        if all(isinstance(v, int) for v in vals):
            return table_int(vals, c.fs)
        return vals[enumerate_index(c.fs, len(vals))]

    def dv_join(self, it, sep, segs):
        if not all(isinstance(s, LItem) for s in segs):
            raise Unsupported('join')
        parts = []
        for i, s in enumerate(segs):
            if i:
                parts.append(sep)
            parts.append(s.v)
        return self.dv_strjoin(it, parts)

    def dv_strjoin(self, it, parts):
        out = []
        for x in parts:
            c = chars(x)
            if c is None:
                raise Unsupported('concatenation of texts')
            out.extend(c)
        return mk_text(out)

    def dv_binop(self, it, op, a, b):
        if op == 'Add':
            if it.pytype(a) is not str or it.pytype(b) is not str:
                raise it.exc(TypeError, 'can only concatenate str')
            return self.dv_strjoin(it, [a, b])
        if op == 'Mult':
            t, n = (a, b) if isinstance(a, ChText) else (b, a)
            if isinstance(n, int):
                return mk_text(t.cs * max(n, 0))
        return NotImplemented

    def dv_format(self, it, spec):
        if spec:
            raise Unsupported('format')
        return self

    def dv_text(self):
        return self

    def dv_encode(self, it):
        out = []
        for c in self.cs:
            v = ChText([c]).dv_ord(it)
            if isinstance(v, int):
                out.append(R.Lit(chr(v).encode()))
                continue
            if not it.truth(it.compare('Lt', v, 128)):
                raise Unsupported('encoding of a text')
            e = ie(v)
            out.append(R.LE(e, 1) if not isinstance(e, int)
                       else R.Lit(bytes([e])))
        return it.unrope(R.mk_rope(out))

    def dv_subst(self, pairs):
        return self

    def dv_consts(self, out, seen):
        pass


def chars(v):
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, ChText):
        return v.cs
    if isinstance(v, tuple):
        return v
    return None


def texts_eq(it, x, y):
    if len(x) != len(y):
        return False
    cs = [char_eq(u, v) for u, v in zip(x, y)]
    if any(c is False for c in cs):
        return False
    fs = [f for c in cs if c is not True for f in c.fs]
    return mk_cond(fs) if fs else True


# ------------------------------------------------------- pure conditionals

PURE = (ast.Constant, ast.Name, ast.BinOp, ast.UnaryOp, ast.Subscript,
        ast.operator, ast.unaryop, ast.Load, ast.Attribute, ast.Slice)


def pure(e):
    return all(isinstance(n, PURE) for n in ast.walk(e))


def simple(body):
    """assignments to names of pure expressions"""
    for s in body:
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1 or not isinstance(
                    s.targets[0], ast.Name):
                return False
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name):
                return False
        elif isinstance(s, ast.Pass):
            continue
        else:
            return False
        if not pure(s.value):
            return False
    return True


def targets(body):
    return [s.targets[0].id if isinstance(s, ast.Assign) else s.target.id
            for s in body if not isinstance(s, ast.Pass)]


def merge_if(it, s, fr):
    """if on a single bit whose branches only assign numbers"""
    if not (simple(s.body) and simple(s.orelse)):
        return False
    t = it.ev(s.test, fr)
    if isinstance(t, (Bits, Cond)) and t.dv_ite(it, 1, 0) is not None:
        names = sorted(set(targets(s.body) + targets(s.orelse)))
        old = {}
        try:
            for n in names:
                old[n] = it.load_name(n, fr)
        except PyRaise:
            old = None
        if old is not None and all(
                isinstance(v, (int, Bits, SInt)) for v in old.values()):
            res = []
            for body in (s.body, s.orelse):
                try:
                    it.exec_block(body, fr)
                    res.append({n: it.load_name(n, fr) for n in names})
                except PyRaise:
                    pass
                for n in names:
                    it.store_name(n, old[n], fr)
            if len(res) == 2:
                new = {n: t.dv_ite(it, res[0][n], res[1][n])
                       for n in names}
                if all(v is not None for v in new.values()):
                    for n in names:
                        it.store_name(n, new[n], fr)
                    return True
    it.exec_block(s.body if it.truth(t) else s.orelse, fr)
    return True


def if_exp(it, e, t, fr):
    """-> (decided, value)"""
    if not (pure(e.body) and pure(e.orelse)):
        return None
    try:
        a = it.ev(e.body, fr)
        b = it.ev(e.orelse, fr)
    except PyRaise:
        return None
    return t.dv_ite(it, a, b)


# ----------------------------------------------------------------- domain

def draw_letters(name, n, alphabet):
    """n characters of an alphabet; the last is repeated to fill a power of
    two"""
    k = max(1, (len(alphabet) - 1).bit_length())
    t = tuple(alphabet) + (alphabet[-1],) * ((1 << k) - len(alphabet))
    return mk_text([mk_char(t, tuple(
        atom(('letter', name, i, b)) for b in range(k)))
        for i in range(n)])


def solution(p, rng):
    """an assignment of the atoms that satisfies the equations"""
    val = {}
    rows = p.intern.get('gf', ())
    pivots = {piv: row for piv, row in rows}
    n = len(ATOMS) + 2
    free = 1
    for i in range(1, n):
        if (1 << i) not in pivots and rng.random() < .5:
            free |= 1 << i
    # rows are triangular: later rows do not contain earlier pivots
    x = free
    for piv, row in reversed(rows):
        if bin(row & ~piv & x).count('1') & 1:
            x |= piv
        else:
            x &= ~piv
    return x


def holds(x, f):
    return bin(x & f).count('1') & 1
