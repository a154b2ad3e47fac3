"""Text values of a few symbolic shapes.

FinStr   table[e]: one of finitely many strings, selected by an integer
FmtInt   prefix + decimal digits of a non-negative integer + suffix
IdStr    an unknown string, denoted by its number in the table of all strings
JoinStr  ' '.join(tokens), no token empty or containing white space
"""
import z3

from dv.core import (P, SInt, SBool, Opaque, Unsupported, mk_int, mk_bool, ie,
                     simp, zi)
from dv import ropes as R
from dv.ropes import SStr, LItem, LMap, ListCases, Lit

IDS = {}


def intern(s):
    return IDS.setdefault(s, len(IDS))


def int_table(e, pairs):
    """the integer v with (e, v) in pairs; e is known to be a key"""
    same = [(k, v) for k, v in pairs if k == v]
    rest = [(k, v) for k, v in pairs if k != v]
    if len(same) >= 1 and len(rest) <= len(same):
        out = zi(e)
    else:
        out = z3.IntVal(rest[-1][1])
        rest = rest[:-1]
        rest += same
    for k, v in rest:
        out = z3.If(zi(e) == k, z3.IntVal(v), out)
    return mk_int(out)


def select(it, conds, vals, default, missing):
    """value among vals, by the first true condition"""
    from dv.interp import UNDEF
    p = P()
    if not conds:
        if default is not UNDEF:
            return default
        raise missing
    if not p.branch(z3.Or(conds)):
        if default is not UNDEF:
            return default
        raise missing
    if all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
        return None
    for c, v in zip(conds[:-1], vals[:-1]):
        if p.branch(c):
            return v
    return vals[-1]


class StrBase:
    __slots__ = ()

    def dv_type(self):
        return str

    def dv_truth(self, it):
        return True      # none of these is empty

    def cond(self, s):
        """condition: self is the string s"""
        raise NotImplementedError

    def code(self):
        """integer that determines the value, and integer -> string"""
        raise NotImplementedError

    def dv_eq(self, it, a, b):
        if b is self and a is not self:
            a, b = b, a
        if isinstance(b, str):
            return mk_bool(self.cond(b))
        if isinstance(b, StrBase):
            return self.eq_other(b)
        if it.pytype(b) is not str:
            return False
        raise Unsupported('comparison of texts')

    def eq_other(self, b):
        if type(b) is type(self):
            r = self.same_kind(b)
            if r is not None:
                return r
        raise Unsupported('comparison of texts')

    def same_kind(self, b):
        return None

    def dv_indict(self, it, items):
        cs = [self.cond(k) for k in items if isinstance(k, str)]
        return mk_bool(z3.Or(cs)) if cs else False

    def dv_contains(self, it, x):
        raise Unsupported('in text')

    def dv_instr(self, it, c):
        raise Unsupported('in text')

    def dv_dictget(self, it, items, default):
        from dv.interp import UNDEF
        ks = [k for k in items if isinstance(k, str)]
        pairs = []
        for k in ks:
            c = self.cond(k)
            if not z3.is_false(c):
                pairs.append((k, c))
        v = select(it, [c for _, c in pairs], [items[k] for k, _ in pairs],
                   default, it.exc(KeyError, 'unknown'))
        if v is None:
            e = zi(self.num())
            return int_table(e, [(self.num_of(k), items[k])
                                 for k, _ in pairs])
        return v

    def dv_split(self, it, a, kw):
        if a or kw:
            raise Unsupported('split with separator')
        return it.new_list([LItem(self)])

    def dv_join(self, it, sep, segs):
        if sep != ' ':
            raise Unsupported('join of texts')
        for s in segs:
            if not isinstance(s, (LItem, LMap)):
                raise Unsupported('join of %r' % (s,))
        return JoinStr(segs)

    def dv_strjoin(self, it, parts):
        return Opaque(str)

    def dv_format(self, it, spec):
        return self if spec == '' else Opaque(str)

    def dv_text(self):
        return self


def istok(v):
    """a token: not empty, no white space"""
    if isinstance(v, (FinStr, FmtInt)):
        return True
    if isinstance(v, IdStr):
        return v.token
    if isinstance(v, str):
        return bool(v) and not any(c.isspace() for c in v)
    if isinstance(v, SStr):
        for s in v.rope.segs:
            if isinstance(s, Lit) and not any(
                    c.isspace() for c in s.b.decode('latin-1')):
                continue
            if isinstance(s, R.Hex):
                continue
            return False
        return P().provable(zi(R.rope_len(v.rope)) > 0)
    if isinstance(v, ListCases):
        return all(istok(x) for _, x in v.cs)
    return False


class FinStr(StrBase):
    __slots__ = ('e', 'table')

    def __init__(self, e, table):
        self.e = e
        self.table = table

    def __repr__(self):
        return 'FinStr(%s)' % self.e

    def cond(self, s):
        cs = [zi(self.e) == k for k, v in self.table.items() if v == s]
        return z3.Or(cs) if cs else z3.BoolVal(False)

    def num(self):
        return self.e

    def num_of(self, s):
        return [k for k, v in self.table.items() if v == s][0]

    def dv_dictget(self, it, items, default):
        # several keys of the table may give the same string
        vals = list(self.table.values())
        if len(set(vals)) != len(vals):
            pairs = [(k, v) for k, v in self.table.items() if v in items]
            v = select(it, [zi(self.e) == k for k, _ in pairs],
                       [items[v] for _, v in pairs], default,
                       it.exc(KeyError, 'unknown'))
            if v is None:
                return int_table(self.e, [(k, items[v]) for k, v in pairs])
            return v
        return StrBase.dv_dictget(self, it, items, default)

    def dv_fromhex(self, it):
        ok = []
        for k, v in self.table.items():
            try:
                bytes.fromhex(v)
                ok.append(zi(self.e) == k)
            except ValueError:
                pass
        if ok and P().branch(z3.Or(ok)):
            raise Unsupported('hexadecimal digits in a finite table')
        raise it.exc(ValueError, 'non-hexadecimal number')

    def same_kind(self, b):
        if self.table == b.table and \
                len(set(self.table.values())) == len(self.table):
            return mk_bool(zi(self.e) == zi(b.e))
        cs = []
        for k, v in self.table.items():
            for k2, v2 in b.table.items():
                if v == v2:
                    cs.append(z3.And(zi(self.e) == k, zi(b.e) == k2))
        return mk_bool(z3.Or(cs)) if cs else False

    def mapped(self, fn):
        """fn of the text"""
        vals = {k: fn(v) for k, v in self.table.items()}
        kinds = sorted(set(vals.values()), key=repr)
        if len(kinds) == 1:
            return kinds[0]
        p = P()
        if isinstance(kinds[0], str):
            if '' in kinds:
                if p.branch(z3.Or([zi(self.e) == k
                                   for k, v in vals.items() if v == ''])):
                    return ''
                kinds.remove('')
                if len(kinds) == 1:
                    return kinds[0]
            return FinStr(self.e, vals)
        if isinstance(kinds[0], bool):
            return mk_bool(z3.Or([zi(self.e) == k
                                  for k, v in vals.items() if v]))
        e = z3.IntVal(vals[min(vals)])
        for n in kinds:
            ks = [k for k, v in vals.items() if v == n]
            e = z3.If(z3.Or([zi(self.e) == k for k in ks]), z3.IntVal(n), e)
        return mk_int(e)

    def dv_getitem(self, it, i):
        if isinstance(i, slice):
            parts = (i.start, i.stop, i.step)
        else:
            parts = (i,)
        if not all(x is None or isinstance(x, int) for x in parts):
            raise Unsupported('subscript of %r' % (self,))
        if isinstance(i, int):
            short = [zi(self.e) == k for k, v in self.table.items()
                     if not -len(v) <= i < len(v)]
            if short and P().branch(z3.Or(short)):
                raise it.exc(IndexError, 'string index out of range')
            return self.mapped(lambda v: v[i] if -len(v) <= i < len(v)
                               else '?')
        return self.mapped(lambda v: v[i])

    def dv_len(self, it):
        return self.mapped(len)

    def dv_startswith(self, it, a, kw):
        return self.test(it, 'startswith', a, kw)

    def dv_endswith(self, it, a, kw):
        return self.test(it, 'endswith', a, kw)

    def dv_find(self, it, a, kw):
        return self.test(it, 'find', a, kw)

    def test(self, it, name, a, kw):
        if kw or not all(it.plain(x) for x in a):
            raise Unsupported('str.%s on symbolic text' % name)
        return self.mapped(lambda v: getattr(v, name)(*a))

    def dv_prove_eq(self, it, a, b):
        if b is self:
            a, b = b, a
        if isinstance(b, (str, FinStr, FmtInt)):
            r = self.dv_eq(it, self, b)
            if r is True:
                return True
            return isinstance(r, SBool) and P().provable(r.e)
        return False

    def dv_subst(self, pairs):
        return FinStr(simp(z3.substitute(zi(self.e), *pairs)), self.table)

    def dv_consts(self, out, seen):
        R.val_consts(zi(self.e), out, seen)


class FmtInt(StrBase):
    __slots__ = ('pre', 'e', 'suf')

    def __init__(self, pre, e, suf):
        self.pre = pre
        self.e = e
        self.suf = suf

    def __repr__(self):
        return 'FmtInt(%r %s %r)' % (self.pre, self.e, self.suf)

    def parse(self, s):
        if not s.startswith(self.pre) or not s.endswith(self.suf):
            return None
        m = s[len(self.pre):len(s) - len(self.suf)]
        t = m[1:] if m.startswith('-') else m
        if not (t.isascii() and t.isdigit()) or t != str(int(t)) or \
                m == '-0':
            return None
        return int(m)

    def cond(self, s):
        n = self.parse(s)
        return z3.BoolVal(False) if n is None else zi(self.e) == n

    def num(self):
        return self.e

    def num_of(self, s):
        return self.parse(s)

    def same_kind(self, b):
        if (self.pre, self.suf) == (b.pre, b.suf):
            return mk_bool(zi(self.e) == zi(b.e))

    def dv_prove_eq(self, it, a, b):
        if b is self:
            a, b = b, a
        if isinstance(b, FinStr):
            return b.dv_prove_eq(it, b, a)
        r = self.dv_eq(it, self, b)
        return r is True or isinstance(r, SBool) and P().provable(r.e)

    def eq_other(self, b):
        if isinstance(b, FinStr):
            cs = []
            for k, v in b.table.items():
                n = self.parse(v)
                if n is not None:
                    cs.append(z3.And(zi(b.e) == k, zi(self.e) == n))
            return mk_bool(z3.Or(cs)) if cs else False
        return StrBase.eq_other(self, b)

    def dv_strjoin(self, it, parts):
        n = [x for x in parts if not isinstance(x, str)]
        if len(n) != 1:
            return Opaque(str)
        i = parts.index(self)
        return FmtInt(''.join(parts[:i]) + self.pre, self.e,
                      self.suf + ''.join(parts[i + 1:]))

    def dv_subst(self, pairs):
        return FmtInt(self.pre, simp(z3.substitute(zi(self.e), *pairs)),
                      self.suf)

    def dv_consts(self, out, seen):
        R.val_consts(zi(self.e), out, seen)


class IdStr(StrBase):
    """unknown string; e: its number in the (infinite) table of strings"""
    __slots__ = ('e', 'token')

    def __init__(self, e, token=False):
        self.e = e
        self.token = token

    def __repr__(self):
        return 'IdStr(%s)' % self.e

    def dv_truth(self, it):
        if self.token:
            return True
        return it.truth(mk_bool(z3.Not(self.cond(''))))

    def cond(self, s):
        return zi(self.e) == intern(s)

    def num(self):
        return self.e

    num_of = staticmethod(intern)

    def same_kind(self, b):
        return mk_bool(zi(self.e) == zi(b.e))

    def dv_fromhex(self, it):
        from dv.prims import fresh_bytes
        if P().choose(2) == 0:
            # white space is skipped, so only a token is never empty
            return fresh_bytes(it, 'unhex', 1 if self.token else 0)
        raise it.exc(ValueError, 'non-hexadecimal number')

    def dv_split(self, it, a, kw):
        p = P()
        if a or kw:
            raise Unsupported('split with separator')
        n = p.fresh_int('ntok')
        p.assume_expr(n >= 0)
        k = p.fresh_int('tk')
        f = z3.Function(p.fresh('tok'), z3.IntSort(), z3.IntSort())
        return it.new_list([LMap(k, 0, n, IdStr(f(k), True))])

    def dv_join(self, it, sep, segs):
        return unknown()

    def dv_encode(self, it):
        # different texts have different encodings
        p = P()
        seen = p.intern.get('utf8', ())
        for t, r in seen:
            if same_text(t, self):
                break
        else:
            from dv.prims import fresh_bytes
            r = None if p.choose(2) else fresh_bytes(it, 'utf8')
            p.intern['utf8'] = seen + ((self, r),)
        if r is None:
            raise it.exc(UnicodeEncodeError, 'surrogates not allowed')
        return r

    def dv_find(self, it, a, kw):
        return text_find(it, self, a)

    def dv_subst(self, pairs):
        return IdStr(simp(z3.substitute(zi(self.e), *pairs)), self.token)

    def dv_consts(self, out, seen):
        R.val_consts(zi(self.e), out, seen)


def unknown(token=False):
    return IdStr(P().fresh_int('text'), token)


class JoinStr(StrBase):
    """' '.join(segs) (segs: list segments of tokens)"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return 'JoinStr%r' % (self.segs,)

    def dv_truth(self, it):
        return it.truth(mk_bool(zi(R.list_len(self.segs)) > 0))

    def dv_split(self, it, a, kw):
        if kw or a and a[0] not in (' ', None):
            raise Unsupported('split with separator')
        for s in self.segs:
            v = s.v
            if isinstance(s, LMap):
                R.inst_map(s, s.k, pick=False)
            if not istok_seg(s):
                raise Unsupported('split: empty tokens')
        if a and a[0] == ' ' and not P().provable(
                zi(R.list_len(self.segs)) > 0):
            raise Unsupported('split of an empty text')
        return it.new_list(self.segs)

    def dv_eq(self, it, a, b):
        if b is self and a is not self:
            a, b = b, a
        if isinstance(b, str):
            if b == '':
                return mk_bool(zi(R.list_len(self.segs)) == 0)
            toks = b.split(' ')
            b = JoinStr([LItem(t) for t in toks])
        if isinstance(b, (FinStr, FmtInt, SStr)):
            b = JoinStr([LItem(b)])
        if isinstance(b, JoinStr):
            if not all(istok_seg(s) for s in self.segs + b.segs):
                raise Unsupported('comparison of texts')
            return it.seq_eq(list(self.segs), list(b.segs))
        if it.pytype(b) is not str:
            return False
        raise Unsupported('comparison of texts')

    def dv_prove_eq(self, it, a, b):
        from dv import proof
        if b is self and a is not self:
            a, b = b, a
        if isinstance(b, str):
            if b == '':
                return P().provable(zi(R.list_len(self.segs)) == 0)
            b = JoinStr([LItem(t) for t in b.split(' ')])
        if isinstance(b, (FinStr, FmtInt, SStr)):
            b = JoinStr([LItem(b)])
        if not isinstance(b, JoinStr):
            return False
        return proof.segs_eq(it, list(self.segs), list(b.segs))

    def dv_subst(self, pairs):
        return JoinStr([subst_seg(s, pairs) for s in self.segs])

    def dv_consts(self, out, seen):
        R.val_consts(R.STup(self.segs), out, seen)


def istok_seg(s):
    if isinstance(s, LItem):
        return istok(s.v)
    if isinstance(s, LMap):
        with R.scope(zi(s.lo) <= s.k, s.k < zi(s.hi), *s.facts):
            if isinstance(s.v, ListCases):
                for c, x in s.v.cs:
                    if isinstance(c, bool):
                        if not istok(x):
                            return False
                        continue
                    with R.scope(c):
                        if not istok(x):
                            return False
                return True
            return istok(s.v)
    return False


def subst_seg(s, pairs):
    t = R.subst(R.STup((s,)), pairs)
    return t.segs[0]


class EncStr(StrBase):
    """the text some encoder gives for some bytes"""
    __slots__ = ('kind', 'rope')

    def __init__(self, kind, rope):
        self.kind = kind
        self.rope = rope

    def __repr__(self):
        return 'EncStr(%s %r)' % (self.kind, self.rope)

    def dv_eq(self, it, a, b):
        if b is self and a is not self:
            a, b = b, a
        if isinstance(b, EncStr) and b.kind == self.kind:
            return it.eq(it.unrope(self.rope), it.unrope(b.rope))
        if it.pytype(b) is not str:
            return False
        raise Unsupported('comparison of texts')

    def dv_prove_eq(self, it, a, b):
        from dv import proof
        if b is self and a is not self:
            a, b = b, a
        return isinstance(b, EncStr) and b.kind == self.kind and \
            proof.deep_eq(it, it.unrope(self.rope), it.unrope(b.rope))

    def dv_find(self, it, a, kw):
        return text_find(it, self, a)

    def dv_subst(self, pairs):
        return EncStr(self.kind, R.subst(self.rope, pairs))

    def dv_consts(self, out, seen):
        R.val_consts(self.rope, out, seen)


def same_text(a, b):
    if a is b:
        return True
    if isinstance(a, IdStr) and isinstance(b, IdStr):
        return z3.eq(zi(a.e), zi(b.e))
    return False


def text_find(it, s, a):
    """position of a text in a text: nothing known but what decoders say"""
    if len(a) != 1 or not isinstance(a[0], str):
        if a and a[0] is None:
            raise it.exc(TypeError, 'must be str, not None')
        raise Unsupported('find in text')
    p = P()
    if isinstance(s, EncStr) and s.kind.startswith(a[0]):
        return 0
    seen = p.intern.setdefault(('text_find', a[0]), ())
    for t, x in seen:
        if same_text(t, s):
            return x
    for t, pre in p.intern.get('text_starts', ()):
        if same_text(t, s) and pre.startswith(a[0]):
            return 0
    x = p.fresh_int('find')
    p.assume_expr(x >= -1)
    x = SInt(x)
    p.intern[('text_find', a[0])] = seen + ((s, x),)
    return x
