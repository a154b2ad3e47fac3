"""The symbolic input domain handed to a theorem."""
import z3

from dv.core import (
    P, STATS, S, SInt, SBool, Ref, HList, ExcVal, Opaque, PyRaise,
    Unsupported, Infeasible, ObligationFailed, mk_int, mk_bool, ie, simp, zi)
from dv import ropes as R
from dv.ropes import Rope, SStr, STup, LItem, LMap
from dv.interp import Prim, NetVal
from dv import loops, proof


# no Python object is longer: the address space is smaller
MAXLEN = 2 ** 56


class SymDomain:
    """D of a theorem; also the element domain of D.list"""

    def __init__(self, run, prefix='', idx=()):
        self.run = run
        self.prefix = prefix
        self.idx = idx
        self.drawn = set()

    def dv_type(self):
        return SymDomain

    def dv_getattr(self, it, name):
        f = getattr(self, 'd_' + name, None)
        if f is None:
            raise Unsupported('D.%s' % name)
        return Prim('D.' + name, lambda it, a, kw: f(it, *a, **kw))

    # ------------------------------------------------------------- leaves
    def name(self, n):
        return self.prefix + n

    def leaf(self, rec):
        key = rec['name']
        if key in self.drawn:
            raise Unsupported('%s is drawn twice' % key)
        self.drawn.add(key)
        self.run.leaves.setdefault(key, rec)

    def intexpr(self, n, lo, hi):
        nm = self.name(n)
        if not self.idx:
            e = z3.Int(nm)
            p = P()
            if lo is not None:
                p.assume_expr(e >= zi(ie(lo)))
            if hi is not None:
                p.assume_expr(e <= zi(ie(hi)))
            return e
        f = z3.Function(nm, *([z3.IntSort()] * (len(self.idx) + 1)))
        if (lo is not None and not isinstance(ie(lo), int)) or (
                hi is not None and not isinstance(ie(hi), int)):
            raise Unsupported('symbolic bounds for a family')

        def rf(t, lo=lo, hi=hi):
            out = []
            if lo is not None:
                out.append(t >= lo)
            if hi is not None:
                out.append(t <= hi)
            return out
        R.RANGE[nm] = rf
        t = f(*self.idx)
        R.add_range_facts(t)
        return t

    def d_int(self, it, n, lo=None, hi=None):
        e = self.intexpr(n, lo, hi)
        self.leaf({'name': self.name(n), 'kind': 'int', 'nidx':
                   len(self.idx), 'lo': lo if lo is None else S(ie(lo))})
        return SInt(e)

    def d_size(self, it, n, lo=0, hi=None):
        return self.d_int(it, n, lo, MAXLEN if hi is None else hi)

    def d_bool(self, it, n):
        e = self.intexpr(n, 0, 1)
        self.leaf({'name': self.name(n), 'kind': 'bool',
                   'nidx': len(self.idx)})
        return mk_bool(e == 1)

    def d_bytes(self, it, n, lo=0, hi=None, hints=None):
        nm = self.name(n)
        if isinstance(lo, int) and lo == hi:
            ln = lo
        else:
            ln = self.intexpr(n + '.len', lo, MAXLEN if hi is None else hi)
        self.leaf({'name': nm, 'kind': 'bytes', 'nidx': len(self.idx),
                   'len': ln if isinstance(ln, int) else None})
        if isinstance(ln, int) and ln == 0:
            return b''
        return Rope((R.Sub(R.Atom(nm, self.idx, ln), 0, ln),))

    def d_choice(self, it, n, vals):
        vals = [s.v for s in it.iter_segs(vals)]
        if len(vals) == 1:
            return vals[0]
        e = self.intexpr(n, 0, len(vals) - 1)
        self.leaf({'name': self.name(n), 'kind': 'int',
                   'nidx': len(self.idx)})
        if it.bits:
            i = P().choose(len(vals))
            P().assume_expr(e == i)
            return vals[i]
        for i, v in enumerate(vals[:-1]):
            if P().branch(e == i):
                return v
        P().assume_expr(e == len(vals) - 1)
        return vals[-1]

    def d_list(self, it, n, lo, hi, fn, tup=False):
        p = P()
        nm = self.name(n)
        fixed = None
        if isinstance(lo, SInt) and isinstance(hi, SInt):
            if not p.provable(z3.And(lo.e == hi.e, lo.e >= 0)):
                raise Unsupported('list bounds')
            fixed, lo, hi = lo.e, 0, None
        ln = self.intexpr(n + '.n', lo, MAXLEN if hi is None else hi)
        if fixed is not None:
            p.assume_expr(ln == fixed)
        self.leaf({'name': nm + '.n', 'kind': 'int', 'nidx': len(self.idx)})
        self.leaf({'name': nm, 'kind': 'list', 'nidx': len(self.idx)})
        if isinstance(lo, int) and lo == hi:
            ln = lo
        if fixed is not None:
            ln = fixed

        def elem(v):
            sub = SymDomain(self.run, nm + '.',
                            self.idx + (zi(ie(v)),))
            return it.call(fn, [sub], {})
        if isinstance(ln, int):
            segs = [LItem(elem(j)) for j in range(ln)]
        else:
            if not isinstance(lo, int) or lo < 0:
                raise Unsupported('list bounds')
            k = p.fresh_int('dk')
            segs = loops.map_segs(it, [LMap(k, 0, ln, SInt(k))], elem)
        if tup:
            return it.mk_tuple(segs)
        return it.new_list(segs)

    def d_pick(self, it, n, table):
        """an element of a dictionary from integers to strings"""
        from dv import strs
        t = dict(it.dict_items(table))
        e = self.intexpr(n, min(t), max(t))
        self.leaf({'name': self.name(n), 'kind': 'int',
                   'nidx': len(self.idx)})
        P().assume_expr(z3.Or([e == k for k in t]))
        return strs.FinStr(e, t)

    def d_letters(self, it, n, count, alphabet):
        """a text of so many letters of an alphabet"""
        from dv import bits
        if not isinstance(count, int) or self.idx:
            raise Unsupported('number of letters')
        self.leaf({'name': self.name(n), 'kind': 'letters', 'nidx': 0,
                   'len': count, 'alphabet': alphabet})
        return bits.draw_letters(self.name(n), count, alphabet)

    def d_network_word(self, it, attr, lo, hi, alphabet, length=None):
        """a text parameter of the network: any word over the alphabet, when
        the parameter is such a word (of one length, in a split by cases)"""
        from dv import bits
        from dv.prove import fits
        ok = fits(getattr(it.net, attr, None), lo, hi, alphabet)
        it.observe('fits %s %d %d %s' % (attr, lo, hi, alphabet), ok)
        if not ok:
            return it.net_attr(NetVal(it.net), attr)
        n = length if length is not None else \
            lo + P().choose(hi - lo + 1)
        w = bits.draw_letters('network.' + attr, n, alphabet)
        P().globals[('cls', id(it.net), attr)] = w
        return w

    def d_text(self, it, n, some=None):
        """any text"""
        from dv import strs
        return strs.unknown()

    def d_opaque(self, it, n):
        return Opaque(object, n)

    def d_named(self, it, pre):
        """the domain with a prefix on its names"""
        d = SymDomain(self.run, self.prefix + pre, self.idx)
        d.drawn = self.drawn
        return d

    def d_symbolic(self, it):
        return True

    # -------------------------------------------------------- assumptions
    def d_assume(self, it, c):
        p = P()
        if isinstance(c, SBool):
            p.assume_expr(c.e)
            if p.check() == z3.unsat:
                raise Infeasible()
            return None
        if not it.truth(c):
            raise Infeasible()

    def d_index(self, it, n, lo, hi):
        """an arbitrary index (registered for quantified facts)"""
        v = self.d_int(it, n, lo, hi)
        P().new_index(v.e)
        return v

    # -------------------------------------------------------- obligations
    def d_eq(self, it, a, b, label='eq'):
        p = P()
        if p.check() == z3.unsat:
            raise Infeasible()
        if proof.deep_eq(it, a, b):
            self.run.ok(label)
            return None
        self.run.fail(label, 'left  = %s\nright = %s' % (
            show(it, a), show(it, b)), it, a, b)

    def d_check(self, it, c, label='check'):
        p = P()
        if isinstance(c, SBool):
            if p.provable(c.e):
                self.run.ok(label)
                return None
            p.assume_expr(z3.Not(c.e))
            self.run.fail(label, 'not implied: %s' % S(c.e)[:2000])
        if it.truth(c):
            self.run.ok(label)
        else:
            if p.check() == z3.unsat:
                raise Infeasible()
            self.run.fail(label, 'is false')

    def d_reached(self, it, label):
        if P().check() == z3.unsat:
            raise Infeasible()
        self.run.ok(label)


def show(it, v, depth=0):
    p = P()
    if depth > 6:
        return '...'
    if isinstance(v, Ref):
        rec = p.heap.get(v.id)
        if rec is None:
            return repr(v)
        t = type(rec).__name__
        if t == 'HObj':
            return '%s{%s}' % (rec.cls.__name__, ', '.join(
                '%s=%s' % (k, show(it, x, depth + 1))
                for k, x in rec.attrs.items()))
        if t == 'HList':
            return '[%s]' % ', '.join(show(it, s, depth + 1)
                                      for s in rec.segs)
        if t == 'HBA':
            return 'ba' + repr(rec.rope)
        return t
    if isinstance(v, LItem):
        return show(it, v.v, depth)
    if isinstance(v, LMap):
        return 'Map(%s in %s..%s: %s)' % (S(v.k), S(v.lo), S(v.hi),
                                          show(it, v.v, depth + 1))
    if isinstance(v, STup):
        return '(%s)' % ', '.join(show(it, s, depth + 1) for s in v.segs)
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(it, s, depth + 1) for s in v)
    if isinstance(v, R.ListCases):
        return 'cases(%s)' % '; '.join('%s: %s' % (S(c), show(it, x))
                                       for c, x in v.cs)
    return repr(v)


class Run:
    """bookkeeping of one theorem on one network"""

    def __init__(self):
        self.leaves = {}
        self.obs = {}          # label -> [proved count, failures]
        self.failures = []
        self.paths = 0

    def ok(self, label):
        self.obs.setdefault(label, 0)
        self.obs[label] += 1

    def fail(self, label, detail, it=None, a=None, b=None):
        p = P()
        self.obs.setdefault(label, 0)
        self.failures.append((label, detail, self.model(p)))
        raise ObligationFailed(label)

    def model(self, p):
        """concrete leaf values for the current path"""
        try:
            small = [z3.Int(n) for n, r in self.leaves.items()
                     if n.endswith('.n') and r['nidx'] == 0]
            small += [z3.Int(n + '.len') for n, r in self.leaves.items()
                      if r['kind'] == 'bytes' and r['nidx'] == 0
                      and r['len'] is None]
            if 'gf' in p.intern or any(r['kind'] == 'letters'
                                       for r in self.leaves.values()):
                return self.bit_model(p)
            m = p.model_of(small=small)
            if m is None:
                return None
            return self.concretise(m)
        except (z3.Z3Exception, Unsupported):
            return None

    def bit_model(self, p):
        """an assignment of the bits, and a model that has these bits"""
        import random
        from dv import bits
        rng = random.Random(1)
        for t in range(20):
            x = bits.solution(p, rng)
            if any(all(not bits.holds(x, f) for f in k)
                   for k in p.intern.get('gfne', ())):
                continue
            extra = []
            for k, n in list(p.intern.items()):
                if k[0] == 'width':
                    e = bits.WIDTH_TERMS.get(k[1])
                    if e is not None:
                        extra.append(e == sum(
                            bits.holds(x, bits.atom((k[1], i), e)) << i
                            for i in range(n)))
            m = p.model_of(*extra)
            if m is not None:
                return self.concretise(m, x)
        m = p.model_of()
        return None if m is None else self.concretise(m, x)

    def concretise(self, m, bitvals=0):
        vals = {}

        def ev(name, idx):
            if not idx:
                e = z3.Int(name)
            else:
                f = z3.Function(name, *([z3.IntSort()] * (len(idx) + 1)))
                e = f(*[z3.IntVal(i) for i in idx])
            v = m.eval(e, model_completion=True)
            v = v.as_long()
            rf = R.RANGE.get(name)
            if idx and rf is not None:
                c = [z3.simplify(x) for x in rf(z3.IntVal(v))]
                if not all(z3.is_true(x) for x in c):
                    # unconstrained element: use the lower bound
                    for x in rf(z3.Int('_v')):
                        if x.decl().kind() == z3.Z3_OP_GE:
                            v = x.arg(1).as_long()
            return v
        lists = {n: r for n, r in self.leaves.items() if r['kind'] == 'list'}

        def instances(name, nidx):
            """all index tuples of a leaf with nidx indices"""
            if nidx == 0:
                return [()]
            # enclosing lists: prefixes of the name that are lists
            parts = name.split('.')
            encl = []
            for i in range(1, len(parts)):
                pre = '.'.join(parts[:i])
                if pre in lists:
                    encl.append(pre)
            encl = encl[-nidx:] if len(encl) >= nidx else encl
            out = [()]
            for l in encl:
                nxt = []
                for t in out:
                    n = ev(l + '.n', t)
                    for j in range(min(max(n, 0), 300)):
                        nxt.append(t + (j,))
                out = nxt
            return out

        def cname(name, idx):
            """ins.value with idx (3,) -> ins[3].value"""
            parts = name.split('.')
            out = []
            idx = list(idx)
            for i in range(len(parts)):
                pre = '.'.join(parts[:i + 1])
                if pre in lists and idx and i < len(parts) - 1 and not (
                        parts[i + 1] == 'n' and i == len(parts) - 2):
                    out.append('%s[%d]' % (parts[i], idx.pop(0)))
                else:
                    out.append(parts[i])
            return '.'.join(out)
        for n, r in self.leaves.items():
            if r['kind'] == 'list':
                continue
            if r['kind'] == 'letters':
                from dv import bits
                ab = r['alphabet']
                k = max(1, (len(ab) - 1).bit_length())
                vals[n] = ''.join(ab[min(len(ab) - 1, sum(
                    bits.holds(bitvals, bits.atom(('letter', n, i, b))) << b
                    for b in range(k)))] for i in range(r['len']))
                continue
            for idx in instances(n, r['nidx']):
                if r['kind'] in ('int', 'bool'):
                    vals[cname(n, idx)] = ev(n, idx)
                else:
                    ln = r['len'] if r['len'] is not None else ev(
                        n + '.len', idx)
                    ln = max(0, min(ln, 70000))
                    bs = []
                    for j in range(min(ln, 600)):
                        v = ev(n + '.b', tuple(idx) + (j,))
                        bs.append(v % 256)
                    bs += [0] * (ln - len(bs))
                    vals[cname(n, idx)] = bytes(bs).hex()
        return vals
