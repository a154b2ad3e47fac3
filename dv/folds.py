"""Loops as functions of the state in which they are entered.

For theorems that are steps of an induction (option folds).  A loop of
unknown many iterations ends in a state of which only an invariant is known:
the modified variables keep their types, bounds (v >= 0, v < 2**32, v < 2**64)
and relations "number = length of byte string" that hold at entry and are
preserved by an arbitrary iteration.  But loops are deterministic: entered
again in the same state, the loop ends in the same state.  What is only
appended to does not count as part of the state of entry: the loop appends the
same bytes whatever was there before.
"""
import ast
import z3

from dv.core import (
    P, STATS, SInt, SBool, Ref, HObj, HList, HBA, HDict, HSet, HHash, HIter,
    PyRaise, Unsupported, Infeasible, ie, simp, zi)
from dv import ropes as R, strs
from dv.ropes import Rope, LItem
from dv.interp import (ReturnSig, BreakSig, ContinueSig, LoopExit, UNDEF,
                       POISON, Closure, BoundMethod)


BOUNDS = [('nonneg', lambda e: e >= 0),
          ('w32', lambda e: z3.And(e >= 0, e < 2 ** 32)),
          ('w64', lambda e: z3.And(e >= 0, e < 2 ** 64))]


def is_int(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool)


def bounds_of(v):
    return [n for n, f in BOUNDS if P().provable(f(zi(ie(v))))]


class Var:
    """a location the loop modifies"""

    def __init__(self, key, sample):
        self.key = key
        self.sample = sample
        self.bounds = None
        self.rel = None         # key of the byte string it is the length of
        self.delta = None       # what an iteration adds to it
        self.acc = False
        self.dead = False       # written before it is read


def int_list(v):
    """the numbers in a list of known length"""
    p = P()
    if not isinstance(v, Ref) or not isinstance(p.heap.get(v.id), HList):
        return None
    segs = p.heap[v.id].segs
    if not all(isinstance(s, LItem) and is_int(s.v) for s in segs):
        return None
    return [s.v for s in segs]


def fold_loop(it, fr, node, seg, lo, hi, at, body):
    from dv.loops import frame_chain, get_loc, set_loc, same_val
    p = P()
    STATS.loops += 1
    chain = frame_chain(fr)
    if hi is not None and not p.branch(zi(lo) < zi(hi)):
        return False
    entry_env = [dict(f.env) for f in chain]
    entry_heap = dict(p.heap)
    entry_glob = dict(p.globals)
    vs = {}
    kname = p.fresh_int('wk')

    def at_entry(key):
        if key[0] == 'loc':
            return entry_env[key[1]].get(key[2], UNDEF)
        rec = entry_heap[key[1]]
        if key[0] == 'attr':
            return rec.attrs.get(key[2], UNDEF)
        return rec.rope if isinstance(rec, (HBA, HHash)) else rec

    def restore_env():
        for f, e in zip(chain, entry_env):
            f.env = dict(e)

    def fresh_rope():
        n = p.fresh_int('hn')
        p.assume_expr(n >= 0)
        return Rope((R.Sub(R.Atom(p.fresh('hr'), (), n), 0, n),))

    def like(v, bounds, i=0):
        if isinstance(v, (bool, SBool)):
            return SBool(z3.Bool(p.fresh('hb')))
        if is_int(v):
            e = p.fresh_int('hv')
            for n in bounds or ():
                p.assume_expr(dict(BOUNDS)[n](e))
            return SInt(e)
        if isinstance(v, (bytes, Rope)):
            return fresh_rope()
        xs = int_list(v)
        if xs is not None:
            return it.new_list([LItem(like(x, b)) for x, b in zip(
                xs, bounds or [()] * len(xs))])
        return POISON

    def havoc():
        """an arbitrary state that satisfies the invariant"""
        out = {}
        kk = p.fresh_int('hk')
        p.assume_expr(kk >= 0)
        for key in sorted(vs, key=lambda k: vs[k].rel is not None):
            v = vs[key]
            if v.rel is not None:
                x = SInt(zi(R.rope_len(out[v.rel])))
            else:
                x = like(v.sample, v.bounds)
            if v.delta:
                p.assume_expr(zi(ie(x)) == zi(ie(at_entry(key)))
                              + v.delta * kk)
            out[key] = x
            set_loc(chain, key, x)
        return out

    def step(j):
        p.assume_expr(zi(lo) <= j)
        if hi is not None:
            p.assume_expr(j < zi(hi))
        if p.check() == z3.unsat:
            raise Infeasible()
        body(at(j))

    def value_bounds(v):
        xs = int_list(v)
        if xs is not None:
            return [bounds_of(x) for x in xs]
        return bounds_of(v) if is_int(v) else None

    class Out:
        pass

    def trial():
        depth = it.depth
        o = Out()
        try:
            o.pre = havoc()
            n0 = len(p.pc)
            try:
                step(kname)
                o.kind = 'normal'
            except ContinueSig:
                o.kind = 'normal'
            except BreakSig:
                o.kind = 'break'
            except LoopExit:
                o.kind = 'end'
            except ReturnSig:
                raise Unsupported('return in a loop')
            except PyRaise:
                o.kind = 'raise'
            o.env = [dict(f.env) for f in chain]
            o.pc = list(p.pc[n0:])
            o.post = {k: get_loc(chain, k) for k in vs}
            o.names = {k: names_in(x) for k, x in o.post.items()}
            o.bounds = {k: value_bounds(x) for k, x in o.post.items()}
            o.deltas = {k: constant_step(o.pre[k], x)
                        for k, x in o.post.items()}
            o.rels = {k: holds_rel(o.post[k], o.post[v.rel])
                      for k, v in vs.items() if v.rel is not None}
            return o
        finally:
            restore_env()
            it.depth = depth

    def holds_rel(x, r):
        return is_int(x) and isinstance(r, (bytes, Rope)) and p.provable(
            zi(ie(x)) == zi(R.rope_len(it.rope(r))))

    def constant_step(a, b):
        if not is_int(a) or not is_int(b):
            return None
        d = simp(zi(ie(b)) - zi(ie(a)))
        return d if isinstance(d, int) else None

    def weaker(a, b):
        """bounds of a that b has as well"""
        if a and isinstance(a[0], list):
            if not b or len(a) != len(b) or not isinstance(b[0], list):
                raise Unsupported('a list changes its shape in a loop')
            return [[n for n in x if n in y] for x, y in zip(a, b)]
        return [n for n in a or () if n in (b or ())]

    def new_vars(o):
        found = False

        def add(key, sample, now):
            nonlocal found
            v = Var(key, sample)
            v.bounds = value_bounds(sample) if sample is not UNDEF and \
                key[0] != 'rec' else None
            if o.res.kind == 'normal':
                v.delta = constant_step(sample, now)
            vs[key] = v
            found = True
        for i, e in enumerate(o.res.env):
            for n, x in e.items():
                key = ('loc', i, n)
                old = entry_env[i].get(n, UNDEF)
                if n == '__exc__' or key in vs or \
                        old is not UNDEF and same_val(old, x):
                    continue
                add(key, old, x)
        for rid, rec in entry_heap.items():
            now = o.heap.get(rid)
            if now is rec or now is None:
                continue
            if isinstance(rec, HObj):
                for n in set(rec.attrs) | set(now.attrs):
                    key = ('attr', rid, n)
                    old = rec.attrs.get(n, UNDEF)
                    if key not in vs and not same_val(
                            old, now.attrs.get(n, UNDEF)):
                        add(key, old, now.attrs.get(n))
                continue
            key = ('rec', rid)
            if key in vs:
                continue
            if not isinstance(rec, HBA):
                raise Unsupported('loop mutates a %s' % type(rec).__name__)
            if not same_val(rec.rope, now.rope):
                add(key, b'', None)
        if o.globals != entry_glob:
            raise Unsupported('loop writes global state')
        return found

    def find_invariant():
        for rounds in range(30):
            outs = p.sub_explore(trial)
            new = False
            for o in outs:
                new |= new_vars(o)
            if new:
                ropes = [k for k in vs if isinstance(
                    at_entry(k), (bytes, Rope))]
                for k, v in vs.items():
                    x = at_entry(k)
                    if is_int(x) and v.rel is None:
                        for r in ropes:
                            if holds_rel(x, at_entry(r)):
                                v.rel = r
                                break
                continue
            for k, v in vs.items():
                ds = {o.res.deltas[k] for o in outs if o.res.kind == 'normal'}
                if v.delta is None and is_int(at_entry(k)):
                    v.delta = ds.pop() if len(ds) == 1 else False
                    v.delta = v.delta or False
                    new |= v.delta is not False
                elif v.delta and ds != {v.delta}:
                    v.delta = False
                    new = True
            if new:
                continue
            for o in outs:
                if o.res.kind != 'normal':
                    continue
                for k, v in vs.items():
                    if v.rel is not None and not o.res.rels[k]:
                        v.rel = None
                        new = True
                    if v.bounds:
                        w = weaker(v.bounds, o.res.bounds[k])
                        if w != v.bounds:
                            v.bounds = w
                            new = True
            if not new:
                break
        else:
            raise Unsupported('loop invariant did not converge')

        # what is only appended to
        for k, v in vs.items():
            v.acc = isinstance(at_entry(k), (bytes, Rope)) and all(
                appends(it, o.res, k, vs) for o in outs)
        for k, v in vs.items():
            v.dead = not v.acc and k[0] == 'loc' and all(
                unread(o.res, k) for o in outs)
        kinds = sorted({o.res.kind for o in outs if o.res.kind != 'normal'})
        if hi is not None:
            kinds.append('done')
        if ckey:
            it.fold_cache[ckey] = ([(k, {
                n: x for n, x in v.__dict__.items()
                if n not in ('key', 'sample')}) for k, v in vs.items()],
                kinds, p.fresh_n)
        return kinds

    found = known(it, fr, node, seg, lo, hi)
    if found is not None:
        (e, kind, exc, final), iso = found
        for k in final:
            k2 = image(k, iso)
            vs[k2] = Var(k2, None)
            vs[k2].acc = k in e.acc

    # the same decisions lead to the same state
    ckey = None if p.sub else (
        id(node), tuple(p.trace), p.fresh_n, p.next_ref)
    cached = it.fold_cache.get(ckey) if ckey else None
    if found is not None:
        pass
    elif cached is not None:
        found_vs, kinds, p.fresh_n = cached
        for k, attrs in found_vs:
            vs[k] = Var(k, at_entry(k) if k[0] != 'rec' else b'')
            vs[k].__dict__.update(attrs)
    else:
        kinds = find_invariant()
    if found is None:
        sig = Entry(it, chain, node, seg, lo, hi, vs,
                    {k[2] for k, v in vs.items() if v.dead})
        found = sig.find()
    if found is None:
        kind = kinds[p.choose(len(kinds))] if len(kinds) > 1 else kinds[0]
        tails = {}
        out = havoc()
        for k, v in vs.items():
            if v.acc:
                tails[k] = out[k]
                e = at_entry(k)
                set_loc(chain, k, R.rcat(it.rope(e), it.rope(out[k])))
        exc = None
        if kind != 'done':
            j = p.fresh_int('hj')
            got = 'normal'
            try:
                step(j)
            except ContinueSig:
                pass
            except BreakSig:
                got = 'break'
            except LoopExit:
                got = 'end'
            except PyRaise as e:
                got, exc = 'raise', e
            if got != kind:
                raise Infeasible()
        final = {}
        for k, v in vs.items():
            x = get_loc(chain, k)
            if v.acc and kind != 'raise':
                e = it.rope(at_entry(k))
                x = R.rope_slice(it.rope(x), R.rope_len(e), None)
            if v.dead:
                x = POISON
                set_loc(chain, k, x)
            final[k] = x
        p.intern['folds'] = p.intern.get('folds', ()) + (
            (sig, kind, exc, final),)
    else:
        (old, kind, exc, final), iso = found
        for k, x in final.items():
            k2 = (k[0], iso[k[1]]) + k[2:] if k[0] != 'loc' else k
            if vs[k2].acc and kind != 'raise':
                x = R.rcat(it.rope(at_entry(k2)), it.rope(x))
            xs = int_list(x)
            if xs is not None:
                x = it.new_list([LItem(y) for y in xs])
            set_loc(chain, k2, x)
    if kind == 'raise':
        if found is not None:
            exc = it.exc(exc.exc.cls, strs.unknown())
        raise exc
    return kind == 'break'


def known(it, fr, node, seg, lo, hi):
    """has the loop been entered before in the same state?"""
    from dv.loops import frame_chain
    p = P()
    for e in p.intern.get('folds', ()):
        if e[0].node is not node:
            continue
        b = Entry(it, frame_chain(fr), node, seg, lo, hi, None, e[0].dead)
        m = Match(it, e[0], b)
        if m.same() and all(image(k, m.iso)[1] is not None for k in e[3]) \
                and all(b.is_bytes(m.image(k)) for k in e[0].acc):
            return e, m.iso
    return None


def image(k, iso):
    return k if k[0] == 'loc' else (k[0], iso.get(k[1])) + k[2:]


def names_in(v):
    out = set()
    R.val_consts(v, out, set())
    return out | R.atoms_in(v)


def appends(it, o, key, vs):
    """the outcome of an iteration only appends to the byte string"""
    pre, post = o.pre[key], o.post[key]
    a = pre.segs[0].a
    names = {a.name, a.length.decl().name()}
    if o.kind in ('normal', 'break', 'end'):
        segs = it.rope(post).segs
        if not segs or not isinstance(segs[0], R.Sub) or \
                segs[0].a.name != a.name or not R.seg_same(
                    segs[0], pre.segs[0]):
            return False
        rest = Rope(tuple(segs[1:]))
    else:
        rest = None
    if R.value_mentions(rest, names) or any(
            o.names[k] & names for k in o.post if k != key):
        return False
    return not any(n in e.sexpr() for n in names for e in o.pc)


def unread(o, key):
    """the iteration does not depend on the value of the variable"""
    pre = o.pre[key]
    if pre is POISON:
        return True
    out = set()
    R.val_consts(pre, out, set())
    out |= R.atoms_in(pre)
    if isinstance(pre, SBool):
        out.add(pre.e.decl().name())
    if not out:
        return False
    if any(o.names[k] & out for k, x in o.post.items()
           if k != key or x is not pre):
        return False
    return not any(n in e.sexpr() for n in out for e in o.pc)


class Entry:
    """the state in which a loop is entered: what it may read"""

    def __init__(self, it, chain, node, seg, lo, hi, vs, dead):
        p = P()
        self.it = it
        self.node = node
        self.seg = seg
        self.hi = hi
        self.lo = lo
        # None: as in the state this one is compared with
        self.acc = None if vs is None else {
            k for k, v in vs.items() if v.acc}
        self.dead = dead
        self.env = {n: x for n, x in resolve_names(node, chain).items()
                    if n not in dead}
        self.heap = dict(p.heap)
        self.globals = dict(p.globals)
        self.chain = chain

    def is_bytes(self, key):
        if key[0] == 'loc':
            v = self.chain[key[1]].env.get(key[2])
        elif key[0] == 'attr':
            v = self.heap[key[1]].attrs.get(key[2])
        else:
            return isinstance(self.heap[key[1]], HBA)
        return isinstance(v, (bytes, Rope))

    def find(self):
        for e in P().intern.get('folds', ()):
            m = Match(self.it, e[0], self)
            if m.same():
                return e, m.iso
        return None


def resolve_names(node, chain):
    out = {}
    if isinstance(node, tuple):
        node = node[0]
    todo = [node]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.For) and n is node:
            # the collection has been evaluated
            todo.extend([n.target] + n.body)
            continue
        if isinstance(n, ast.Raise):
            # what the message says does not matter
            if isinstance(n.exc, ast.Call):
                todo.append(n.exc.func)
            continue
        todo.extend(ast.iter_child_nodes(n))
        if isinstance(n, ast.Name):
            for i, f in enumerate(chain):
                if n.id in f.env:
                    out[n.id] = (i, f.env[n.id])
                    break
            else:
                out[n.id] = None
    return out


class Match:
    def __init__(self, it, a, b):
        self.it = it
        self.a = a
        self.b = b
        self.iso = {}

    def same(self):
        a, b = self.a, self.b
        if a.node is not b.node or set(a.env) != set(b.env) \
                or a.globals != b.globals or (a.hi is None) != (
                    b.hi is None):
            return False
        if a.seg is not None and not self.same_seg(a.seg, b.seg):
            return False
        if a.hi is not None and not (self.eq(a.lo, b.lo)
                                     and self.eq(a.hi, b.hi)):
            return False
        for n in a.env:
            x, y = a.env[n], b.env[n]
            if (x is None) != (y is None):
                return False
            if x is None:
                continue
            if x[0] != y[0]:
                return False
            ka, kb = ('loc', x[0], n), ('loc', y[0], n)
            if ka in a.acc and (b.acc is None or kb in b.acc):
                continue
            if not self.eq(x[1], y[1]):
                return False
        # every accumulator of one is an accumulator of the other
        return b.acc is None or {self.image(k) for k in a.acc} == b.acc

    def image(self, k):
        return k if k[0] == 'loc' else (k[0], self.iso.get(k[1])) + k[2:]

    def same_seg(self, s, t):
        k = P().fresh_int('ik')
        return self.eq(R.inst_map(s, k), R.inst_map(t, k))

    def eq(self, x, y, depth=0):
        p = P()
        if depth > 12:
            return False
        if x is UNDEF or y is UNDEF or x is None or y is None:
            return x is y
        if isinstance(x, (bool, SBool)) or isinstance(y, (bool, SBool)):
            if not (isinstance(x, (bool, SBool))
                    and isinstance(y, (bool, SBool))):
                return False
            return x is y or p.provable(zi(ie(x)) == zi(ie(y)))
        if is_int(x) and is_int(y):
            return p.provable(zi(ie(x)) == zi(ie(y)))
        if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
            return p.provable(zi(x) == zi(y))
        if isinstance(x, (bytes, Rope)) and isinstance(y, (bytes, Rope)):
            return R.req(self.it.rope(x), self.it.rope(y))
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(
                self.eq(i, j, depth + 1) for i, j in zip(x, y))
        if isinstance(x, BoundMethod) and isinstance(y, BoundMethod):
            return self.eq(x.func, y.func, depth + 1) and self.eq(
                x.self_, y.self_, depth + 1)
        if isinstance(x, Closure) and isinstance(y, Closure):
            return self.closures(x, y, depth)
        if isinstance(x, Ref) and isinstance(y, Ref):
            return self.refs(x, y, depth)
        return x is y

    def closures(self, x, y, depth):
        if x is y:
            return True
        if x.node is not y.node or x.defaults or y.defaults or \
                x.kwdefaults or y.kwdefaults:
            return False
        from dv.loops import frame_chain
        a = resolve_names(x.node, frame_chain(x.frame))
        b = resolve_names(y.node, frame_chain(y.frame))
        for n in a:
            u, v = a[n], b[n]
            if (u is None) != (v is None):
                return False
            if u is not None and not self.eq(u[1], v[1], depth + 1):
                return False
        return True

    def refs(self, x, y, depth):
        if x.id in self.iso:
            return self.iso[x.id] == y.id
        if y.id in self.iso.values():
            return False
        self.iso[x.id] = y.id
        u, v = self.a.heap.get(x.id), self.b.heap.get(y.id)
        if type(u) is not type(v) or u is None:
            return False
        if isinstance(u, HObj):
            if u.cls is not v.cls or set(u.attrs) != set(v.attrs):
                return False
            for n in sorted(u.attrs):
                if ('attr', x.id, n) in self.a.acc and (
                        self.b.acc is None
                        or ('attr', y.id, n) in self.b.acc):
                    continue
                if not self.eq(u.attrs[n], v.attrs[n], depth + 1):
                    return False
            return True
        if isinstance(u, HBA):
            if ('rec', x.id) in self.a.acc and (
                    self.b.acc is None or ('rec', y.id) in self.b.acc):
                return True
            return R.req(u.rope, v.rope)
        if isinstance(u, HList):
            if len(u.segs) != len(v.segs):
                return False
            for s, t in zip(u.segs, v.segs):
                if not (isinstance(s, LItem) and isinstance(t, LItem)):
                    return False
                if not self.eq(s.v, t.v, depth + 1):
                    return False
            return True
        return x.id == y.id and u is v
