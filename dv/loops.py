"""Loops over collections of symbolic length.

A loop over concrete items is unrolled.  A loop over a symbolic family
(LMap segment) or a while loop is handled by induction: the body is executed
once, at an arbitrary iteration k, from an abstract state in which every
location the loop modifies holds its claimed value after k iterations (the
loop invariant).  The invariants are found by the engine (accumulated
concatenation, appended list, counter, parse cursor, last value) and each one
is *checked*: the state after the body must be the claimed state after k+1
iterations, for every path through the body.
"""
import ast
import z3

from dv.core import (
    P, S, STATS, SInt, SBool, Ref, HObj, HList, HBA, HDict, HSet, HHash,
    HIter, ExcVal, Opaque, PyRaise, Unsupported, Infeasible, mk_int, mk_bool,
    ie, simp, zi, same, zadd, zsub)
from dv import ropes as R
from dv.ropes import (Rope, SStr, STup, Lit, LItem, LMap, LAcc, LFlat, Cat,
                      Cases)
from dv.interp import (ReturnSig, BreakSig, ContinueSig, Frame, LoopExit,
                       UNDEF, POISON)


# ---------------------------------------------------------------- frontend

def exec_for(it, s, fr):
    segs = it.iter_segs(it.ev(s.iter, fr))

    def body(v):
        it.assign(s.target, v, fr)
        it.exec_block(s.body, fr)
    broke = False
    for seg in segs:
        if isinstance(seg, LItem):
            try:
                body(seg.v)
            except ContinueSig:
                continue
            except BreakSig:
                broke = True
                break
        elif isinstance(seg, (LMap, LFlat)):
            if run_map(it, seg, fr, body, s):
                broke = True
                break
        else:
            raise Unsupported('loop over %r' % (seg,))
    if not broke and s.orelse:
        it.exec_block(s.orelse, fr)


def exec_while(it, s, fr):
    # unroll as long as the condition is decided without forking
    p = P()
    n = 0
    while True:
        if walks(it, s.test, fr):
            m = stage(it, s, fr)
            if m is None:
                break

            def turn(_):
                if not it.truth(it.ev(s.test, fr)):
                    raise BreakSig()
                it.exec_block(s.body, fr)
            if run_loop(it, fr, 0, m, p.fresh_int('wk'), (),
                        lambda j: None, turn):
                return
            continue
        c = decided(it, s.test, fr)
        if c is None:
            break
        if not c:
            if s.orelse:
                it.exec_block(s.orelse, fr)
            return
        if it.folds and s in it.fold_nodes:
            from dv.folds import known
            if known(it, fr, s, None, 0, None):
                break
        n += 1
        if n > 5000:
            raise Unsupported('loop does not end')
        try:
            it.exec_block(s.body, fr)
        except ContinueSig:
            continue
        except BreakSig:
            return

    def body(_):
        if not it.truth(it.ev(s.test, fr)):
            raise LoopExit()
        it.exec_block(s.body, fr)
    if it.unroll:
        k = 0
        while True:
            k += 1
            if k > it.unroll:
                raise Infeasible()
            try:
                body(None)
            except ContinueSig:
                continue
            except BreakSig:
                return
            except LoopExit:
                break
    elif it.folds and s in it.fold_nodes:
        from dv.folds import fold_loop
        if pure(s.test) and not it.truth(it.ev(s.test, fr)):
            pass
        elif fold_loop(it, fr, s, None, 0, None, lambda j: None, body):
            return
    elif (havoc_loop if it.weak else foldable(s) if it.folds else run_loop)(
            it, fr, 0, None, p.fresh_int('wk'), (), lambda j: None, body):
        return
    if s.orelse:
        it.exec_block(s.orelse, fr)


def foldable(node):
    """a loop without an invariant is taken as a function of its state"""
    def run(it, *args):
        from dv.core import Retry
        try:
            return run_loop(it, *args)
        except Unsupported:
            it.fold_nodes.add(node)
            raise Retry()
    return run


def long_cat(s):
    return isinstance(s, R.Cat) and not isinstance(
        simp(zsub(s.hi, s.lo)), int)


def test_ropes(test, fr):
    """byte strings of unknown many elements the condition speaks of"""
    p = P()
    out = []
    for n in ast.walk(test):
        if isinstance(n, ast.Name):
            v = fr.env.get(n.id)
            if isinstance(v, Ref) and isinstance(p.heap.get(v.id), HBA):
                v = p.heap[v.id].rope
            if isinstance(v, Rope) and any(long_cat(s) for s in v.segs):
                out.append(v)
    return out


def cursor_seg(test, fr, r):
    """the place in a rope at which an integer of the condition stands"""
    p = P()
    for n in ast.walk(test):
        if not isinstance(n, ast.Name):
            continue
        v = fr.env.get(n.id)
        if isinstance(v, bool) or not isinstance(v, (int, SInt)):
            continue
        off = 0
        for i, s in enumerate(r.segs):
            if isinstance(off, int) and isinstance(v, int):
                if off == v:
                    return i
            elif p.provable(zi(off) == zi(ie(v))):
                return i
            off = simp(zadd(off, R.seg_len(s)))
    return None


def walks(it, test, fr):
    """the condition speaks of a byte string of unknown many elements"""
    if it.unroll:
        return False
    for r in test_ropes(test, fr):
        i = cursor_seg(test, fr, r)
        if i is None or long_cat(r.segs[i]):
            return True
    return False


def stage(it, s, fr):
    """the number of iterations that read the repetition the loop is at,
    when something follows"""
    if it.weak or s.orelse:
        return None
    for r in test_ropes(s.test, fr):
        i = cursor_seg(s.test, fr, r)
        if i is not None and long_cat(r.segs[i]) and i + 1 < len(r.segs):
            return simp(zsub(r.segs[i].hi, r.segs[i].lo))
    return None


def decided(it, test, fr):
    """value of a side-effect free condition if decided, else None"""
    p = P()
    if not pure(test):
        return it.truth(it.ev(test, fr))

    def fn():
        return it.truth(it.ev(test, fr))
    snap_n = p.fresh_n
    try:
        outs = p.sub_explore(fn, limit=6)
    except PyRaise:
        return None
    p.fresh_n = max(p.fresh_n, snap_n)
    vals = {o.res for o in outs}
    if len(vals) == 1:
        return vals.pop()
    if not vals:
        raise Infeasible()
    return None


def pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom)):
            return False
        if isinstance(n, ast.Call) and not (
                isinstance(n.func, ast.Name) and n.func.id in (
                    'len', 'isinstance', 'abs', 'min', 'max', 'any', 'all',
                    'bool', 'int')):
            return False
    return True


def comprehension(it, e, fr):
    acc = it.new_list(())
    cf = Frame(fr.globals, fr, fr.clsname, fr.cls, fr.name)
    cf.selfval = fr.selfval
    p = P()

    def gen(i):
        if i == len(e.generators):
            v = it.ev(e.elt, cf)
            p.put(acc, HList(p.get(acc).segs + (LItem(v),)))
            return
        g = e.generators[i]
        segs = it.iter_segs(it.ev(g.iter, cf if i else fr))

        def body(v):
            it.assign(g.target, v, cf)
            for c in g.ifs:
                if not it.truth(it.ev(c, cf)):
                    return
            gen(i + 1)
        for seg in segs:
            if isinstance(seg, LItem):
                body(seg.v)
            else:
                run_map(it, seg, cf, body)
    gen(0)
    return list(p.get(acc).segs)


def map_segs(it, segs, fn):
    """apply fn to every element"""
    acc = it.new_list(())
    p = P()
    cf = Frame({})

    def body(v):
        r = fn(v)
        p.put(acc, HList(p.get(acc).segs + (LItem(r),)))
    for seg in segs:
        if isinstance(seg, LItem):
            body(seg.v)
        else:
            run_map(it, seg, cf, body)
    return list(p.get(acc).segs)


def try_merge_if(it, s, fr):
    m = it.hooks.get('merge_if')
    return m(it, s, fr) if m is not None else False


def run_map(it, seg, fr, body, node=None):
    """loop over one symbolic segment; returns True on break"""
    p = P()
    if isinstance(seg, LFlat):
        each = body

        def body(v):
            for x in v:
                try:
                    each(x)
                except ContinueSig:
                    pass
    elif not isinstance(seg, LMap):
        raise Unsupported('loop over %r' % (seg,))
    lo, hi = seg.lo, seg.hi
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
        for j in range(lo, hi):
            try:
                body(R.inst_map(seg, j))
            except ContinueSig:
                continue
            except BreakSig:
                return True
        return False
    if it.unroll:
        n = simp(zsub(zi(hi), zi(lo)))
        j = 0
        while p.branch(zi(n) > j):
            if j >= it.unroll:
                raise Infeasible()
            try:
                body(R.inst_map(seg, simp(zadd(lo, j))))
            except ContinueSig:
                pass
            except BreakSig:
                return True
            j += 1
        return False
    if isinstance(seg, LMap) and isinstance(seg.v, SInt) \
            and not isinstance(hi, int) \
            and p.provable(zi(hi) - zi(lo) <= 4):
        # a range of few numbers
        for j in range(4):
            if not p.branch(zi(lo) + j < zi(hi)):
                break
            try:
                body(R.inst_map(seg, simp(zadd(lo, j))))
            except ContinueSig:
                continue
            except BreakSig:
                return True
        return False
    k = p.fresh_int('lk')
    fn = havoc_loop if it.weak else run_loop
    if it.folds and node is not None and not it.weak:
        varies = R.value_mentions(seg.v, {seg.k.decl().name()})
        if (node, varies) in it.fold_nodes:
            from dv.folds import fold_loop
            return fold_loop(it, fr, node, seg, lo, hi,
                             lambda j: R.inst_map(seg, j), body)
        fn = foldable((node, varies))
    return fn(
        it, fr, lo, hi, k, seg.facts, lambda j: R.inst_map(seg, j), body)


def havoc_loop(it, fr, lo, hi, k, facts, at, body):
    """a loop under the weak invariant that the variables it modifies keep
    their types and integers that start non-negative stay so; used where only
    the exceptions that can be raised matter"""
    from dv import strs
    p = P()
    STATS.loops += 1
    chain = frame_chain(fr)
    if hi is not None and not p.branch(zi(lo) < zi(hi)):
        return False
    entry_env = [dict(f.env) for f in chain]
    entry_heap = dict(p.heap)
    entry_glob = dict(p.globals)
    keys = {}             # location -> non-negative?
    kname = p.fresh_int('wk')

    def restore_env():
        for f, e in zip(chain, entry_env):
            f.env = dict(e)

    def like(v, nonneg):
        if isinstance(v, bool) or isinstance(v, SBool):
            return SBool(z3.Bool(p.fresh('hb')))
        if isinstance(v, (int, SInt)):
            e = p.fresh_int('hv')
            if nonneg:
                p.assume_expr(e >= 0)
            return SInt(e)
        if isinstance(v, (bytes, Rope)):
            n = p.fresh_int('hn')
            p.assume_expr(n >= 0)
            return Rope((R.Sub(R.Atom(p.fresh('hr'), (), n), 0, n),))
        if it.pytype(v) is str:
            return strs.unknown()
        return POISON

    def havoc():
        for key, (nonneg, sample) in keys.items():
            if key[0] == 'rec':
                rec = p.heap[key[1]]
                if isinstance(rec, HBA):
                    p.heap[key[1]] = HBA(like(b'', False))
                elif isinstance(rec, HHash):
                    p.heap[key[1]] = HHash(rec.alg, rec.params,
                                           like(b'', False))
                elif isinstance(rec, HList):
                    n = p.fresh_int('hl')
                    p.assume_expr(n >= 0)
                    p.heap[key[1]] = HList((LMap(
                        p.fresh_int('hk'), 0, n, like(sample, False)),))
                else:
                    raise Unsupported('loop mutates a %s'
                                      % type(rec).__name__)
            else:
                set_loc(chain, key, like(sample, nonneg))

    def step(j):
        p.assume_expr(zi(lo) <= j)
        if hi is not None:
            p.assume_expr(j < zi(hi))
        if p.check() == z3.unsat:
            raise Infeasible()
        body(at(j))

    def trial():
        depth = it.depth
        o = Outcome()
        try:
            havoc()
            try:
                step(kname)
                o.kind = 'normal'
            except ContinueSig:
                o.kind = 'normal'
            except (BreakSig, LoopExit, ReturnSig, PyRaise):
                o.kind = 'leave'
            o.env = [dict(f.env) for f in chain]
            o.bad = []
            for key, (nonneg, sample) in keys.items():
                if nonneg and o.kind == 'normal' and not p.provable(
                        zi(ie(get_loc(chain, key))) >= 0):
                    o.bad.append(key)
            return o
        finally:
            restore_env()
            it.depth = depth

    def elem(rec, new):
        for s in new.segs:
            if isinstance(s, (LItem, LMap)):
                v = s.v
                if it.pytype(v) is str or isinstance(
                        v, (int, SInt, bytes, Rope)):
                    return v
        return UNDEF
    for rounds in range(20):
        outs = p.sub_explore(trial)
        new = False
        for o in outs:
            if o.res.kind != 'normal':
                continue
            for key in o.res.bad:
                if keys[key][0]:
                    keys[key] = (False, keys[key][1])
                    new = True
            for i, e in enumerate(o.res.env):
                for n, v in e.items():
                    key = ('loc', i, n)
                    old = entry_env[i].get(n, UNDEF)
                    if n == '__exc__' or key in keys or \
                            old is not UNDEF and same_val(old, v):
                        continue
                    nonneg = isinstance(old, (int, SInt)) and \
                        not isinstance(old, bool) and p.provable(
                            zi(ie(old)) >= 0)
                    keys[key] = (nonneg, old if old is not UNDEF else None)
                    new = True
            for rid, rec in entry_heap.items():
                now = o.heap.get(rid)
                if now is rec or now is None:
                    continue
                if isinstance(rec, HObj):
                    for n in set(rec.attrs) | set(now.attrs):
                        key = ('attr', rid, n)
                        if key not in keys and not same_val(
                                rec.attrs.get(n, UNDEF),
                                now.attrs.get(n, UNDEF)):
                            keys[key] = (False, rec.attrs.get(n, UNDEF))
                            new = True
                    continue
                key = ('rec', rid)
                if key in keys:
                    continue
                if isinstance(rec, HList):
                    if rec.segs == now.segs:
                        continue
                    keys[key] = (False, elem(rec, now))
                elif isinstance(rec, (HBA, HHash)):
                    if same_val(rec.rope, now.rope):
                        continue
                    keys[key] = (False, b'')
                else:
                    raise Unsupported('loop mutates a %s'
                                      % type(rec).__name__)
                new = True
            if o.globals != entry_glob:
                raise Unsupported('loop writes global state')
        if not new:
            break
    else:
        raise Unsupported('weak loop invariant did not converge')
    # an arbitrary iteration, or the state after the last one
    last = hi is not None and p.choose(2) == 1
    havoc()
    if last:
        return False
    j = p.fresh_int('hj')
    try:
        step(j)
    except ContinueSig:
        raise Infeasible()
    except BreakSig:
        return True
    except LoopExit:
        return False
    raise Infeasible()


# ------------------------------------------------------------ loop state

class Loc:
    """a location modified by the loop, and its invariant"""

    def __init__(self, key, entry, kind):
        self.key = key
        self.entry = entry
        self.kind = kind       # rope, int, list, flag, poison
        self.guesses = []
        self.closed = None     # j -> value  (int kinds)
        self.acc = None        # accumulator atom / LAcc / z3 const
        self.step = None


def frame_chain(fr):
    out = []
    while fr is not None:
        out.append(fr)
        fr = fr.parent
    return out


def get_loc(chain, key):
    p = P()
    if key[0] == 'loc':
        return chain[key[1]].env.get(key[2], UNDEF)
    if key[0] == 'attr':
        return p.heap[key[1]].attrs.get(key[2], UNDEF)
    rec = p.heap[key[1]]
    if isinstance(rec, (HBA, HHash)):
        return rec.rope
    if isinstance(rec, HList):
        return rec.segs
    return rec


def set_loc(chain, key, v):
    p = P()
    if key[0] == 'loc':
        if v is UNDEF:
            chain[key[1]].env.pop(key[2], None)
        else:
            chain[key[1]].env[key[2]] = v
        return
    rec = p.heap[key[1]]
    if key[0] == 'attr':
        a = dict(rec.attrs)
        a[key[2]] = v
        p.heap[key[1]] = HObj(rec.cls, a)
    elif isinstance(rec, HBA):
        p.heap[key[1]] = HBA(v)
    elif isinstance(rec, HHash):
        p.heap[key[1]] = HHash(rec.alg, rec.params, v)
    elif isinstance(rec, HList):
        p.heap[key[1]] = HList(v)
    else:
        p.heap[key[1]] = v


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (SInt, SBool)) and type(a) is type(b):
        return a.e.eq(b.e)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if a is None or isinstance(a, (int, str, bytes)):
        return type(a) is type(b) and a == b
    if isinstance(a, (Rope, SStr, STup)) and type(a) is type(b):
        return repr(a) == repr(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(
            same_val(x, y) for x, y in zip(a, b))
    return False


def classify(v):
    if isinstance(v, (Rope, bytes)):
        return 'rope'
    if isinstance(v, (SInt,)) or (isinstance(v, int)
                                  and not isinstance(v, bool)):
        return 'int'
    if isinstance(v, bool):
        return 'flag'
    if isinstance(v, tuple) and v and isinstance(
            v[0], (LItem, LMap, LAcc, LFlat)):
        return 'list'
    return 'poison'


class Outcome:
    pass


def run_loop(it, fr, lo, hi, k, facts, at, body):
    """induction over iterations lo <= k < hi (hi None: while loop)"""
    p = P()
    STATS.loops += 1
    chain = frame_chain(fr)
    if hi is not None:
        if not p.branch(zi(lo) < zi(hi)):
            return False
    entry_env = [dict(f.env) for f in chain]
    entry_heap = dict(p.heap)
    entry_glob = dict(p.globals)
    base_ref = p.next_ref
    fresh0 = p.fresh_n
    locs = {}
    kname = k.decl().name()
    pre_consts_cache = {}

    def restore_env():
        for f, e in zip(chain, entry_env):
            f.env = dict(e)

    def abstract_state(j, on_main=False):
        """install the state after iterations lo..j-1"""
        for key, L in locs.items():
            set_loc(chain, key, state_at(L, j))

    def state_at(L, j):
        if L.kind == 'rope':
            return R.rcat(Rope((R.Sub(L.acc, 0, L.acc.length),)))
        if L.kind == 'list':
            return (LAcc(L.acc.name, simp(L.len_at(j))),)
        if L.kind == 'int':
            if L.closed is not None:
                return mk_int(L.closed(j))
            return SInt(L.acc)
        return POISON

    def cursor_facts(j):
        for L in locs.values():
            st = getattr(L.closed, 'step', None)
            if st is not None:
                st(j)

    def iterate():
        """one iteration at k, all paths"""
        def fn():
            depth = it.depth
            try:
                p.assume_expr(zi(lo) <= k)
                if hi is not None:
                    p.assume_expr(k < zi(hi))
                for f in facts_at_k:
                    R.add_range_facts(f)
                    p.assume_expr(f)
                p.binders.append(k)
                p.new_index(k)
                for L in locs.values():
                    if L.kind == 'int' and L.closed is None:
                        pass
                    if L.kind == 'rope':
                        p.assume_expr(L.acc.length >= 0)
                abstract_state(k)
                cursor_facts(k)
                if p.check() == z3.unsat:
                    raise Infeasible()
                o = Outcome()
                try:
                    body(at(k))
                    o.kind = 'normal'
                except ContinueSig:
                    o.kind = 'normal'
                except BreakSig:
                    o.kind = 'break'
                except LoopExit:
                    o.kind = 'exit'
                except ReturnSig:
                    o.kind = 'return'
                except PyRaise as e:
                    o.kind = 'raise'
                    o.exc = e.exc
                o.env = [dict(f.env) for f in chain]
                return o
            finally:
                restore_env()
                it.depth = depth
        return p.sub_explore(fn)

    facts_at_k = list(facts)
    if facts:
        facts_at_k = []     # instantiated by at(k)

    def changed(outs):
        keys = []
        for o in outs:
            if o.res.kind != 'normal':
                continue
            for i, e in enumerate(o.res.env):
                base = entry_env[i]
                for n, v in e.items():
                    if n == '__exc__':
                        continue
                    old = base.get(n, UNDEF)
                    key = ('loc', i, n)
                    if key in locs:
                        continue
                    if old is UNDEF or not same_val(old, v):
                        if key not in keys:
                            keys.append(key)
            for rid, rec in entry_heap.items():
                new = o.heap.get(rid)
                if new is rec:
                    continue
                if isinstance(rec, HObj):
                    for n in set(rec.attrs) | set(new.attrs):
                        if not same_val(rec.attrs.get(n, UNDEF),
                                        new.attrs.get(n, UNDEF)):
                            key = ('attr', rid, n)
                            if key not in locs and key not in keys:
                                keys.append(key)
                else:
                    key = ('rec', rid)
                    if key in locs or key in keys:
                        continue
                    if isinstance(rec, (HBA, HHash)):
                        if same_val(rec.rope, new.rope):
                            continue
                    elif isinstance(rec, HList):
                        if rec.segs == new.segs:
                            continue
                    elif isinstance(rec, HIter) and rec.segs == new.segs:
                        continue
                    elif isinstance(rec, HDict) and \
                            rec.items == new.items:
                        continue
                    keys.append(key)
            if o.globals != entry_glob:
                raise Unsupported('loop writes global state')
        return keys

    def new_loc(key):
        v = get_loc(chain, key)
        if key[0] == 'rec':
            rec = p.heap[key[1]]
            if isinstance(rec, (HBA, HHash)):
                kind = 'rope'
            elif isinstance(rec, HList):
                kind = 'list'
            else:
                raise Unsupported('loop mutates a %s'
                                  % type(rec).__name__)
        else:
            kind = classify(v)
        L = Loc(key, v, kind)
        if kind == 'rope':
            n = p.fresh_int('acc')
            L.acc = R.Atom('acc!' + n.decl().name(), (), n)
        elif kind == 'list':
            L.acc = LAcc('acc!' + p.fresh('l'), None)
            L.entry_len = R.list_len(v)
            L.per = 1
            L.len_at = lambda j, L=L: zadd(
                L.entry_len, zsub(zi(j), zi(lo)) * L.per
                if L.per is not None else L.unk)
        elif kind == 'int':
            L.acc = z3.Int('acc!' + p.fresh('i'))
            L.guesses = cursor_guesses(v)
            if L.guesses:
                L.closed = L.guesses[0]
        return L

    def cursor_guesses(v):
        """closed forms for an integer that walks over a Cat segment"""
        out = []
        e0 = ie(v)
        ropes = []
        for f in chain:
            for x in f.env.values():
                if isinstance(x, Rope):
                    ropes.append(x)
                elif isinstance(x, Ref) and isinstance(
                        p.heap.get(x.id), HBA):
                    ropes.append(p.heap[x.id].rope)
        for r in ropes:
            off = 0
            for s in r.segs:
                if isinstance(s, Cat):
                    e = R.rope_len(s.rope)
                    at0 = off
                    for t0 in range(3):
                        # the cursor is at element t0
                        if p.provable(zi(at0) == zi(e0)):
                            g = cursor_guess(s, e, off, t0)
                            if g is not None:
                                out.append(g)
                            break
                        if not p.provable(zi(s.lo) + t0 < zi(s.hi)):
                            break
                        at0 = simp(zadd(at0, R.sub_e(e, [
                            (s.k, zi(simp(zadd(s.lo, t0))))])))
                off = simp(zadd(off, R.seg_len(s)))
        return out

    def cursor_guess(s, e, off, t0):
        def elem(j):
            return simp(zadd(s.lo, zsub(zi(j), zi(lo)) + t0))

        def g(j):
            return simp(zadd(off, R.sum_term(s.k, s.lo, elem(j), e)))

        def within(j):
            return zi(elem(j)) <= zi(s.hi)

        def step(j):
            if hi is None:
                # part of the invariant: see solve()
                p.assume_expr(within(j))
            R.sum_last(s.k, s.lo, elem(j), e)
            R.sum_split(s.k, s.lo, elem(j), s.hi, e)
            R.sum_split(s.k, s.lo, simp(zadd(elem(j), 1)), s.hi, e)
            R.sum_split(s.k, s.lo, elem(lo), elem(j), e)
            for t in range(t0):
                R.sum_last(s.k, s.lo, simp(zadd(s.lo, t)), e)
        g.step = step
        if hi is None:
            if not p.provable(within(lo)):
                return None
            g.within = within
        return g

    def acc_names():
        out = set()
        for L in locs.values():
            if L.kind in ('rope', 'list'):
                out.add(L.acc.name)
                if L.kind == 'rope':
                    out.add(L.acc.length.decl().name())
            elif L.kind == 'int' and L.closed is None:
                out.add(L.acc.decl().name())
        return out

    def post(o, key):
        if key[0] == 'loc':
            return o.res.env[key[1]].get(key[2], UNDEF)
        rec = o.heap[key[1]]
        if key[0] == 'attr':
            return rec.attrs.get(key[2], UNDEF)
        if isinstance(rec, (HBA, HHash)):
            return rec.rope
        if isinstance(rec, HList):
            return rec.segs
        return rec

    # ---- find invariants -------------------------------------------------
    rounds = 0
    while True:
        rounds += 1
        if rounds > 25:
            raise Unsupported('loop invariant search did not converge')
        outs = iterate()
        new = changed(outs)
        if new:
            for key in new:
                locs[key] = new_loc(key)
            continue
        normal = [o for o in outs if o.res.kind == 'normal']
        again = False
        for L in locs.values():
            r = solve(it, L, normal, acc_names(), k, lo, base_ref, post, p)
            if r == 'retry':
                again = True
        if not again:
            break
    STATS.loop_invariants = getattr(STATS, 'loop_invariants', 0) + len(locs)

    # ---- forget the skolem: exits and closed forms -----------------------
    exits = [o for o in outs if o.res.kind != 'normal']
    names = acc_names()

    def usable(e):
        """fact over k and pre-existing constants only"""
        for c in R.free_consts(e):
            n = c.decl().name()
            if n == kname:
                continue
            if n in names or n.startswith('acc!'):
                return False
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) > fresh0:
                        return False
                except ValueError:
                    pass
        return True

    def noexit_facts():
        fs = []
        for o in exits:
            # facts hold in every iteration: only the decisions matter
            es = [e for e in o.pc if not trivial(e)
                  and e.get_id() in p.decided]
            if all(usable(e) for e in es):
                fs.append(z3.Not(z3.And(*es)) if es else z3.BoolVal(False))
        return fs

    def trivial(e):
        return e.eq(z3.simplify(zi(lo) <= k)) or e.eq(zi(lo) <= k) or (
            hi is not None and e.eq(k < zi(hi))) or any(
                L.kind == 'rope' and e.eq(L.acc.length >= 0)
                for L in locs.values())

    common = []
    if normal:
        for e in normal[0].pc:
            if usable(e) and not trivial(e) and R.mentions(e, {kname}) \
                    and all(any(e.eq(x) for x in o.pc)
                            for o in normal[1:]):
                common.append(e)

    def close(upto):
        """state after iterations lo..upto-1, on the main path"""
        vals = []
        for key, L in locs.items():
            vals.append((key, closed_value(
                it, L, normal, k, lo, upto, common, names, fresh0, post,
                trivial, usable)))
        for key, v in vals:
            set_loc(chain, key, v)

    must_exit = hi is None
    if not normal:
        # every iteration leaves the loop: it is the first one
        p.new_index(zi(lo)) if not isinstance(lo, int) else None
        try:
            body(at(lo))
        except ContinueSig:
            raise Infeasible()
        except BreakSig:
            return True
        except LoopExit:
            return False
        raise Infeasible()
    if not must_exit:
        c = p.choose(2) if exits else 0
        if c == 0:
            for f in noexit_facts():
                p.add_forall(lo, hi, k, f)
            close(hi)
            return False
    j = p.fresh_int('ex')
    p.assume_expr(zi(lo) <= j)
    if hi is not None:
        p.assume_expr(j < zi(hi))
    for f in noexit_facts():
        p.add_forall(lo, j, k, f)
        # the iteration before the exit did not exit
        p.inst_forall((lo, j, k, f), simp(j - 1))
    p.new_index(j)
    p.known_cuts[j.decl().name()] = j
    close(j)
    cursor_facts(j)
    # one of the explored exits is taken at j
    ways = []
    for o in exits:
        es = [e for e in o.pc if not trivial(e) and usable(e)
              and e.get_id() in p.decided]
        ways.append(z3.And(*es) if es else z3.BoolVal(True))
    if ways:
        p.assume_expr(z3.substitute(z3.Or(*ways), (k, zi(j))))
    if p.check() == z3.unsat:
        raise Infeasible()
    try:
        body(at(j))
    except ContinueSig:
        raise Infeasible()
    except BreakSig:
        return True
    except LoopExit:
        return False
    raise Infeasible()


def solve(it, L, normal, names, k, lo, base_ref, post, p):
    """check the invariant of one location; 'retry' when it was changed"""
    own = {}
    posts = [post(o, L.key) for o in normal]
    if not posts:
        L.form = 'none'
        return None
    if L.kind in ('poison', 'flag'):
        L.form = 'last'
        return None
    if L.kind == 'rope':
        L.form = None
        deltas = []
        for v in posts:
            if isinstance(v, bytes):
                v = R.lit(v)
            if not isinstance(v, Rope):
                deltas = None
                break
            segs = list(v.segs)
            full = [i for i, s in enumerate(segs)
                    if isinstance(s, R.Sub) and isinstance(s.a, R.Atom)
                    and s.a.name == L.acc.name]
            if len(full) != 1 or not whole(segs[full[0]]):
                deltas = None
                break
            i = full[0]
            if i == 0:
                deltas.append(('app', Rope(segs[1:])))
            elif i == len(segs) - 1:
                deltas.append(('pre', Rope(segs[:-1])))
            else:
                deltas = None
                break
        if deltas is not None:
            sides = {d[0] for d in deltas if d[1].segs}
            if len(sides) <= 1:
                ok = True
                for o, (_, d) in zip(normal, deltas):
                    if mentions_in(o, d, names):
                        ok = False
                if ok:
                    L.form = sides.pop() if sides else 'app'
                    L.deltas = [d for _, d in deltas]
                    return None
        # last value?
        L.form = 'last'
        if any(mentions_in(o, v, {L.acc.name})
               for o, v in zip(normal, posts)):
            raise Unsupported('loop changes a byte string in a way that is '
                              'not an append (%s)' % (L.key,))
        return None
    if L.kind == 'list':
        counts = set()
        L.items = []
        for v in posts:
            if not (isinstance(v, tuple) and v
                    and isinstance(v[0], LAcc)
                    and v[0].name == L.acc.name):
                raise Unsupported('loop rebuilds a list (%s)' % (L.key,))
            rest = v[1:]
            if not all(isinstance(s, LItem) for s in rest):
                raise Unsupported('loop appends a symbolic segment')
            counts.add(len(rest))
            L.items.append(rest)
        L.form = 'app'
        if len(counts) != 1:
            if L.per != 'var':
                L.per = 'var'
                n = p.fresh_int('len')
                L.len_at = lambda j: n
                return 'retry'
            return None
        c = counts.pop()
        if c != L.per:
            L.per = c
            return 'retry'
        return None
    if L.kind == 'int':
        if L.closed is not None:
            ok = True
            for o, v in zip(normal, posts):
                if not isinstance(v, (int, SInt)) or isinstance(v, bool):
                    ok = False
                    break
                with R.scope(*o.pc):
                    st = getattr(L.closed, 'step', None)
                    p.binders.append(k)
                    try:
                        if st is not None:
                            st(k)
                        inv = getattr(L.closed, 'within', None)
                        if inv is not None and not p.provable(
                                inv(simp(k + 1))):
                            ok = False
                            break
                        want = L.closed(simp(k + 1))
                        if not p.provable(zi(ie(v)) == zi(want)):
                            ok = False
                    finally:
                        p.binders.pop()
                if not ok:
                    break
            if ok:
                L.form = 'closed'
                return None
            if L.guesses:
                L.guesses.pop(0)
            L.closed = L.guesses[0] if L.guesses else None
            return 'retry'
        # unknown accumulator: look at the difference
        diffs = []
        for o, v in zip(normal, posts):
            if isinstance(v, bool) or not isinstance(v, (int, SInt)):
                L.form = 'last'
                return None
            e = zi(ie(v))
            if not R.mentions(e, {L.acc.decl().name()}):
                diffs.append(None)
                continue
            diffs.append(simp(e - L.acc))
        if all(d is None for d in diffs):
            L.form = 'last'
            return None
        if any(d is None for d in diffs):
            raise Unsupported('integer both reset and accumulated')
        for d in diffs:
            if not isinstance(d, int) and R.mentions(d, names):
                raise Unsupported('integer recurrence %s' % (L.key,))
        e0 = ie(L.entry)
        if all(isinstance(d, int) for d in diffs) and len(set(diffs)) == 1:
            c = diffs[0]
            L.closed = lambda j: simp(
                zadd(e0, simp(zsub(zi(j), zi(lo)) * c)))
            return 'retry'
        # sum of a per-iteration amount
        e = zi(diffs[-1])
        for o, d in zip(reversed(normal[:-1]), reversed(diffs[:-1])):
            e = z3.If(o.cond(), zi(d), e)
        kk = k

        def g(j):
            return simp(zadd(e0, R.sum_term(kk, lo, j, e)))
        g.step = lambda j: R.sum_last(kk, lo, j, e)
        L.closed = g
        return 'retry'
    raise Unsupported('loop location %s' % (L.key,))


def whole(s):
    return same(s.lo, 0) and same(s.hi, s.a.length)


def mentions_in(o, v, names):
    """does a value of an outcome mention the accumulators?"""
    p = P()
    saved = p.heap
    p.heap = o.heap
    try:
        return R.value_mentions(v, names)
    finally:
        p.heap = saved


def import_val(o, v, memo):
    """copy a value from an outcome's heap to the main heap"""
    p = P()
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        rec = o.heap[v.id]
        if p.heap.get(v.id) is rec:
            return v
        new = Ref(p.next_ref)
        p.next_ref += 1
        memo[v.id] = new
        if isinstance(rec, HObj):
            nrec = HObj(rec.cls, {n: import_val(o, x, memo)
                                  for n, x in rec.attrs.items()})
        elif isinstance(rec, HBA):
            nrec = rec
        elif isinstance(rec, HList):
            nrec = HList([import_val(o, x, memo) for x in rec.segs])
        elif isinstance(rec, HDict):
            nrec = HDict({n: import_val(o, x, memo)
                          for n, x in rec.items.items()})
        elif isinstance(rec, HIter):
            nrec = HIter([import_val(o, x, memo) for x in rec.segs],
                         rec.kind)
        else:
            raise Unsupported('loop result holds a %s' % type(rec).__name__)
        p.heap[new.id] = nrec
        p.intern[('frozen', new.id)] = True
        return new
    if isinstance(v, tuple):
        return tuple(import_val(o, x, memo) for x in v)
    if isinstance(v, LItem):
        return LItem(import_val(o, v.v, memo))
    if isinstance(v, LMap):
        return LMap(v.k, v.lo, v.hi, import_val(o, v.v, memo), v.facts)
    if isinstance(v, LFlat):
        return LFlat(v.k, v.lo, v.hi, import_val(o, v.v, memo), v.facts)
    if isinstance(v, STup):
        return STup([import_val(o, s, memo) for s in v.segs])
    if isinstance(v, R.ListCases):
        return R.ListCases([(c, import_val(o, x, memo)) for c, x in v.cs])
    return v


def check_leak(v, fresh0, kname):
    """values must not mention constants created inside the body"""
    out = set()
    R.val_consts(v, out, set())
    out |= R.atoms_in(v)
    for n in out:
        if n == kname:
            continue
        if '!' in n:
            t = n.rsplit('!', 1)[1]
            if t.isdigit() and int(t) > fresh0:
                raise Unsupported('loop body introduces an unknown (%s)' % n)


def closed_value(it, L, normal, k, lo, upto, common, names, fresh0, post,
                 trivial, usable):
    p = P()
    kname = k.decl().name()
    if L.form == 'none':
        return L.entry
    if L.kind == 'int' and L.form == 'closed':
        return mk_int(L.closed(upto))
    if L.form == 'last' or L.kind in ('poison', 'flag'):
        return last_value(L, normal, k, lo, upto, fresh0, post)

    def case_cond(o):
        es = [e for e in o.pc if e.get_id() in p.decided
              and not trivial(e) and not any(e.eq(c) for c in common)]
        for e in es:
            if not usable(e):
                raise Unsupported('loop body forks on an unknown: %s' % (
                    S(e)[:300],))
        if not es:
            return z3.BoolVal(True)
        return z3.simplify(z3.And(*es)) if len(es) > 1 else es[0]
    if L.kind == 'rope':
        for d in L.deltas:
            check_leak(d, fresh0, kname)
        d0 = L.deltas[0]
        if all(repr(d) == repr(d0) for d in L.deltas):
            d = d0
        else:
            d = one_rope([(case_cond(o), x) for o, x in
                          zip(normal, L.deltas)], k, lo, upto, common)
        entry = R.lit(L.entry) if isinstance(L.entry, bytes) else L.entry
        if not d.segs:
            return it_unrope(L, entry)
        if L.form == 'app':
            return it_unrope(L, R.rcat(entry, Rope((
                Cat(k, lo, upto, d, common),))))
        kk = p.fresh_int('pk')
        pairs = [(k, simp(zi(upto) - 1 - kk + zi(lo)))]
        d2 = R.subst(d, pairs)
        return it_unrope(L, R.rcat(Rope((Cat(
            kk, lo, upto, d2, [z3.substitute(f, *pairs)
                               for f in common]),)), entry))
    if L.kind == 'list':
        if L.per == 0:
            return L.entry
        if L.per != 1:
            cs = []
            for o, rest in zip(normal, L.items):
                xs = tuple(import_val(o, s.v, {}) for s in rest)
                for x, s in zip(xs, rest):
                    if mentions_in(o, s.v, names):
                        raise Unsupported(
                            'list element depends on an accumulator')
                    check_leak(x, fresh0, kname)
                cs.append((case_cond(o), xs))
            return tuple(L.entry) + (LFlat(
                k, lo, upto, R.ListCases(cs), common),)
        vals = []
        for o, rest in zip(normal, L.items):
            v = rest[0].v
            if mentions_in(o, v, names):
                raise Unsupported('list element depends on an accumulator')
            vals.append(import_val(o, v, {}))
        for v in vals:
            check_leak(v, fresh0, kname)
        if len(vals) == 1 or all(same_val(vals[0], x) for x in vals[1:]):
            v = vals[0]
        else:
            v = R.ListCases([(case_cond(o), x)
                             for o, x in zip(normal, vals)])
        return tuple(L.entry) + (LMap(k, lo, upto, v, common),)
    raise Unsupported('closed form of %s' % (L.key,))


def one_rope(cases, k, lo, upto, common):
    """the rope of an iteration: one that is right in all cases, if any"""
    p = P()
    for c, d in sorted(cases, key=lambda x: -len(x[1].segs)):
        for c2, d2 in cases:
            if d2 is d:
                continue
            try:
                with R.scope(zi(lo) <= k, k < zi(upto), c2, *common):
                    if not R.req(d2, d):
                        break
            except Unsupported:
                break
        else:
            return d
    return Rope((Cases(cases),))


def it_unrope(L, r):
    if L.key[0] == 'rec':
        return r
    c = R.as_concrete(r)
    return c if c is not None else r


def last_value(L, normal, k, lo, upto, fresh0, post):
    p = P()
    vals = [post(o, L.key) for o in normal]
    if L.kind == 'flag' or L.kind == 'poison':
        v0 = vals[0]
        if all(same_val(v0, v) for v in vals) and (
                v0 is None or isinstance(v0, (bool, int, str, bytes))):
            if isinstance(lo, int) and isinstance(upto, int) and lo < upto \
                    or p.provable(zi(lo) < zi(upto)):
                return v0
    return POISON
