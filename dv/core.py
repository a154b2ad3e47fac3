"""Core of the deductive verifier: symbolic values, path exploration, solver.

The verifier executes the *real* functions of /repo (their ASTs, parsed from
the current files) on symbolic values.  A path is explored by re-execution
with a recorded prefix of branch decisions; a loop over a collection of
symbolic length is replaced by a closed form whose inductiveness is checked
(see loops.py).  z3 decides the arithmetic side conditions.
"""
import time
import z3

RLIMIT = 3_000_000


class Unsupported(Exception):
    """The code uses something the verifier cannot translate."""


class Retry(Exception):
    """run the path again with what was learned"""


class Infeasible(Exception):
    """The current path condition is unsatisfiable / assumption false."""


class ObligationFailed(Exception):
    """Raised to stop a path whose obligation could not be discharged."""


class PyRaise(Exception):
    """A Python exception raised by interpreted code."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


# memo tables over z3 expressions, keyed by identity; each entry keeps its
# expression alive, so that an identity is never reused
_TEXT = {}
_SIMP = {}


def S(e):
    """full (untruncated) text of an expression"""
    if isinstance(e, (int, str)):
        return str(e)
    i = e.get_id()
    c = _TEXT.get(i)
    if c is None:
        c = _TEXT[i] = (e, e.sexpr())
    return c[1]


# --------------------------------------------------------------------------
# scalar symbolic values

class SInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SInt(%s)' % S(self.e)


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SBool(%s)' % S(self.e)


def ie(v):
    """int-like value -> z3 Int expression or python int"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if hasattr(v, 'to_int_expr'):
        return v.to_int_expr()
    raise Unsupported('int expression from %r' % (v,))


def simp(e):
    """simplify a z3 int expr; return python int if it is constant"""
    if isinstance(e, int):
        return e
    i = e.get_id()
    c = _SIMP.get(i)
    if c is None:
        r = z3.simplify(e, som=True, blast_distinct=True)
        if z3.is_int_value(r):
            r = r.as_long()
        c = _SIMP[i] = (e, r)
        if not isinstance(r, int):
            _SIMP.setdefault(r.get_id(), (r, r))
    return c[1]


def mk_int(e):
    e = simp(e)
    return e if isinstance(e, int) else SInt(e)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def zi(e):
    return z3.IntVal(e) if isinstance(e, int) else e


def zadd(a, b):
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return a + b


def zsub(a, b):
    if isinstance(b, int) and b == 0:
        return a
    return a - b


def same(a, b):
    """syntactic equality of int exprs"""
    if isinstance(a, int) or isinstance(b, int):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return False
    return a.eq(b)


# --------------------------------------------------------------------------
# statistics of one check

class Stats:
    def __init__(self):
        self.queries = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.loops = 0
        self.contracts_used = set()
        self.functions = set()
        self.trusted = set()


STATS = Stats()


# --------------------------------------------------------------------------
# heap records (immutable records, the heap maps ids to them)

class HObj:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class HList:
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)


class HBA:
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope


class HDict:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = dict(items)


class HSet:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class HHash:
    __slots__ = ('alg', 'params', 'rope')

    def __init__(self, alg, params, rope):
        self.alg = alg
        self.params = params
        self.rope = rope


class HIter:
    """iterator over list segments"""
    __slots__ = ('segs', 'kind')

    def __init__(self, segs, kind='iter'):
        self.segs = tuple(segs)
        self.kind = kind


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%d)' % self.id


class ExcVal:
    """a Python exception instance"""

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        return 'Exc(%s)' % self.cls.__name__


class Opaque:
    """an unconstrained value of a given Python type (e.g. a message)"""

    def __init__(self, typ, tag=''):
        self.typ = typ
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % self.typ.__name__


# --------------------------------------------------------------------------
# path state

class Path:
    """one execution path: decisions, path condition, heap"""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.heap = {}
        self.solver = z3.Solver()
        self.solver.set('rlimit', RLIMIT)
        self.fresh_n = 0
        self.next_ref = 1
        self.sub = 0            # depth of sub-explorations
        self.pending = []          # alternative prefixes to explore
        self.globals = {}          # overlay of module/class globals
        self.frame_writes = []     # writes to process-global state
        self.rope_eqs = []         # known rope equalities (path facts)
        self.forall = []           # quantified facts: (lo, hi, k, expr)
        self.known_cuts = {}       # candidates for loop indices
        self.intern = {}           # App interning
        self.obligations = []
        self.sums = {}
        self.cache = {}
        self.binders = []          # stack of loop skolem indices in scope
        self.facts_done = set()
        self.range_facts = {}
        self.indices = []
        self.nofork = 0
        self.decided = {}          # path conditions that are decisions

    # -- fresh names -------------------------------------------------------
    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def fresh_int(self, base):
        return z3.Int(self.fresh(base))

    # -- heap --------------------------------------------------------------
    def alloc(self, rec):
        r = Ref(self.next_ref)
        self.next_ref += 1
        self.heap[r.id] = rec
        return r

    def get(self, ref):
        return self.heap[ref.id]

    def put(self, ref, rec):
        if ('frozen', ref.id) in self.intern:
            raise Unsupported('mutation of an element built in a loop')
        self.heap[ref.id] = rec

    # -- quantified facts --------------------------------------------------
    def inst_forall(self, f, j):
        lo, hi, k, e = f
        g = z3.substitute(e, (k, zi(j)))
        key = ('fa', k.decl().name(), g.sexpr(), S(lo), S(hi))
        if key in self.facts_done:
            return
        self.facts_done.add(key)
        from dv.ropes import add_range_facts
        add_range_facts(g)
        self.assume_expr(z3.Implies(z3.And(zi(lo) <= zi(j), zi(j) < zi(hi)),
                                    g))

    def add_forall(self, lo, hi, k, e):
        f = (lo, hi, k, e)
        self.forall.append(f)
        for j in list(self.indices) + list(self.binders):
            self.inst_forall(f, j)

    def new_index(self, j):
        """a skolem index enters the path: instantiate known facts"""
        self.indices.append(j)
        for f in list(self.forall):
            self.inst_forall(f, j)

    # -- solver ------------------------------------------------------------
    def assume_expr(self, e):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        self.pc.append(e)
        self.solver.add(e)

    def check(self, *extra):
        STATS.queries += 1
        t = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        STATS.time += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        return r

    def provable(self, e):
        """is e implied by the path condition?"""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return self.check() == z3.unsat
        key = (len(self.pc), e.get_id())
        c = self.cache.get(key)
        if c is not None and c[0].eq(e):
            return c[1]
        r = self.check(z3.Not(e)) == z3.unsat
        self.cache[key] = (e, r)
        return r

    def model_of(self, *extra, small=()):
        """a model of pc (+extra), preferring small sizes"""
        s = self.solver
        s.push()
        try:
            s.add(*extra)
            r = s.check()
            if r != z3.sat:
                return None
            m = s.model()
            for bound in (4, 40, 300):
                s.push()
                for t in small:
                    s.add(t <= bound)
                if s.check() == z3.sat:
                    m = s.model()
                    s.pop()
                    return m
                s.pop()
            return m
        finally:
            s.pop()

    # -- branching ---------------------------------------------------------
    def branch(self, cond, tag=''):
        """decide a boolean; may fork the exploration"""
        if isinstance(cond, SBool):
            cond = cond.e
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.nofork:
            if self.check(cond) == z3.unsat:
                return False
            if self.check(z3.Not(cond)) == z3.unsat:
                return True
            raise Unsupported('undecided condition inside a proof step')
        i = len(self.trace)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.trace.append((d, forced))
            if not forced:
                c = cond if d else z3.Not(cond)
                self.decided[c.get_id()] = c
                self.assume_expr(c)
            return d
        rt = self.check(cond)
        if rt == z3.unsat:
            self.trace.append((False, True))
            return False
        rf = self.check(z3.Not(cond))
        if rf == z3.unsat:
            self.trace.append((True, True))
            return True
        self.pending.append(self.trace + [(False, False)])
        self.trace.append((True, False))
        self.decided[cond.get_id()] = cond
        self.assume_expr(cond)
        return True

    def choose(self, n, tag=''):
        """nondeterministic choice among n alternatives (no condition)"""
        i = len(self.trace)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.trace.append((d, forced))
            return d
        for d in range(1, n):
            self.pending.append(self.trace + [(d, False)])
        self.trace.append((0, False))
        return 0

    # -- snapshots for nested exploration ----------------------------------
    def snapshot(self):
        return (dict(self.heap), len(self.pc), self.prefix, self.trace,
                self.pending, dict(self.globals), len(self.frame_writes),
                list(self.rope_eqs), list(self.forall), self.next_ref,
                dict(self.intern), list(self.binders),
                set(self.facts_done), list(self.indices))

    def restore(self, s):
        (heap, n, self.prefix, self.trace, self.pending, glob, nf,
         self.rope_eqs, self.forall, self.next_ref, self.intern,
         self.binders, self.facts_done, self.indices) = s
        self.indices = list(self.indices)
        self.rope_eqs = list(self.rope_eqs)
        self.forall = list(self.forall)
        self.intern = dict(self.intern)
        self.binders = list(self.binders)
        self.facts_done = set(self.facts_done)
        self.heap = dict(heap)
        self.globals = dict(glob)
        self.cache = {}
        del self.pc[n:]
        del self.frame_writes[nf:]

    def sub_explore(self, fn, limit=400):
        """run fn() over all its paths from the current state.

        Returns a list of (result, pc_delta, heap, globals, next_ref, ...)
        Each run starts from the current state; afterwards the state is
        restored.  fn must return its outcome (never raise PyRaise).
        """
        self.sub += 1
        try:
            return self._sub_explore(fn, limit)
        finally:
            self.sub -= 1

    def _sub_explore(self, fn, limit):
        outcomes = []
        snap = self.snapshot()
        work = [[]]
        n0 = len(self.pc)
        while work:
            pre = work.pop()
            self.restore(snap)
            self.prefix, self.trace, self.pending = list(pre), [], []
            self.solver.push()
            fresh0 = self.fresh_n
            try:
                try:
                    res = fn()
                    outcomes.append(SubOutcome(res, self.pc[n0:], self, n0))
                except Infeasible:
                    pass
            finally:
                self.solver.pop()
            work.extend(self.pending)
            if len(outcomes) > limit:
                self.restore(snap)
                raise Unsupported('too many paths in a loop body')
            self.fresh_n = max(self.fresh_n, fresh0)
        self.restore(snap)
        return outcomes

    def adopt(self, o):
        """continue from the state reached by a sub-exploration outcome"""
        for e in o.pc:
            self.assume_expr(e)
        self.heap = dict(o.heap)
        self.globals = dict(o.globals)
        self.next_ref = max(self.next_ref, o.next_ref)
        self.rope_eqs = list(o.rope_eqs)
        self.forall = list(o.forall)
        self.intern = dict(o.intern)
        self.facts_done = set(o.facts_done)
        for w in o.frame_writes:
            if w not in self.frame_writes:
                self.frame_writes.append(w)


class SubOutcome:
    def __init__(self, res, pc, p, n0):
        self.res = res
        self.pc = list(pc)
        self.heap = dict(p.heap)
        self.globals = dict(p.globals)
        self.next_ref = p.next_ref
        self.rope_eqs = list(p.rope_eqs)
        self.forall = list(p.forall)
        self.intern = dict(p.intern)
        self.facts_done = set(p.facts_done)
        self.frame_writes = list(p.frame_writes)

    def cond(self):
        if not self.pc:
            return z3.BoolVal(True)
        return z3.And(*self.pc) if len(self.pc) > 1 else self.pc[0]


# the current path (the verifier is single threaded)
class _Cur:
    path = None


CUR = _Cur()


def P():
    return CUR.path


def explore(fn, max_paths=4000, deadline=None):
    """run fn(path) over all paths; yields (path, result)"""
    work = [[]]
    n = 0
    while work:
        pre = work.pop()
        p = Path(pre)
        CUR.path = p
        n += 1
        STATS.paths += 1
        if n > max_paths:
            raise Unsupported('more than %d paths' % max_paths)
        if deadline and time.time() > deadline:
            raise Unsupported('time limit for this obligation exhausted')
        try:
            res = fn(p)
        except Infeasible:
            res = None
        except Retry:
            work.append(pre)
            continue
        work.extend(p.pending)
        yield p, res
