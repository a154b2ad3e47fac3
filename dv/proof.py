"""Deep equality of symbolic values."""
import z3

from dv.core import (
    P, SInt, SBool, Ref, HObj, HList, HBA, HDict, HSet, HHash, HIter, ExcVal,
    Opaque, PyRaise, Unsupported, mk_int, mk_bool, ie, simp, zi, same, zadd)
from dv import ropes as R
from dv.ropes import Rope, SStr, STup, LItem, LMap, LAcc, ListCases


def deep_eq(it, a, b, depth=0):
    """prove that two values are equal"""
    p = P()
    if depth > 30:
        return False
    if a is b:
        return True
    if isinstance(a, ListCases) or isinstance(b, ListCases):
        c, first = (a, True) if isinstance(a, ListCases) else (b, False)
        for cond, v in c.cs:
            with R.scope(cond):
                if p.check() == z3.unsat:
                    continue
                if not (deep_eq(it, v, b, depth + 1) if first
                        else deep_eq(it, a, v, depth + 1)):
                    return False
        return True
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return True
    if it.plain(a) and it.plain(b):
        return a == b and isinstance(a, str) == isinstance(b, str)
    for x in (a, b):
        if hasattr(x, 'dv_prove_eq'):
            return x.dv_prove_eq(it, a, b)
    ta, tb = it.pytype(a), it.pytype(b)
    if ta in (int, bool) and tb in (int, bool):
        return p.provable(zi(ie(a)) == zi(ie(b)))
    if ta in (bytes, bytearray) and tb in (bytes, bytearray):
        if it.bits:
            from dv import bits
            return R.req(bits.refresh(it, it.rope(a)),
                         bits.refresh(it, it.rope(b)))
        return R.req(it.rope(a), it.rope(b))
    if ta is str and tb is str:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return False
        return R.req(it.srope(a), it.srope(b))
    if ta in (list, tuple) and tb in (list, tuple):
        return segs_eq(it, list(it.iter_segs(a)), list(it.iter_segs(b)),
                       depth + 1)
    if ta is not tb:
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        ra, rb = p.heap[a.id], p.heap[b.id]
        if isinstance(ra, HObj) and isinstance(rb, HObj):
            if set(ra.attrs) != set(rb.attrs):
                return False
            return all(deep_eq(it, ra.attrs[n], rb.attrs[n], depth + 1)
                       for n in ra.attrs)
        if isinstance(ra, HDict) and isinstance(rb, HDict):
            return set(ra.items) == set(rb.items) and all(
                deep_eq(it, ra.items[n], rb.items[n], depth + 1)
                for n in ra.items)
        if isinstance(ra, HHash) and isinstance(rb, HHash):
            return ra.alg == rb.alg and ra.params == rb.params and R.req(
                ra.rope, rb.rope)
    return False


def segs_eq(it, s1, s2, depth=0):
    p = P()
    s1, s2 = list(s1), list(s2)
    steps = 0
    while True:
        steps += 1
        if steps > 2000:
            return False
        while s1 and nil(s1[0]):
            s1.pop(0)
        while s2 and nil(s2[0]):
            s2.pop(0)
        if not s1 or not s2:
            return not s1 and not s2
        a, b = s1[0], s2[0]
        if isinstance(a, LItem) and isinstance(b, LItem):
            if not deep_eq(it, a.v, b.v, depth + 1):
                return False
            s1.pop(0)
            s2.pop(0)
            continue
        if isinstance(a, LMap) and isinstance(b, LMap):
            na, nb = R.lseg_len(a), R.lseg_len(b)
            if p.provable(zi(na) <= zi(nb)):
                n = na
            elif p.provable(zi(nb) <= zi(na)):
                n = nb
            else:
                return False
            j = p.fresh_int('q')
            with R.scope(0 <= j, j < zi(n)):
                p.binders.append(j)
                try:
                    if p.check() != z3.unsat:
                        va = R.inst_map(a, simp(zadd(a.lo, j)), False)
                        vb = R.inst_map(b, simp(zadd(b.lo, j)), False)
                        p_inst(j)
                        if not deep_eq(it, va, vb, depth + 1):
                            return False
                finally:
                    p.binders.pop()
            s1[0:1] = rest(a, n)
            s2[0:1] = rest(b, n)
            continue
        if isinstance(a, LMap) or isinstance(b, LMap):
            m, sl = (a, s1) if isinstance(a, LMap) else (b, s2)
            if not p.provable(zi(m.lo) < zi(m.hi)):
                return False
            v = R.inst_map(m, m.lo, False)
            sl[0:1] = [LItem(v), LMap(m.k, simp(zadd(m.lo, 1)), m.hi, m.v,
                                      m.facts)]
            continue
        return False


def p_inst(j):
    p = P()
    for f in list(p.forall):
        p.inst_forall(f, j)


def nil(s):
    return isinstance(s, LMap) and (
        same(s.lo, s.hi) or P().provable(zi(s.lo) >= zi(s.hi)))


def rest(s, n):
    lo = simp(zadd(s.lo, n))
    if same(lo, s.hi):
        return []
    return [LMap(s.k, lo, s.hi, s.v, s.facts)]
