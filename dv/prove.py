"""Runs the verifier on one theorem."""
import sys
import time
import traceback
import types
import z3

from dv import core
from dv.core import (P, STATS, SBool, CUR, Path, Unsupported, Infeasible,
                     PyRaise, Ref, HObj, mk_bool, ie,
                     ObligationFailed, explore, Opaque)
from dv.interp import Interp, UNDEF, NetVal, NetName
from dv import api, domain


class Result:
    def __init__(self, thm):
        self.thm = thm
        self.failures = []     # (network, label, detail, leaves)
        self.obligations = 0   # discharged (label x network x path)
        self.labels = {}
        self.paths = 0
        self.networks = []     # explored by the verifier
        self.covered = []      # same observations as an explored one
        self.functions = set()
        self.time = 0.0
        self.unsupported = []


def obs_value(cls, name, key):
    def src(s):
        return '%s_%s' % (cls.NETWORK_NAME, cls.SUBNET_NAME) \
            if s == 'full' else getattr(cls, s)
    if key.startswith('val:'):
        return src(key[4:])
    if key == '__name__':
        return cls.__name__
    if key.startswith('attr:'):
        v = getattr(cls, key[5:], UNDEF)
        return repr(v) if isinstance(v, (list, dict, set)) else v
    if key.startswith('fits '):
        return fits(getattr(cls, key.split(' ')[1], None),
                    *key.split(' ')[2:])
    if key.startswith(('eq:', 'in:')):
        op, s, x = key.split(':', 2)
        return src(s) == x if op == 'eq' else x in src(s)
    if key.startswith('is:'):
        return cls.__name__ == key[3:]
    return None


def fits(v, lo, hi, alphabet):
    """is v a word over the alphabet?"""
    return isinstance(v, str) and int(lo) <= len(v) <= int(hi) and \
        set(v) <= set(alphabet)


def all_networks(thm):
    from riemann.networks import SUPPORTED
    out = []
    for n in sorted(SUPPORTED, key=lambda x: (x != 'bitcoin_main', x)):
        if thm.networks in (None, 'all') or thm.networks(SUPPORTED[n]):
            out.append((n, SUPPORTED[n]))
    return out


def clauses(it, v):
    """are all clauses proved?"""
    out = []
    for s in it.iter_segs(v):
        if it.pytype(s.v) is list:
            alts = [x.v for x in it.iter_segs(s.v)]
        else:
            alts = [s.v]
        if any(x is True for x in alts):
            continue
        out.append(z3.Or(*[x.e for x in alts if isinstance(x, SBool)]))
    return all(P().provable(e) for e in out)


# contracts whose proof failed in this run (by target)
BROKEN = set()


def install_contracts(it, skip=(), uses=()):
    for c in api.CONTRACTS:
        if c.target in BROKEN:
            continue
        try:
            f = api.resolve(c.target)
        except AttributeError:
            continue        # a private helper that is gone: inlined anyway
        f = getattr(f, '__func__', f)
        if not isinstance(f, types.FunctionType):
            continue

        def spec(it, f, args, kwargs, c=c):
            if c.pre is not None:
                try:
                    cl = it.call(c.pre, args, kwargs)
                except PyRaise:
                    return NotImplemented
                if not clauses(it, cl):
                    return NotImplemented
            STATS.contracts_used.add(c.target)
            return it.call(c.spec, args, kwargs)
        it.contracts[f] = spec
    for t in skip:
        try:
            f = api.resolve(t)
        except AttributeError:
            continue
        it.disabled.add(getattr(f, '__func__', f))
    for t in uses:
        if t in BROKEN:
            continue
        try:
            f = api.resolve(t)
        except AttributeError:
            continue
        f = getattr(f, '__func__', f)
        it.contracts[f] = weak_spec(t, *api.WEAK[t][:2])


def weak_spec(target, returns, raises):
    def spec(it, f, args, kwargs):
        from dv import strs, prims
        STATS.contracts_used.add(target)
        c = P().choose(1 + len(raises))
        if c:
            raise it.exc(raises[c - 1], 'by contract')
        if returns is str:
            return strs.unknown()
        r = prims.fresh_bytes(it, 'ret')
        return it.new_ba(r) if returns is bytearray else r
    return spec


def stub_key(it, v):
    """the bytes of an argument"""
    if it.is_bytes(v):
        return it.rope(v)
    if isinstance(v, Ref) and isinstance(P().heap[v.id], HObj):
        b = P().heap[v.id].attrs.get('_bytes')
        if b is not None:
            return it.rope(b)
    raise Unsupported('argument of a stub')


def stub(target, kind):
    """a function about which nothing is known but its type"""
    def spec(it, f, args, kwargs):
        from dv import prims, proof, ropes
        if kwargs or kind == 'bool' and len(args) != 1:
            raise Unsupported('keyword arguments of %s' % target)
        if kind == 'bool':
            # a predicate of the bytes of its argument
            return mk_bool(ie(ropes.int_app(
                'stub ' + target, stub_key(it, args[0]))) > 0)
        p = P()
        seen = p.intern.setdefault(('stub', target), ())
        for a, r in seen:
            if len(a) == len(args) and all(
                    x is y for x, y in zip(a, args)):
                break
        else:
            r = None if p.choose(2) else prims.fresh_bytes(it, 'ret')
            p.intern[('stub', target)] = seen + ((tuple(args), r),)
        if r is None:
            raise it.exc(ValueError, 'from %s' % target)
        return it.new_ba(r) if kind == 'bytearray' else r
    return spec


def current_name(nm):
    """get_current_network_name, while the theorem's network is selected"""
    def spec(it, f, a, k):
        import riemann
        if ('mod', id(riemann.__dict__), 'network') in P().globals:
            return NotImplemented
        return NetName(nm)
    return spec


def prove(thm, deadline=None, unroll=0, stop_early=True, verbose=False,
          only_net=None, share=True):
    """symbolically execute a theorem over all its networks"""
    import riemann
    res = Result(thm)
    t0 = time.time()
    if thm.effects:
        from dv import effects
        effects.check(res)
        res.time = time.time() - t0
        return res
    done = []
    for name, cls in all_networks(thm):
        if only_net and name != only_net:
            continue
        hit = None
        for oname, ocls, obs in done if share else ():
            if all(obs_value(cls, name, k) == v
                   and type(obs_value(cls, name, k)) is type(v)
                   for k, v in obs.items()):
                hit = oname
                break
        if hit is not None:
            res.covered.append(name)
            continue
        riemann.select_network(name)
        it = Interp()
        it.unroll = unroll
        it.net = cls
        it.netname = name
        f = getattr(riemann, 'get_current_network_name', None)
        if isinstance(f, types.FunctionType):
            nm = '%s_%s' % (cls.NETWORK_NAME, cls.SUBNET_NAME)
            it.contracts[f] = current_name(nm)
            it.netname = nm
        it.weak = thm.weak
        it.folds = thm.folds
        if thm.bits:
            from dv import bits
            it.bits = True
            it.words = thm.bits == 'words'
            it.hooks['merge_if'] = bits.merge_if
        it.recorded = {api.resolve(x) for x in thm.record}
        install_contracts(it, thm.disable, thm.uses)
        for t, kind in thm.stubs.items():
            f = api.resolve(t)
            it.contracts[getattr(f, '__func__', f)] = stub(t, kind)
        from dv import hooks
        hooks.install(it, thm)
        run = domain.Run()

        def body(p):
            try:
                body1(p)
            except ObligationFailed:
                if len(run.failures) >= 3:
                    raise

        def body1(p):
            D = domain.SymDomain(run)
            it.depth = 0
            try:
                it.call(thm.fn, [D], {})
            except PyRaise as e:
                if p.check() == z3.unsat:
                    raise Infeasible()
                msg = e.exc.args[0] if e.exc.args else ''
                run.failures.append((
                    'no-exception', 'theorem raises %s(%s)' % (
                        e.exc.cls.__name__,
                        msg if isinstance(msg, str) else '...'),
                    run.model(p)))
                raise ObligationFailed('no-exception')
            writes = set(p.frame_writes)
            if thm.selects:
                writes -= {'assigns global riemann.network'}
            if writes:
                run.failures.append((
                    'frame', '; '.join(sorted(writes)),
                    run.model(p)))
                raise ObligationFailed('frame')
            run.ok('frame')

        gen = explore(body, max_paths=thm_limit(thm), deadline=deadline)
        failed = 0
        while True:
            try:
                p, _ = next(gen)
            except StopIteration:
                break
            except ObligationFailed:
                failed += 1
                break
            except Unsupported as e:
                run.failures.append((
                    'supported', 'verifier: %s' % e, run.model(CUR.path)
                    if CUR.path else None))
                if verbose:
                    traceback.print_exc()
                failed += 1
                break
            except (RecursionError, z3.Z3Exception) as e:
                run.failures.append(('supported', 'verifier: %r' % e, None))
                if verbose:
                    traceback.print_exc()
                failed += 1
                break
            res.paths += 1
        res.networks.append(name)
        res.functions |= it.repo_funcs
        for l, n in run.obs.items():
            res.labels[l] = res.labels.get(l, 0) + n
            res.obligations += n
        for f in run.failures:
            res.failures.append((name,) + f)
        if not failed and not [l for l in run.obs if l != 'frame']:
            res.failures.append((name, 'vacuous', 'no obligation reached',
                                 None))
        if res.failures and stop_early:
            break
        done.append((name, cls, dict(it.observed)))
    res.time = time.time() - t0
    return res


def thm_limit(thm):
    return 20000 if thm.bits else 4000
