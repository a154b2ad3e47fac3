"""Symbolic interpreter for the Python functions of /repo (and the specs)."""
import ast
import builtins
import os
import types
import z3

from dv.core import (
    P, STATS, SInt, SBool, Ref, HObj, HList, HBA, HDict, HSet, HHash, HIter,
    ExcVal, Opaque, PyRaise, Unsupported, Infeasible, mk_int, mk_bool, ie,
    simp, zi, same)
from dv import ropes as R, strs
from dv.ropes import (Rope, SStr, STup, Lit, LItem, LMap, LAcc, lit,
                      rope_len, list_len)


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class BoundMethod:
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return 'BoundMethod(%r)' % (self.func,)


class Prim:
    """engine-implemented callable"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'Prim(%s)' % self.name


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Closure:
    def __init__(self, node, frame, name, defaults, kwdefaults):
        self.node = node
        self.frame = frame
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults


class NetVal:
    """the selected network class; attribute reads are observed"""

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return 'NetVal(%s)' % self.cls.__name__


class NetName:
    """a name of the selected network: '<network>_<subnet>' or the attribute
    src (reads observed)"""

    def __init__(self, name, src='full'):
        self.name = name
        self.src = src

    def __repr__(self):
        return 'NetName'


class LoopExit(Exception):
    """the condition of a while loop is false"""


UNDEF = object()
POISON = object()     # value changed by a loop in a way not tracked


class Frame:
    __slots__ = ('env', 'globals', 'parent', 'clsname', 'cls', 'name',
                 'globalnames', 'nonlocals', 'selfval', 'isgen', 'file')

    def __init__(self, globals_, parent=None, clsname=None, cls=None,
                 name=''):
        self.env = {}
        self.globals = globals_
        self.parent = parent
        self.clsname = clsname
        self.cls = cls
        self.name = name
        self.globalnames = set()
        self.nonlocals = set()
        self.selfval = None
        self.isgen = None


# ------------------------------------------------------------ source lookup

_FILES = {}


def file_index(fn):
    d = _FILES.get(fn)
    if d is None:
        with open(fn) as f:
            tree = ast.parse(f.read())
        d = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [x.lineno for x in n.decorator_list])
                d[(line, n.name)] = n
            elif isinstance(n, ast.Lambda):
                d.setdefault((n.lineno, '<lambda>'), n)
        _FILES[fn] = d
    return d


def func_node(f):
    c = f.__code__
    node = file_index(c.co_filename).get((c.co_firstlineno, f.__name__))
    if node is None:
        node = file_index(c.co_filename).get((c.co_firstlineno, c.co_name))
    if node is None:
        raise Unsupported('no source for %r' % f)
    return node


_ISGEN = {}


def is_generator(node):
    r = _ISGEN.get(id(node))
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else []
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _ISGEN[id(node)] = r
    return r


# ------------------------------------------------------------ the interpreter

def hex_eq(it, a, b):
    """equality of hexadecimal digits and a literal, None if not of this
    form"""
    if isinstance(a, str):
        a, b = b, a
    if not isinstance(a, SStr) or not isinstance(b, str):
        return None
    digits = set('0123456789abcdef')
    segs = a.rope.segs
    if not any(isinstance(s, R.Hex) for s in segs):
        return None
    for s in segs:
        if not (isinstance(s, R.Hex) or isinstance(s, R.Lit)
                and set(s.b.decode('latin-1')) <= digits):
            return None
    if not set(b) <= digits:
        return False
    if len(segs) == 1:
        if len(b) % 2:
            return False
        r = R.rope_eq_cond(segs[0].rope, lit(bytes.fromhex(b)))
        return r if isinstance(r, bool) else mk_bool(r)
    return None


class Interp:
    def __init__(self, root=os.environ.get('REPO', '/repo')):
        self.root = root
        self.contracts = {}       # function object -> spec function
        self.recorded = set()     # classes of api.theorem(record=)
        self.disabled = set()     # contracts not to be used (being verified)
        self.net = None           # network class of this run
        self.observed = {}        # observations on the network
        self.repo_funcs = set()
        self.allow_frame = set()
        self.prims = {}
        self.hooks = {}
        from dv import prims
        prims.install(self)
        self.depth = 0
        self.unroll = 0
        self.words = False        # bits, with sums modulo 2**k
        self.bits = False         # bit-level values (dv/bits.py)
        self.folds = False        # loops as functions of their state
        self.fold_nodes = set()
        self.fold_cache = {}     # invariants found on earlier paths
        self.weak = False         # havoc loops (only raises matter)

    # -------------------------------------------------------------- errors
    def exc(self, cls, msg=''):
        return PyRaise(ExcVal(cls, (msg,)))

    # ------------------------------------------------------- value helpers
    def pytype(self, v):
        if isinstance(v, bool) or isinstance(v, SBool):
            return bool
        if isinstance(v, SInt):
            return int
        if isinstance(v, Rope):
            return bytes
        if isinstance(v, (SStr, NetName)):
            return str
        if isinstance(v, STup):
            return tuple
        if isinstance(v, Opaque):
            return v.typ
        if isinstance(v, Ref):
            r = P().heap[v.id]
            if isinstance(r, HObj):
                return r.cls
            if isinstance(r, HBA):
                return bytearray
            if isinstance(r, HList):
                return list
            if isinstance(r, HDict):
                return dict
            if isinstance(r, HSet):
                return set
            if isinstance(r, HIter):
                return types.GeneratorType if r.kind == 'gen' else type(
                    iter([]))
            if isinstance(r, HHash):
                from dv.prims import HASH
                return HASH
            return object
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, NetVal):
            return type
        if isinstance(v, (Closure,)):
            return types.FunctionType
        if isinstance(v, BoundMethod):
            return types.MethodType
        if hasattr(v, 'dv_type'):
            return v.dv_type()
        return type(v)

    def from_py(self, v):
        """load a Python value from the program's globals"""
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return v
        if isinstance(v, tuple):
            return tuple(self.from_py(x) for x in v)
        if isinstance(v, (list, dict, set, bytearray)):
            p = P()
            key = ('glob', id(v))
            r = p.intern.get(key)
            if r is not None and r[0].id in p.heap:
                return r[0]
            if isinstance(v, list):
                rec = HList([LItem(self.from_py(x)) for x in v])
            elif isinstance(v, bytearray):
                rec = HBA(lit(bytes(v)))
            elif isinstance(v, set):
                rec = HSet([self.from_py(x) for x in v])
            else:
                rec = HDict({k: self.from_py(x) for k, x in v.items()})
            ref = p.alloc(rec)
            p.intern[key] = (ref, v)
            p.intern[('isglob', ref.id)] = True
            return ref
        return v

    def put(self, ref, rec):
        p = P()
        if p.intern.get(('isglob', ref.id)):
            p.frame_writes.append('mutates process-global %s'
                                  % type(rec).__name__)
        p.put(ref, rec)

    def new_list(self, segs):
        return P().alloc(HList(segs))

    def new_ba(self, rope):
        return P().alloc(HBA(rope))

    def is_bytes(self, v):
        if isinstance(v, (bytes, Rope)):
            return True
        if isinstance(v, Ref):
            return isinstance(P().heap[v.id], HBA)
        return False

    def rope(self, v):
        """bytes-like value -> Rope"""
        if isinstance(v, Rope):
            return v
        if isinstance(v, (bytes, bytearray)):
            return lit(bytes(v))
        if isinstance(v, Ref):
            r = P().heap[v.id]
            if isinstance(r, HBA):
                return r.rope
        raise Unsupported('bytes-like expected, got %r' % (v,))

    def unrope(self, r):
        c = R.as_concrete(r)
        return c if c is not None else r

    def srope(self, v):
        """str-like -> Rope of codes"""
        if isinstance(v, SStr):
            return v.rope
        if isinstance(v, str):
            return lit(v.encode('latin-1')) if v else R.EMPTY
        if isinstance(v, NetName):
            return lit(self.netname_concrete(v).encode())
        raise Unsupported('str expected, got %r' % (v,))

    def unstr(self, r):
        c = R.as_concrete(r)
        return c.decode('latin-1') if c is not None else SStr(r)

    def netname_concrete(self, v):
        self.observe('val:' + v.src, v.name)
        return v.name

    def observe(self, key, val):
        self.observed[key] = val

    def truth(self, v):
        """truth value -> python bool (may fork)"""
        if isinstance(v, (SBool,)):
            return P().branch(v.e)
        if isinstance(v, SInt):
            return P().branch(v.e != 0)
        if isinstance(v, Rope):
            n = rope_len(v)
            return n != 0 if isinstance(n, int) else P().branch(n != 0)
        if isinstance(v, SStr):
            n = rope_len(v.rope)
            return n != 0 if isinstance(n, int) else P().branch(n != 0)
        if isinstance(v, STup):
            n = list_len(v.segs)
            return n != 0 if isinstance(n, int) else P().branch(n != 0)
        if isinstance(v, Ref):
            r = P().heap[v.id]
            if isinstance(r, HBA):
                return self.truth(r.rope)
            if isinstance(r, HList):
                return self.truth(STup(r.segs))
            if isinstance(r, HDict):
                return bool(r.items)
            if isinstance(r, HSet):
                return bool(r.items)
            if isinstance(r, HObj):
                for nm in ('__bool__', '__len__'):
                    f = self.class_lookup(r.cls, nm)
                    if f is not None:
                        return self.truth(self.call(f, [v], {}))
                return True
            return True
        if isinstance(v, Opaque):
            raise Unsupported('truth of an unknown value')
        if hasattr(v, 'dv_truth'):
            return v.dv_truth(self)
        if isinstance(v, (NetName,)):
            return True
        return bool(v)

    def length(self, v):
        if isinstance(v, (Rope,)):
            return mk_int(rope_len(v))
        if isinstance(v, SStr):
            return mk_int(rope_len(v.rope))
        if isinstance(v, STup):
            return mk_int(list_len(v.segs))
        if isinstance(v, NetName):
            return len(self.netname_concrete(v))
        if isinstance(v, Ref):
            r = P().heap[v.id]
            if isinstance(r, HBA):
                return mk_int(rope_len(r.rope))
            if isinstance(r, HList):
                return mk_int(list_len(r.segs))
            if isinstance(r, (HDict, HSet)):
                return len(r.items)
            if isinstance(r, HObj):
                f = self.class_lookup(r.cls, '__len__')
                if f is not None:
                    return self.call(f, [v], {})
            raise self.exc(TypeError, 'no len()')
        if hasattr(v, 'dv_len'):
            return v.dv_len(self)
        if isinstance(v, (SInt, SBool, Opaque)):
            if isinstance(v, Opaque) and v.typ in (str, bytes):
                raise Unsupported('len of unknown')
            raise self.exc(TypeError, 'no len()')
        try:
            return len(v)
        except TypeError as e:
            raise self.exc(TypeError, str(e))

    # -------------------------------------------------- class / attributes
    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            if c is object:
                continue
            ov = P().globals.get(('cls', id(c), name))
            if ov is not None:
                return ov
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def bind(self, raw, obj, cls):
        if isinstance(raw, types.FunctionType) or isinstance(raw, Closure):
            return BoundMethod(obj, raw)
        if isinstance(raw, classmethod):
            return BoundMethod(cls, raw.__func__)
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, property):
            return self.call(raw.fget, [obj], {})
        if isinstance(raw, Prim):
            return raw
        if isinstance(raw, types.MemberDescriptorType):
            raise self.exc(AttributeError, raw.__name__)
        fn = getattr(raw, '__wrapped__', None)
        if callable(raw) and fn is not None:
            return BoundMethod(obj, raw)
        if hasattr(raw, '__get__') and not isinstance(
                raw, (type, types.BuiltinFunctionType)):
            if isinstance(raw, types.GetSetDescriptorType):
                raise self.exc(AttributeError, 'descriptor')
            raise Unsupported('descriptor %r' % (raw,))
        return self.from_py(raw)

    def getattr(self, v, name):
        if isinstance(v, Ref):
            rec = P().heap[v.id]
            if isinstance(rec, HObj):
                raw = self.class_lookup(rec.cls, name)
                if isinstance(raw, property):
                    return self.call(raw.fget, [v], {})
                if name in rec.attrs:
                    if rec.attrs[name] is POISON:
                        raise Unsupported('value of .%s after a loop' % name)
                    return rec.attrs[name]
                if name == '__class__':
                    return rec.cls
                if name == '__dict__':
                    if any(x is POISON for x in rec.attrs.values()):
                        raise Unsupported('__dict__ after a loop')
                    # a snapshot: it must not be written to
                    r = P().alloc(HDict(dict(rec.attrs)))
                    P().intern[('frozen', r.id)] = True
                    return r
                if raw is None:
                    g = self.class_lookup(rec.cls, '__getattr__')
                    if g is not None:
                        return self.call(g, [v, name], {})
                    if hasattr(object, name):
                        return BoundMethod(v, Prim(
                            'object.' + name,
                            self.prims['object.' + name])) \
                            if 'object.' + name in self.prims else \
                            self._unsup_attr(v, name)
                    raise self.exc(AttributeError, name)
                return self.bind(raw, v, rec.cls)
            return self.prim_attr(v, name)
        if isinstance(v, types.ModuleType):
            return self.module_attr(v, name)
        if isinstance(v, NetVal):
            return self.net_attr(v, name)
        if isinstance(v, SuperVal):
            mro = (self.pytype(v.obj) if not isinstance(v.obj, type)
                   else v.obj).__mro__
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    if c is object:
                        return BoundMethod(v.obj, Prim(
                            'object.' + name, self.prims['object.' + name]))
                    return self.bind(c.__dict__[name], v.obj,
                                     self.pytype(v.obj)
                                     if not isinstance(v.obj, type)
                                     else v.obj)
            raise self.exc(AttributeError, name)
        if isinstance(v, type):
            if name in ('__name__', '__qualname__', '__module__'):
                return getattr(v, name)
            raw = self.class_lookup(v, name) if v.__module__ != 'builtins' \
                else None
            if raw is None and v.__module__ != 'builtins' and any(c is not object and name in c.__dict__
                                   for c in v.__mro__):
                return None
            if raw is None:
                k = '%s.%s' % (v.__name__, name)
                if k in self.prims:
                    return Prim(k, self.prims[k])
                if v.__module__ == 'builtins' and name == '__mro__':
                    return v.__mro__
                if hasattr(v, name):
                    return self._unsup_attr(v, name)
                raise self.exc(AttributeError, name)
            if isinstance(raw, (types.FunctionType, Prim)):
                return raw
            if isinstance(raw, classmethod):
                return BoundMethod(v, raw.__func__)
            if isinstance(raw, staticmethod):
                return raw.__func__
            if isinstance(raw, property):
                return raw
            return self.from_py(raw)
        if isinstance(v, ExcVal):
            if name == 'args':
                return tuple(v.args)
            raise Unsupported('exception attribute %s' % name)
        if isinstance(v, (types.FunctionType, Closure)):
            if name == '__name__':
                return v.__name__ if isinstance(v, types.FunctionType) \
                    else v.name
            raise Unsupported('function attribute')
        if isinstance(v, BoundMethod) and name == '__func__':
            return v.func
        return self.prim_attr(v, name)

    def _unsup_attr(self, v, name):
        raise Unsupported('attribute %s of %r' % (name, v))

    def prim_attr(self, v, name):
        t = self.pytype(v)
        for c in t.__mro__:
            k = '%s.%s' % (c.__name__, name)
            f = self.prims.get(k)
            if f is not None:
                return Prim(k, lambda it, a, kw, f=f: f(it, [v] + a, kw))
        if hasattr(v, 'dv_getattr'):
            return v.dv_getattr(self, name)
        if isinstance(v, (Opaque,)) and v.typ is not object:
            if hasattr(v.typ, name):
                raise Unsupported('%s of unknown %s' % (name, v.typ))
        if not hasattr(t, name):
            raise self.exc(AttributeError, name)
        raise Unsupported('attribute %s.%s' % (t.__name__, name))

    def module_attr(self, m, name):
        ov = P().globals.get(('mod', id(m.__dict__), name), UNDEF)
        if ov is not UNDEF:
            return ov
        if m.__name__ == 'riemann' and name == 'network' \
                and self.net is not None:
            return NetVal(self.net)
        if not hasattr(m, name):
            raise self.exc(AttributeError, name)
        val = getattr(m, name)
        k = '%s.%s' % (m.__name__, name)
        if k in self.prims:
            return Prim(k, self.prims[k])
        return self.from_py(val)

    def net_attr(self, v, name):
        raw = UNDEF
        for c in v.cls.__mro__:
            if c is object:
                continue
            ov = P().globals.get(('cls', id(c), name))
            if ov is not None:
                return ov
            if name in c.__dict__:
                raw = c.__dict__[name]
                break
        if raw is UNDEF:
            if name == '__name__':
                self.observe('__name__', v.cls.__name__)
                return v.cls.__name__
            self.observe('attr:' + name, UNDEF)
            raise self.exc(AttributeError, name)
        if isinstance(raw, (types.FunctionType, classmethod, staticmethod,
                            property)):
            raise Unsupported('method on a network class')
        if name == 'NETWORK_NAME' and isinstance(raw, str):
            return NetName(raw, name)
        self.observe('attr:' + name, repr(raw) if isinstance(
            raw, (list, dict, set)) else raw)
        return self.from_py(raw)

    def setattr(self, v, name, val, raw=False):
        p = P()
        if isinstance(v, Ref):
            rec = p.heap[v.id]
            if isinstance(rec, HObj):
                if not raw:
                    f = self.class_lookup(rec.cls, '__setattr__')
                    if f is not None:
                        self.call(f, [v, name, val], {})
                        return
                    d = self.class_lookup(rec.cls, name)
                    if isinstance(d, property):
                        if d.fset is None:
                            raise self.exc(AttributeError, name)
                        self.call(d.fset, [v, val], {})
                        return
                a = dict(rec.attrs)
                a[name] = val
                p.put(v, HObj(rec.cls, a))
                return
            raise self.exc(AttributeError, name)
        if isinstance(v, types.ModuleType):
            p.globals[('mod', id(v.__dict__), name)] = val
            p.frame_writes.append('assigns module attribute %s.%s'
                                  % (v.__name__, name))
            return
        if isinstance(v, (type, NetVal)):
            c = v.cls if isinstance(v, NetVal) else v
            if c.__module__ == 'builtins':
                raise self.exc(TypeError, 'builtin type')
            p.globals[('cls', id(c), name)] = val
            p.frame_writes.append('assigns class attribute %s.%s'
                                  % (c.__name__, name))
            return
        if isinstance(v, (types.FunctionType, Closure)):
            raise Unsupported('attribute assignment on a function')
        raise self.exc(AttributeError, name)

    def delattr(self, v, name):
        p = P()
        if isinstance(v, Ref):
            rec = p.heap[v.id]
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__delattr__')
                if f is not None:
                    self.call(f, [v, name], {})
                    return
                self.raw_delattr(v, name)
                return
        raise Unsupported('del attribute')

    def raw_delattr(self, v, name):
        p = P()
        rec = p.heap[v.id]
        a = dict(rec.attrs)
        if name not in a:
            raise self.exc(AttributeError, name)
        del a[name]
        p.put(v, HObj(rec.cls, a))

    # --------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Unsupported('recursion too deep')
        try:
            return self._call(f, list(args), dict(kwargs))
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, BoundMethod):
            return self._call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, Prim):
            return f.fn(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            spec = self.contracts.get(f)
            if spec is not None and f not in self.disabled:
                r = spec(self, f, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_function(f, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, NetVal):
            raise Unsupported('instantiating a network')
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, [self.from_py(f.__self__)] + args,
                              kwargs)
        if isinstance(f, types.BuiltinFunctionType):
            return self.call_builtin(f, args, kwargs)
        if isinstance(f, (classmethod, staticmethod)):
            return self._call(f.__func__, args, kwargs)
        if isinstance(f, Ref):
            rec = P().heap[f.id]
            if isinstance(rec, HObj):
                m = self.class_lookup(rec.cls, '__call__')
                if m is not None:
                    return self._call(m, [f] + args, kwargs)
            raise self.exc(TypeError, 'not callable')
        if f is None or isinstance(f, (int, str, bytes, SInt, Rope, tuple)):
            raise self.exc(TypeError, 'not callable')
        w = getattr(f, '__wrapped__', None)
        if isinstance(w, types.FunctionType) and hasattr(f, 'cache_info'):
            return self.call_cached(f, w, args, kwargs)
        import operator
        if isinstance(f, (operator.itemgetter, operator.attrgetter)):
            raise Unsupported('operator object')
        import functools
        if isinstance(f, functools.partial):
            return self._call(f.func, [self.from_py(x) for x in f.args]
                              + args, {**{k: self.from_py(x) for k, x in
                                          f.keywords.items()}, **kwargs})
        raise Unsupported('call of %r' % (f,))

    def call_cached(self, f, w, args, kwargs):
        """functools.lru_cache: sound only if the wrapped function does not
        depend on the selected network and returns an immutable value"""
        before = dict(self.observed)
        self.observed.clear()
        r = self._call(w, args, kwargs)
        seen = dict(self.observed)
        self.observed.update(before)
        if seen or isinstance(r, Ref):
            P().frame_writes.append(
                'caches the result of %s across calls although it depends '
                'on the selected network' % w.__name__)
        return r

    def call_builtin(self, f, args, kwargs):
        name = f.__name__
        slf = getattr(f, '__self__', None)
        if isinstance(slf, types.ModuleType) and slf.__name__ != 'builtins':
            name = slf.__name__ + '.' + name
        if isinstance(slf, type):
            k = '%s.%s' % (slf.__name__, name)
            if k in self.prims:
                return self.prims[k](self, args, kwargs)
        p = self.prims.get(name)
        if p is not None:
            return p(self, args, kwargs)
        mod = getattr(f, '__module__', None)
        if mod and mod + '.' + f.__name__ in self.prims:
            return self.prims[mod + '.' + f.__name__](self, args, kwargs)
        raise Unsupported('builtin %s' % name)

    def bind_args(self, a, args, kwargs, defaults, kwdefaults, fname,
                  env):
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        npos = len(names)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
                if n in kwargs:
                    raise self.exc(TypeError, 'multiple values')
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            else:
                j = i - (npos - len(defaults))
                if j < 0:
                    raise self.exc(TypeError, '%s() missing argument %s'
                                   % (fname, n))
                env[n] = defaults[j]
        if len(args) > npos:
            if a.vararg is None:
                raise self.exc(TypeError, '%s() too many arguments' % fname)
            env[a.vararg.arg] = tuple(args[npos:])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                env[x.arg] = kwdefaults[x.arg]
            else:
                raise self.exc(TypeError, 'missing keyword ' + x.arg)
        if a.kwarg is not None:
            env[a.kwarg.arg] = P().alloc(HDict(kwargs))
        elif kwargs:
            raise self.exc(TypeError, '%s() unexpected keyword %s'
                           % (fname, list(kwargs)[0]))

    def call_function(self, f, args, kwargs):
        node = func_node(f)
        fn = f.__code__.co_filename
        if fn.startswith(self.root):
            self.repo_funcs.add(f.__module__ + '.' + f.__qualname__)
        qual = f.__qualname__.split('.')
        clsname = qual[-2] if len(qual) > 1 and qual[-2] != '<locals>' \
            else None
        fr = Frame(f.__globals__, None, clsname, None, f.__name__)
        if f.__closure__:
            outer = Frame(f.__globals__)
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    val = c.cell_contents
                except ValueError:
                    continue
                if n == '__class__':
                    fr.cls = val
                    outer.env[n] = val
                else:
                    outer.env[n] = self.from_py(val)
            fr.parent = outer
        defaults = [self.from_py(x) for x in (f.__defaults__ or ())]
        kwd = {k: self.from_py(x) for k, x in (f.__kwdefaults__ or {}
                                               ).items()}
        return self.run_body(node, fr, args, kwargs, defaults, kwd,
                             f.__name__)

    def call_closure(self, c, args, kwargs):
        fr = Frame(c.frame.globals, c.frame, c.frame.clsname, c.frame.cls,
                   c.name)
        fr.selfval = c.frame.selfval
        return self.run_body(c.node, fr, args, kwargs, c.defaults,
                             c.kwdefaults, c.name)

    def run_body(self, node, fr, args, kwargs, defaults, kwd, name):
        self.bind_args(node.args, args, kwargs, defaults, kwd, name, fr.env)
        if fr.selfval is None and args:
            fr.selfval = args[0]
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, fr)
        if is_generator(node):
            fr.isgen = self.new_list(())
            try:
                self.exec_block(node.body, fr)
            except ReturnSig:
                pass
            return P().alloc(HIter(P().get(fr.isgen).segs, 'gen'))
        try:
            self.exec_block(node.body, fr)
        except ReturnSig as r:
            return r.v
        return None

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return ExcVal(cls, tuple(args))
        k = cls.__name__
        if cls.__module__ in ('builtins',) or k in self.prims:
            p = self.prims.get(k)
            if p is None:
                raise Unsupported('class %s' % k)
            return p(self, args, kwargs)
        if not cls.__module__.startswith(('riemann', 'contracts', 'dvspec')):
            k = cls.__module__ + '.' + cls.__name__
            if k in self.prims:
                return self.prims[k](self, args, kwargs)
            raise Unsupported('class %s' % k)
        if cls in self.recorded:
            init = self.class_lookup(cls, '__init__')
            env = {}
            self.bind_args(
                func_node(init).args, [None] + args, kwargs,
                [self.from_py(x) for x in (init.__defaults__ or ())],
                {k: self.from_py(x)
                 for k, x in (init.__kwdefaults__ or {}).items()},
                '__init__', env)
            del env[func_node(init).args.args[0].arg]
            return P().alloc(HObj(cls, env))
        obj = P().alloc(HObj(cls, {}))
        init = self.class_lookup(cls, '__init__')
        new = self.class_lookup(cls, '__new__')
        if new is not None:
            raise Unsupported('__new__')
        if init is not None:
            self.call(init, [obj] + args, kwargs)
        elif args or kwargs:
            raise self.exc(TypeError, 'no arguments expected')
        return obj

    # ---------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value else None)

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            self.store_name(t.id, self.inplace(
                type(s.op).__name__, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            n = self.mangle(t.attr, fr)
            cur = self.getattr(obj, n)
            self.setattr(obj, n, self.inplace(
                type(s.op).__name__, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            idx = self.ev_slice(t.slice, fr)
            cur = self.getitem(obj, idx)
            self.setitem(obj, idx, self.inplace(
                type(s.op).__name__, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, a, b):
        p = P()
        if isinstance(a, Ref):
            rec = p.heap[a.id]
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__i%s__' % OPN[op])
                if f is not None:
                    return self.call(f, [a, b], {})
            elif isinstance(rec, HBA) and op == 'Add':
                self.put(a, HBA(R.rcat(rec.rope, self.rope(b))))
                return a
            elif isinstance(rec, HList) and op == 'Add':
                self.put(a, HList(rec.segs + tuple(self.iter_segs(b))))
                return a
        return self.binop(op, a, b)

    def x_If(self, s, fr):
        from dv import loops
        if loops.try_merge_if(self, s, fr):
            return
        if self.truth(self.ev(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_For(self, s, fr):
        from dv import loops
        loops.exec_for(self, s, fr)

    def x_While(self, s, fr):
        from dv import loops
        loops.exec_while(self, s, fr)

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.env.get('__exc__')
            f = fr
            while cur is None and f.parent is not None:
                f = f.parent
                cur = f.env.get('__exc__')
            if cur is None:
                raise self.exc(RuntimeError, 'no active exception')
            raise PyRaise(cur)
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v, ())
        if not isinstance(v, ExcVal):
            raise self.exc(TypeError, 'exceptions must derive')
        raise PyRaise(v)

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise self.exc(AssertionError)

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(x, type)
                                 and issubclass(e.exc.cls, x) for x in ts)
                    if ok:
                        if h.name:
                            fr.env[h.name] = e.exc
                        old = fr.env.get('__exc__')
                        fr.env['__exc__'] = e.exc
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.env['__exc__'] = old
                            if h.name:
                                fr.env.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                import sys
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (PyRaise, ReturnSig,
                                                 BreakSig, ContinueSig)):
                    self.exec_block(s.finalbody, fr)

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated local function')
        fr.env[s.name] = Closure(
            s, fr, s.name, [self.ev(d, fr) for d in s.args.defaults],
            {a.arg: self.ev(d, fr) for a, d in
             zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})

    def x_Global(self, s, fr):
        fr.globalnames.update(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def x_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            fr.env[a.asname or a.name.split('.')[0]] = m if a.asname else \
                importlib.import_module(a.name.split('.')[0])

    def x_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            fr.env[a.asname or a.name] = self.getattr(m, a.name)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr),
                             self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr),
                             self.ev_slice(t.slice, fr))
            else:
                raise Unsupported('del')

    def x_With(self, s, fr):
        raise Unsupported('with statement')

    # --------------------------------------------------------------- names
    def mangle(self, n, fr):
        if n.startswith('__') and not n.endswith('__') and fr.clsname:
            return '_%s%s' % (fr.clsname.lstrip('_'), n)
        return n

    def load_name(self, n, fr):
        n = self.mangle(n, fr)
        if n not in fr.globalnames:
            f = fr
            while f is not None:
                if n in f.env:
                    v = f.env[n]
                    if v is POISON:
                        raise Unsupported('value of %s after a loop' % n)
                    if v is not UNDEF:
                        return v
                    raise self.exc(UnboundLocalError, n)
                f = f.parent
        return self.load_global(n, fr)

    def load_global(self, n, fr):
        g = fr.globals
        ov = P().globals.get(('mod', id(g), n), UNDEF)
        if ov is not UNDEF:
            return ov
        if n in g:
            if n == 'network' and g.get('__name__') == 'riemann' \
                    and self.net is not None:
                return NetVal(self.net)
            v = g[n]
            k = g.get('__name__', '') + '.' + n
            if k in self.prims:
                return Prim(k, self.prims[k])
            return self.from_py(v)
        if hasattr(builtins, n):
            v = getattr(builtins, n)
            if isinstance(v, type):
                return v
            if n in self.prims:
                return Prim(n, self.prims[n])
            if v is None or isinstance(v, (bool, int, str)):
                return v
            raise Unsupported('builtin %s' % n)
        raise self.exc(NameError, n)

    def store_name(self, n, v, fr):
        n = self.mangle(n, fr)
        if n in fr.globalnames:
            P().globals[('mod', id(fr.globals), n)] = v
            P().frame_writes.append('assigns global %s.%s' % (
                fr.globals.get('__name__'), n))
            return
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.env:
                    f.env[n] = v
                    return
                f = f.parent
        fr.env[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            segs = list(self.iter_segs(v))
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                vals = []
                tup = STup(segs)
                for j in range(i):
                    vals.append(self.getitem(tup, j))
                mid = R.list_slice(segs, i, -after if after else None)
                vals.append(self.new_list(mid))
                for j in range(after):
                    vals.append(self.getitem(tup, j - after))
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred)
                                else x, y, fr)
                return
            n = list_len(segs)
            ok = (n == len(t.elts)) if isinstance(n, int) else \
                P().branch(zi(n) == len(t.elts))
            if not ok:
                raise self.exc(ValueError, 'unpack')
            tup = STup(segs)
            for i, x in enumerate(t.elts):
                self.assign(x, self.getitem(tup, i), fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr),
                         self.ev_slice(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    # --------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' \
                and not e.args:
            cls = fr.cls
            f = fr
            while cls is None and f is not None:
                cls = f.env.get('__class__')
                f = f.parent
            return SuperVal(cls, fr.selfval)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                segs = self.iter_segs(v)
                if not all(isinstance(s, LItem) for s in segs):
                    raise Unsupported('star argument of symbolic length')
                args.extend(s.v for s in segs)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                d = self.dict_items(v)
                kw.update(d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def dict_items(self, v):
        if isinstance(v, Ref):
            r = P().heap[v.id]
            if isinstance(r, HDict):
                return dict(r.items)
        if isinstance(v, dict):
            return dict(v)
        raise Unsupported('dict expected')

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.ev(e.left, fr),
                          self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            return self.negate(v)
        if op == 'USub':
            if isinstance(v, (SInt, SBool)):
                return mk_int(-zi(ie(v)))
            return self.native(lambda: -v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, SInt):
                return mk_int(-v.e - 1)
            if hasattr(v, 'dv_invert'):
                return v.dv_invert()
            return self.native(lambda: ~v)
        raise Unsupported(op)

    def negate(self, v):
        if isinstance(v, SBool):
            return mk_bool(z3.Not(v.e))
        if hasattr(v, 'dv_not'):
            return v.dv_not(self)
        return not self.truth(v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, fr)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return self.ev(e.values[-1], fr)

    def e_IfExp(self, e, fr):
        t = self.ev(e.test, fr)
        if hasattr(t, 'dv_ite'):
            from dv import bits
            r = bits.if_exp(self, e, t, fr)
            if r is not None:
                return r
        if self.truth(t):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            rv = self.ev(r, fr)
            res = self.compare(type(op).__name__, l, rv)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            l = rv
        return res

    def e_Tuple(self, e, fr):
        return self.mk_tuple(self.display(e.elts, fr))

    def mk_tuple(self, segs):
        if all(isinstance(s, LItem) for s in segs):
            return tuple(s.v for s in segs)
        return STup(segs)

    def e_List(self, e, fr):
        return self.new_list(self.display(e.elts, fr))

    def e_Set(self, e, fr):
        segs = self.display(e.elts, fr)
        if not all(isinstance(s, LItem) for s in segs):
            raise Unsupported('set display')
        return P().alloc(HSet([s.v for s in segs]))

    def display(self, elts, fr):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_segs(self.ev(x.value, fr)))
            else:
                segs.append(LItem(self.ev(x, fr)))
        return segs

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.dict_items(self.ev(v, fr)))
            else:
                kk = self.ev(k, fr)
                if not self.plain(kk):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.ev(v, fr)
        return P().alloc(HDict(d))

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_slice(e.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, fr) if s.lower else None,
                         self.ev(s.upper, fr) if s.upper else None,
                         self.ev(s.step, fr) if s.step else None)
        return self.ev(s, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                conv = v.conversion
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                parts.append(self.format_value(x, spec, conv))
        return self.join_strs(parts)

    def format_value(self, x, spec='', conv=-1):
        if conv in (114, 97):
            if self.plain(x):
                return repr(x)
            return Opaque(str)
        if self.plain(x) and isinstance(spec, str) \
                and not isinstance(x, tuple):
            try:
                return format(x, spec)
            except Exception as ex:
                raise PyRaise(ExcVal(type(ex), ex.args))
        if spec == '' and isinstance(x, (SStr,)):
            return x
        if spec == '' and isinstance(x, NetName):
            return Opaque(str)
        if hasattr(x, 'dv_format'):
            return x.dv_format(self, spec)
        if spec == '' and isinstance(x, SInt):
            return strs.FmtInt('', x.e, '')
        return Opaque(str)

    def join_strs(self, parts):
        if any(isinstance(x, Opaque) for x in parts):
            return Opaque(str)
        if any(hasattr(x, 'dv_strjoin') for x in parts):
            x = [x for x in parts if hasattr(x, 'dv_strjoin')][0]
            return x.dv_strjoin(self, parts)
        if all(isinstance(x, str) for x in parts):
            return ''.join(parts)
        return self.unstr(R.rcat(*[self.srope(x) for x in parts]))

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def e_Lambda(self, e, fr):
        return Closure(e, fr, '<lambda>',
                       [self.ev(d, fr) for d in e.args.defaults],
                       {a.arg: self.ev(d, fr) for a, d in
                        zip(e.args.kwonlyargs, e.args.kw_defaults)
                        if d is not None})

    def e_ListComp(self, e, fr):
        from dv import loops
        return self.new_list(loops.comprehension(self, e, fr))

    def e_GeneratorExp(self, e, fr):
        from dv import loops
        return P().alloc(HIter(loops.comprehension(self, e, fr), 'gen'))

    def e_SetComp(self, e, fr):
        from dv import loops
        segs = loops.comprehension(self, e, fr)
        if not all(isinstance(s, LItem) for s in segs):
            raise Unsupported('set comprehension')
        return P().alloc(HSet([s.v for s in segs]))

    def e_DictComp(self, e, fr):
        from dv import loops
        e2 = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value],
                                        ctx=ast.Load()),
                          generators=e.generators)
        segs = loops.comprehension(self, e2, fr)
        d = {}
        for s in segs:
            if not isinstance(s, LItem):
                raise Unsupported('dict comprehension')
            k = self.getitem(s.v, 0)
            if not self.plain(k):
                raise Unsupported('symbolic dict key')
            d[k] = self.getitem(s.v, 1)
        return P().alloc(HDict(d))

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value else None
        f = fr
        while f.isgen is None:
            f = f.parent
        rec = P().get(f.isgen)
        P().put(f.isgen, HList(rec.segs + (LItem(v),)))
        return None

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.isgen is None:
            f = f.parent
        rec = P().get(f.isgen)
        P().put(f.isgen, HList(rec.segs + tuple(self.iter_segs(v))))
        return None

    # ---------------------------------------------------------- operations
    def plain(self, v):
        if v is None or isinstance(v, (bool, int, str, bytes, float)):
            return True
        if isinstance(v, tuple):
            return all(self.plain(x) for x in v)
        return False

    def native(self, fn):
        try:
            return fn()
        except (PyRaise, Unsupported, Infeasible):
            raise
        except Exception as ex:
            raise PyRaise(ExcVal(type(ex), ex.args))

    def binop(self, op, a, b):
        if self.plain(a) and self.plain(b):
            f = NATIVE[op]
            if op in ('Pow', 'LShift') and isinstance(b, int) and b > 10000:
                raise Unsupported('huge power')
            return self.native(lambda: f(a, b))
        for x in (a, b):
            if hasattr(x, 'dv_binop'):
                r = x.dv_binop(self, op, a, b)
                if r is not NotImplemented:
                    return r
        if isinstance(a, Ref):
            rec = P().heap[a.id]
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__%s__' % OPN[op])
                if f is not None:
                    return self.call(f, [a, b], {})
        if isinstance(b, Ref):
            rec = P().heap[b.id]
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__r%s__' % OPN[op])
                if f is not None:
                    return self.call(f, [b, a], {})
                raise self.exc(TypeError, 'unsupported operand')
        ta, tb = self.pytype(a), self.pytype(b)
        if ta in (int, bool) and tb in (int, bool):
            if self.bits and (op in BITWISE or self.words and
                              op == 'Add'):
                from dv import bits
                return bits.bit_op(self, op, a, b)
            return self.int_op(op, a, b)
        if op == 'Mod' and ta is str:
            return Opaque(str)
        if op == 'Add':
            if ta in (bytes, bytearray) and tb in (bytes, bytearray):
                r = R.rcat(self.rope(a), self.rope(b))
                if ta is bytearray:
                    return self.new_ba(r)
                return self.unrope(r)
            if ta is str and tb is str:
                return self.join_strs([a, b])
            if ta is list and tb is list:
                return self.new_list(tuple(self.iter_segs(a))
                                     + tuple(self.iter_segs(b)))
            if ta is tuple and tb is tuple:
                return self.mk_tuple(list(self.iter_segs(a))
                                     + list(self.iter_segs(b)))
        if op == 'Mult':
            if tb in (bytes, bytearray, str, list, tuple) and ta in (
                    int, bool):
                a, b, ta, tb = b, a, tb, ta
            if ta in (bytes, bytearray, str, list, tuple) and tb in (
                    int, bool):
                return self.repeat(a, ta, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('%s on unknown value' % op)
        raise self.exc(TypeError, 'unsupported operand types for %s: %s %s'
                       % (op, ta, tb))

    def repeat(self, a, ta, b):
        n = ie(b)
        if isinstance(n, int):
            n = max(n, 0)
            if ta in (list, tuple):
                segs = list(self.iter_segs(a)) * n
                return self.new_list(segs) if ta is list else \
                    self.mk_tuple(segs)
            r = self.srope(a) if ta is str else self.rope(a)
            r = R.mk_rope(r.segs * n)
        else:
            k = P().fresh_int('rep')
            hi = n if P().provable(n >= 0) else \
                (n if P().branch(n >= 0) else 0)
            if ta in (list, tuple):
                segs = list(self.iter_segs(a))
                if len(segs) != 1 or not isinstance(segs[0], LItem):
                    raise Unsupported('symbolic list repetition')
                segs = [LMap(k, 0, hi, segs[0].v)]
                return self.new_list(segs) if ta is list else STup(segs)
            r = self.srope(a) if ta is str else self.rope(a)
            r = R.mk_rope([R.Cat(k, 0, hi, r)])
        if ta is str:
            return self.unstr(r)
        if ta is bytearray:
            return self.new_ba(r)
        return self.unrope(r)

    def int_op(self, op, a, b):
        x, y = ie(a), ie(b)
        p = P()
        if op == 'Add':
            return mk_int(x + y)
        if op == 'Sub':
            return mk_int(x - y)
        if op == 'Mult':
            return mk_int(x * y)
        if op in ('FloorDiv', 'Mod'):
            if isinstance(y, int):
                if y == 0:
                    raise self.exc(ZeroDivisionError)
                if y < 0:
                    raise Unsupported('negative divisor')
                if self.folds and op == 'Mod':
                    e = simp(zi(x) % y)
                    if isinstance(e, int):
                        return e
                    if z3.is_mod(e) and p.provable(z3.And(
                            e.arg(0) >= 0, e.arg(0) < e.arg(1))):
                        return mk_int(e.arg(0))
                    return mk_int(e)
                return mk_int(zi(x) / y if op == 'FloorDiv' else zi(x) % y)
            if p.branch(y == 0):
                raise self.exc(ZeroDivisionError)
            if not p.branch(y > 0):
                raise Unsupported('negative divisor')
            return mk_int(zi(x) / y if op == 'FloorDiv' else zi(x) % y)
        if op == 'LShift' and isinstance(y, int):
            return mk_int(x * (1 << y))
        if op == 'RShift' and isinstance(y, int):
            return mk_int(zi(x) / (1 << y))
        if op in ('BitAnd', 'BitOr', 'BitXor') and all(
                isinstance(v, (bool, SBool)) for v in (a, b)):
            u, v = (z3.BoolVal(t) if isinstance(t, bool) else t.e
                    for t in (a, b))
            return mk_bool({'BitAnd': z3.And, 'BitOr': z3.Or,
                            'BitXor': z3.Xor}[op](u, v))
        if op == 'BitAnd':
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int) and y >= 0:
                if y == 0:
                    return 0
                if (y & (y + 1)) == 0:
                    return mk_int(x % (y + 1))
                # general mask: sum of single bits
                e = 0
                i = 0
                while (1 << i) <= y:
                    if y >> i & 1:
                        e = e + ((x / (1 << i)) % 2) * (1 << i)
                    i += 1
                return mk_int(e)
        if op == 'BitOr':
            for u, v in ((x, y), (y, x)):
                # disjoint or: u multiple of 2^k, 0 <= v < 2^k
                for k in (1, 2, 4, 5, 6, 7, 8, 16, 24, 32):
                    m = 1 << k
                    if p.provable(z3.And(zi(v) >= 0, zi(v) < m,
                                         zi(u) % m == 0)):
                        return mk_int(zi(u) + zi(v))
            if isinstance(y, int) and y >= 0 or isinstance(x, int) and \
                    x >= 0:
                if isinstance(x, int):
                    x, y = y, x
                e = x
                i = 0
                while (1 << i) <= y:
                    if y >> i & 1:
                        e = e + (1 - (x / (1 << i)) % 2) * (1 << i)
                    i += 1
                return mk_int(e)
        if op == 'BitXor':
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int) and y >= 0:
                e = x
                i = 0
                while (1 << i) <= y:
                    if y >> i & 1:
                        e = e + (1 - 2 * ((x / (1 << i)) % 2)) * (1 << i)
                    i += 1
                return mk_int(e)
        if op == 'Pow' and isinstance(y, int) and 0 <= y <= 8:
            e = 1
            for _ in range(y):
                e = e * x
            return mk_int(e)
        if op == 'Pow' and isinstance(x, int) or op == 'LShift':
            lo, hi = 0, 600
            base = x if op == 'Pow' else 2
            if isinstance(base, int) and p.provable(
                    z3.And(zi(y) >= 0, zi(y) <= 64)):
                v = R.concretize(zi(y), 0, 64)
                return (base ** v) if op == 'Pow' else mk_int(x * (1 << v))
        if op == 'RShift':
            if p.provable(z3.And(zi(y) >= 0, zi(y) <= 64)):
                v = R.concretize(zi(y), 0, 64)
                return mk_int(zi(x) / (1 << v))
        raise Unsupported('%s on symbolic integers' % op)

    def compare(self, op, a, b):
        if op == 'Is' or op == 'IsNot':
            r = self.identical(a, b)
            return r if op == 'Is' else (not r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else self.negate(r)
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            if isinstance(a, Ref):
                rec = P().heap[a.id]
                if isinstance(rec, HObj):
                    f = self.class_lookup(rec.cls, '__ne__')
                    if f is not None:
                        return self.call(f, [a, b], {})
            if isinstance(b, Ref) and not isinstance(a, Ref):
                rec = P().heap[b.id]
                if isinstance(rec, HObj):
                    f = self.class_lookup(rec.cls, '__ne__')
                    if f is not None:
                        return self.call(f, [b, a], {})
            return self.negate(self.eq(a, b))
        if self.plain(a) and self.plain(b):
            return self.native(lambda: NATIVE[op](a, b))
        for x in (a, b):
            if hasattr(x, 'dv_compare'):
                return x.dv_compare(self, op, a, b)
        ta, tb = self.pytype(a), self.pytype(b)
        if ta in (int, bool) and tb in (int, bool):
            x, y = zi(ie(a)), zi(ie(b))
            return mk_bool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y,
                            'GtE': x >= y}[op])
        if ta in (int, bool, bytes, str, type(None)) and tb in (
                int, bool, bytes, str, type(None)) and ta is not tb:
            raise self.exc(TypeError, 'ordering')
        if ta is bytes and tb is bytes:
            ba = R.rope_bytes(self.rope(a))
            bb = R.rope_bytes(self.rope(b))
            if ba is not None and bb is not None and len(ba) == len(bb):
                x = y = 0
                for u, v in zip(ba, bb):
                    x = x * 256 + zi(u)
                    y = y * 256 + zi(v)
                return mk_bool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y,
                                'GtE': x >= y}[op])
        raise Unsupported('ordering of %s and %s' % (ta, tb))

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if a is None or b is None:
            return False
        if isinstance(a, NetVal) and isinstance(b, (NetVal, type)):
            bc = b.cls if isinstance(b, NetVal) else b
            self.observe('is:' + bc.__name__, a.cls is bc)
            return a.cls is bc
        if isinstance(b, NetVal):
            return self.identical(b, a)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, SBool) or isinstance(b, SBool):
                r = self.eq(a, b)
                return self.truth(r)
            return a is b
        if isinstance(a, (type, types.ModuleType, types.FunctionType)) or \
                isinstance(b, (type, types.ModuleType, types.FunctionType)):
            return a is b
        if self.plain(a) and self.plain(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if type(a) is not type(b):
                return False
            if isinstance(a, str):
                return a == b
            if a != b:
                return False
            raise Unsupported('identity of equal constants')
        if self.pytype(a) is not self.pytype(b):
            return False
        raise Unsupported('identity test')

    def eq(self, a, b):
        if self.plain(a) and self.plain(b):
            return a == b
        for x in (a, b):
            if hasattr(x, 'dv_eq'):
                return x.dv_eq(self, a, b)
        if isinstance(a, NetName) or isinstance(b, NetName):
            if not isinstance(a, NetName):
                a, b = b, a
            if isinstance(b, NetName):
                if a.src == b.src:
                    return True
                b = self.netname_concrete(b)
            if isinstance(b, str):
                r = a.name == b
                self.observe('eq:%s:%s' % (a.src, b), r)
                return r
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                rec = P().heap[x.id]
                if isinstance(rec, HObj):
                    f = self.class_lookup(rec.cls, '__eq__')
                    if f is not None:
                        return self.call(f, [x, y], {})
                    return isinstance(y, Ref) and x.id == y.id
        if isinstance(a, NetVal) or isinstance(b, NetVal) or \
                isinstance(a, type) or isinstance(b, type):
            return self.identical(a, b)
        ta, tb = self.pytype(a), self.pytype(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if ta is not tb and not (ta in (bytes, bytearray)
                                     and tb in (bytes, bytearray)):
                return False
            raise Unsupported('comparison of unknown values')
        if ta in (int, bool) and tb in (int, bool):
            if ta is bool and tb is bool and (isinstance(a, SBool)
                                              or isinstance(b, SBool)):
                x = a.e if isinstance(a, SBool) else z3.BoolVal(a)
                y = b.e if isinstance(b, SBool) else z3.BoolVal(b)
                return mk_bool(x == y)
            return mk_bool(zi(ie(a)) == zi(ie(b)))
        if ta in (bytes, bytearray) and tb in (bytes, bytearray):
            r = R.rope_eq_cond(self.rope(a), self.rope(b))
            return r if isinstance(r, bool) else mk_bool(r)
        if ta is str and tb is str:
            h = hex_eq(self, a, b)
            if h is not None:
                return h
            r = R.rope_eq_cond(self.srope(a), self.srope(b))
            return r if isinstance(r, bool) else mk_bool(r)
        if ta is tb and ta in (list, tuple):
            return self.seq_eq(list(self.iter_segs(a)),
                               list(self.iter_segs(b)))
        if ta is not tb:
            return False
        if ta is dict:
            x, y = self.dict_items(a), self.dict_items(b)
            if set(x) != set(y):
                return False
            for k in x:
                if not self.truth(self.eq(x[k], y[k])):
                    return False
            return True
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return True
        raise Unsupported('equality of %s' % ta)

    def seq_eq(self, s1, s2):
        n1, n2 = list_len(s1), list_len(s2)
        if isinstance(n1, int) and isinstance(n2, int):
            if n1 != n2:
                return False
        elif not P().branch(zi(n1) == zi(n2)):
            return False
        if not all(isinstance(s, LItem) for s in s1 + s2):
            if self.seq_prove_eq(s1, s2):
                return True
            raise Unsupported('equality of symbolic sequences')
        for x, y in zip(s1, s2):
            if not self.truth(self.eq(x.v, y.v)):
                return False
        return True

    def seq_prove_eq(self, s1, s2):
        from dv import proof
        return proof.segs_eq(self, s1, s2)

    def contains(self, c, x):
        if hasattr(c, 'dv_contains'):
            return c.dv_contains(self, x)
        if isinstance(c, NetName):
            if isinstance(x, str):
                r = x in c.name
                self.observe('in:%s:%s' % (c.src, x), r)
                return r
            raise Unsupported('in network name')
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (Ref,)):
            rec = P().heap[c.id]
            if isinstance(rec, HDict):
                if self.plain(x):
                    return x in rec.items
                if isinstance(x, (SInt, SBool)):
                    ks = [k for k in rec.items if isinstance(k, int)]
                    if not ks:
                        return False
                    return mk_bool(z3.Or([zi(ie(x)) == k for k in ks]))
                if isinstance(x, NetName):
                    return self.netname_concrete(x) in rec.items
                if isinstance(x, SStr):
                    return self.any_eq([k for k in rec.items
                                        if isinstance(k, str)], x)
                if hasattr(x, 'dv_indict'):
                    return x.dv_indict(self, rec.items)
                if isinstance(x, Opaque):
                    raise Unsupported('membership of unknown')
                raise Unsupported('dict membership')
            if isinstance(rec, HSet):
                return self.any_eq(rec.items, x)
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__contains__')
                if f is not None:
                    return self.call(f, [c, x], {})
        if self.is_bytes(c):
            if self.pytype(x) in (int, bool):
                bs = R.rope_bytes(self.rope(c))
                if bs is None:
                    raise Unsupported('in bytes')
                return mk_bool(z3.Or([zi(b) == zi(ie(x)) for b in bs])
                               if bs else False)
            if R.as_concrete(self.rope(c)) is not None and \
                    self.is_bytes(x) and \
                    R.as_concrete(self.rope(x)) is not None:
                return R.as_concrete(self.rope(x)) in R.as_concrete(
                    self.rope(c))
            raise Unsupported('in bytes')
        if isinstance(c, (str, SStr)):
            if isinstance(c, str) and hasattr(x, 'dv_instr'):
                return x.dv_instr(self, c)
            if isinstance(c, str) and isinstance(x, SStr):
                b = R.rope_bytes(x.rope)
                if b is not None and len(b) == 1:
                    return mk_bool(z3.Or([zi(b[0]) == ord(ch)
                                          for ch in c]))
            raise Unsupported('in str')
        if c is None or isinstance(c, (int, SInt)):
            raise self.exc(TypeError, 'not iterable')
        segs = self.iter_segs(c)
        if all(isinstance(s, LItem) for s in segs):
            return self.any_eq([s.v for s in segs], x)
        raise Unsupported('membership in symbolic sequence')

    def any_eq(self, vals, x):
        conds = []
        for v in vals:
            r = self.eq(x, v)
            if r is True:
                return True
            if isinstance(r, SBool):
                conds.append(r.e)
        if not conds:
            return False
        return mk_bool(z3.Or(conds))

    # ------------------------------------------------------------ indexing
    def getitem(self, v, i):
        if isinstance(v, (bytes, str, tuple)) and self.plain(v):
            if isinstance(i, slice):
                if all(x is None or isinstance(x, int) for x in
                       (i.start, i.stop, i.step)):
                    return self.native(lambda: v[i])
            elif isinstance(i, int):
                return self.native(lambda: v[i])
        if hasattr(v, 'dv_getitem'):
            return v.dv_getitem(self, i)
        if self.bits and isinstance(i, SInt) and isinstance(v, str):
            from dv import bits
            b = bits.of_term(self, i.e)
            i = b if b is not None else i
        if hasattr(i, 'dv_table'):
            if isinstance(v, str):
                return i.dv_table(self, v)
            if isinstance(v, bytes):
                v = tuple(v)
            if self.pytype(v) in (list, tuple):
                r = i.dv_tuple_item(self, self.iter_segs(v))
                if r is not None:
                    return r
            i = mk_int(ie(i))
        if isinstance(i, Ref):
            rec = P().heap[i.id]
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__index__')
                if f is not None:
                    i = self.call(f, [i], {})
        if isinstance(v, Ref):
            rec = P().heap[v.id]
            if isinstance(rec, HBA):
                if isinstance(i, slice):
                    return self.new_ba(R.rope_slice(
                        rec.rope, i.start, i.stop, i.step))
                return self.rope_item(rec.rope, i)
            if isinstance(rec, HList):
                if isinstance(i, slice):
                    return self.new_list(R.list_slice(
                        rec.segs, i.start, i.stop, i.step))
                return self.list_item(rec.segs, i)
            if isinstance(rec, HDict):
                return self.dict_get(rec, i)
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__getitem__')
                if f is not None:
                    return self.call(f, [v, i], {})
            raise self.exc(TypeError, 'not subscriptable')
        if isinstance(v, (bytes, Rope)):
            r = self.rope(v)
            if isinstance(i, slice):
                return self.unrope(R.rope_slice(r, i.start, i.stop, i.step))
            return self.rope_item(r, i)
        if isinstance(v, (str, SStr, NetName)):
            r = self.srope(v)
            if isinstance(i, slice):
                return self.unstr(R.rope_slice(r, i.start, i.stop, i.step))
            self.need_int(i)
            b = R.rope_index(r, i)
            if b is None:
                raise self.exc(IndexError, 'string index')
            return self.unstr(Rope((R.byte_seg(ie(b)),)))
        if isinstance(v, (tuple, STup)):
            segs = self.iter_segs(v)
            if isinstance(i, slice):
                return self.mk_tuple(list(R.list_slice(
                    segs, i.start, i.stop, i.step)))
            return self.list_item(segs, i)
        if v is None or isinstance(v, (int, SInt, SBool)):
            raise self.exc(TypeError, 'not subscriptable')
        if isinstance(v, type) or type(v).__module__ == 'typing':
            return v     # typing subscript, e.g. List[int]
        raise Unsupported('subscript of %r' % (v,))

    def need_int(self, i):
        t = self.pytype(i)
        if t not in (int, bool):
            raise self.exc(TypeError, 'index must be int')

    def rope_item(self, r, i):
        self.need_int(i)
        b = R.rope_index(r, i)
        if b is None:
            raise self.exc(IndexError, 'index out of range')
        return b

    def list_item(self, segs, i):
        self.need_int(i)
        loc = R.list_locate(list(segs), i)
        if loc is None:
            raise self.exc(IndexError, 'list index out of range')
        return loc[1]

    def dict_get(self, rec, i, default=UNDEF):
        p = P()
        if isinstance(i, NetName):
            i = self.netname_concrete(i)
        if self.plain(i):
            if i in rec.items:
                return rec.items[i]
            if default is not UNDEF:
                return default
            raise self.exc(KeyError, i)
        if hasattr(i, 'dv_dictget'):
            return i.dv_dictget(self, rec.items, default)
        if isinstance(i, SInt):
            ks = [k for k in rec.items if isinstance(k, int)]
            vals = [rec.items[k] for k in ks]
            if len(ks) > 24 and all(isinstance(v, int) and not isinstance(
                    v, bool) for v in vals):
                if not p.branch(z3.Or([i.e == k for k in ks])):
                    if default is not UNDEF:
                        return default
                    raise self.exc(KeyError, i)
                return strs.int_table(i.e, list(zip(ks, vals)))
            if len(ks) > 3 and all(isinstance(v, str) for v in vals):
                if not p.branch(z3.Or([i.e == k for k in ks])):
                    if default is not UNDEF:
                        return default
                    raise self.exc(KeyError, i)
                return strs.FinStr(i.e, dict(zip(ks, vals)))
            for k in ks:
                if p.branch(i.e == k):
                    return rec.items[k]
            if default is not UNDEF:
                return default
            raise self.exc(KeyError, i)
        if isinstance(i, SStr):
            for k in rec.items:
                if isinstance(k, str) and self.truth(self.eq(i, k)):
                    return rec.items[k]
            if default is not UNDEF:
                return default
            raise self.exc(KeyError, i)
        raise Unsupported('dict lookup')

    def setitem(self, v, i, x):
        p = P()
        if isinstance(v, Ref):
            rec = p.heap[v.id]
            if isinstance(rec, HList):
                if isinstance(i, slice):
                    if i.step is not None:
                        raise Unsupported('slice step assignment')
                    n = list_len(rec.segs)
                    a = R.norm_index(i.start, n, 0)
                    b = R.norm_index(i.stop, n, n)
                    if not P().branch(zi(a) <= zi(b)):
                        b = a
                    left, rest = R.lcut(rec.segs, a)
                    _, right = R.lcut(rec.segs, b)
                    self.put(v, HList(list(left) + list(self.iter_segs(x))
                                      + list(right)))
                    return
                self.need_int(i)
                loc = R.list_locate(list(rec.segs), i)
                if loc is None:
                    raise self.exc(IndexError, 'assignment index')
                self.put(v, HList(list(loc[0]) + [LItem(x)]
                                  + list(loc[2])))
                return
            if isinstance(rec, HDict):
                if isinstance(i, NetName):
                    i = self.netname_concrete(i)
                if p.intern.get(('isglob', v.id)):
                    self.put(v, rec)
                if not self.plain(i):
                    raise Unsupported('symbolic dict key')
                d = dict(rec.items)
                d[i] = x
                self.put(v, HDict(d))
                return
            if isinstance(rec, HBA):
                if isinstance(i, slice):
                    n = rope_len(rec.rope)
                    a = R.norm_index(i.start, n, 0)
                    b = R.norm_index(i.stop, n, n)
                    left, _ = R.cut(rec.rope.segs, a)
                    _, right = R.cut(rec.rope.segs, b)
                    self.put(v, HBA(R.mk_rope(
                        list(left) + list(self.rope(x).segs)
                        + list(right))))
                    return
                n = rope_len(rec.rope)
                a = R.norm_index(i, n, 0)
                left, rest = R.cut(rec.rope.segs, a)
                _, right = R.cut(rest, 1)
                self.put(v, HBA(R.mk_rope(list(left) + [R.byte_seg(ie(x))]
                                          + list(right))))
                return
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__setitem__')
                if f is not None:
                    self.call(f, [v, i, x], {})
                    return
        raise self.exc(TypeError, 'item assignment')

    def delitem(self, v, i):
        if isinstance(v, Ref):
            rec = P().heap[v.id]
            if isinstance(rec, HDict) and self.plain(i):
                d = dict(rec.items)
                if i not in d:
                    raise self.exc(KeyError, i)
                del d[i]
                self.put(v, HDict(d))
                return
            if isinstance(rec, HList):
                if isinstance(i, slice):
                    self.setitem(v, i, ())
                    return
                loc = R.list_locate(list(rec.segs), i)
                if loc is None:
                    raise self.exc(IndexError, 'del')
                self.put(v, HList(list(loc[0]) + list(loc[2])))
                return
            if isinstance(rec, HBA):
                if isinstance(i, slice):
                    self.setitem(v, i, b'')
                    return
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__delitem__')
                if f is not None:
                    self.call(f, [v, i], {})
                    return
                raise self.exc(TypeError, 'item deletion')
        raise Unsupported('del item')

    # ----------------------------------------------------------- iteration
    def iter_segs(self, v):
        """value -> list segments (what iterating over it yields)"""
        p = P()
        if isinstance(v, tuple):
            return [LItem(x) for x in v]
        if isinstance(v, STup):
            return list(v.segs)
        if isinstance(v, bytes):
            return [LItem(x) for x in v]
        if isinstance(v, str):
            return [LItem(x) for x in v]
        if isinstance(v, range):
            return [LItem(x) for x in v]
        if isinstance(v, Rope):
            return self.rope_iter(v)
        if isinstance(v, SStr):
            if R.const_len(v.rope) is not None:
                bs = R.rope_bytes(v.rope)
                if bs is not None:
                    return [LItem(self.unstr(Rope((R.byte_seg(b),))))
                            for b in bs]
            raise Unsupported('iteration over symbolic text')
        if isinstance(v, Ref):
            rec = p.heap[v.id]
            if isinstance(rec, HList):
                return list(rec.segs)
            if isinstance(rec, HIter):
                segs = list(rec.segs)
                p.put(v, HIter((), rec.kind))
                if rec.kind == 'rope':
                    out = []
                    for r in segs:
                        out.extend(self.rope_iter(r))
                    return out
                return segs
            if isinstance(rec, HBA):
                return self.rope_iter(rec.rope)
            if isinstance(rec, HDict):
                return [LItem(k) for k in rec.items]
            if isinstance(rec, HSet):
                return [LItem(k) for k in rec.items]
            if isinstance(rec, HObj):
                f = self.class_lookup(rec.cls, '__iter__')
                if f is not None:
                    return self.iter_segs(self.call(f, [v], {}))
                g = self.class_lookup(rec.cls, '__getitem__')
                if g is not None:
                    raise Unsupported('sequence protocol iteration')
            raise self.exc(TypeError, 'not iterable')
        if hasattr(v, 'dv_iter'):
            return v.dv_iter(self)
        if v is None or isinstance(v, (int, SInt, SBool, NetVal)):
            raise self.exc(TypeError, 'not iterable')
        if isinstance(v, NetName):
            return self.iter_segs(self.netname_concrete(v))
        raise Unsupported('iteration over %r' % (v,))

    def rope_iter(self, r):
        n = R.const_len(r)
        if n is not None and n <= 4096:
            out = []
            for s in r.segs:
                bs = R.seg_bytes(s)
                if bs is None:
                    break
                out.extend(LItem(mk_int(b) if not isinstance(b, int) else b)
                           for b in bs)
            else:
                return out
        segs = []
        for s in r.segs:
            if isinstance(s, Lit):
                segs.extend(LItem(b) for b in s.b)
            elif isinstance(s, R.Sub):
                k = P().fresh_int('bi')
                with R.scope(zi(s.lo) <= k, k < zi(s.hi)):
                    e = R.atom_byte(s.a, k)
                segs.append(LMap(k, s.lo, s.hi, SInt(e),
                                 [z3.And(e >= 0, e <= 255)]))
            elif isinstance(s, R.Rev) and isinstance(s.seg, R.Sub):
                k = P().fresh_int('bi')
                n = zi(R.seg_len(s))
                with R.scope(0 <= k, k < n):
                    e = R.atom_byte(s.seg.a, zi(s.seg.hi) - 1 - k)
                segs.append(LMap(k, 0, simp(n), SInt(e),
                                 [z3.And(e >= 0, e <= 255)]))
            elif isinstance(s, R.Cat) and R.const_len(s.rope) == 1 \
                    and R.rope_bytes(s.rope) is not None:
                b = R.rope_bytes(s.rope)[0]
                segs.append(LMap(s.k, s.lo, s.hi, b if isinstance(b, int)
                                 else mk_int(b), s.facts))
            else:
                bs = R.seg_bytes(s)
                if bs is None:
                    raise Unsupported('iteration over bytes %r' % (s,))
                segs.extend(LItem(mk_int(b) if not isinstance(b, int)
                                  else b) for b in bs)
        return segs


BITWISE = ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor')

OPN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'FloorDiv': 'floordiv',
       'Mod': 'mod', 'LShift': 'lshift', 'RShift': 'rshift',
       'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Pow': 'pow',
       'Div': 'truediv', 'MatMult': 'matmul'}

NATIVE = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
    'Mult': lambda a, b: a * b, 'FloorDiv': lambda a, b: a // b,
    'Mod': lambda a, b: a % b, 'LShift': lambda a, b: a << b,
    'RShift': lambda a, b: a >> b, 'BitAnd': lambda a, b: a & b,
    'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
    'Pow': lambda a, b: a ** b, 'Div': lambda a, b: a / b,
    'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
    'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
}
