"""Frame analysis: no function but select_network writes global state.

One obligation per function of riemann (tests and examples aside), discharged
by a syntactic, flow-insensitive rule over its source:

- no assignment to a global, to an attribute or an element of anything
  reached from a module, a class or a global table, and no mutating method
  call on such a thing (local aliases are followed);
- no state kept between calls: no mutable default that is modified, no cache
  around a function that depends on the selected network;
- the selected network is read when a function runs, not when a module is
  imported (no default, class attribute or module constant from it).
"""
import ast
import os
import types

import riemann

SELECT = ('riemann', 'select_network')
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update',
            'setdefault', 'popitem', 'sort', 'reverse', 'add', 'discard',
            '__setitem__', '__delitem__', '__iadd__', 'appendleft',
            'difference_update', 'intersection_update', 'move_to_end'}
PLAIN_DECORATORS = {'classmethod', 'staticmethod', 'property', 'overload',
                    'setter', 'getter', 'deleter', 'abstractmethod', 'wraps',
                    'final', 'contextmanager', 'total_ordering'}
UNDEF = object()


def sources():
    root = os.path.dirname(riemann.__file__)
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in sorted(ds) if x not in ('tests', 'examples',
                                            '__pycache__')]
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                m = os.path.relpath(p, os.path.dirname(root))[:-3]
                m = m.replace(os.sep, '.')
                if m.endswith('.__init__'):
                    m = m[:-9]
                with open(p) as h:
                    text = h.read()
                try:
                    yield m, ast.parse(text)
                except SyntaxError:
                    pass        # cannot be imported either


def module(name):
    import importlib
    return importlib.import_module(name)


class Func:
    def __init__(self, mod, cls, node):
        self.mod = mod
        self.cls = cls
        self.node = node
        self.name = node.name
        self.qual = '.'.join(x for x in (mod, cls, node.name) if x)


def functions(mod, tree):
    def walk(nodes, cls):
        for n in nodes:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield Func(mod, cls, n)
            elif isinstance(n, ast.ClassDef):
                yield from walk(n.body, n.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from walk(getattr(n, f, []), cls)
    return walk(tree.body, '')


def names_bound(fn):
    """local names of a function, with those of nested ones"""
    out = set()
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
    return out - glob


def dotted(e):
    """a.b.c as a list, None for other expressions"""
    out = []
    while isinstance(e, ast.Attribute):
        out.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        out.append(e.id)
        return out[::-1]
    return None


def reads_network(e, mod):
    """does the expression read the selected network?"""
    for n in ast.walk(e):
        d = dotted(n) if isinstance(n, (ast.Attribute, ast.Name)) else None
        if not d:
            continue
        if d[:2] == ['riemann', 'network'] or d[-1] in (
                'get_current_network', 'get_current_network_name'):
            return True
        if mod == 'riemann' and d[0] == 'network':
            return True
    return False


class Check:
    def __init__(self, f, dep):
        self.f = f
        self.g = module(f.mod).__dict__
        self.local = names_bound(f.node)
        self.bad = []
        self.alias = set()
        self.mutdef = set()
        self.dep = dep

    def value(self, e):
        """the module-level object an expression denotes, if known"""
        d = dotted(e)
        if d is None or d[0] in self.local:
            return UNDEF
        v = self.g.get(d[0], UNDEF)
        for x in d[1:]:
            if v is UNDEF:
                return UNDEF
            v = getattr(v, x, UNDEF)
        return v

    def is_global(self, e):
        """may the expression denote something that outlives the call?"""
        if isinstance(e, ast.Name):
            if e.id in self.alias:
                return True
            if e.id in self.local:
                return False
            return e.id in self.g
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in (
                    'self', 'cls') and self.f.cls:
                if e.value.id == 'cls':
                    return True
                c = self.g.get(self.f.cls)
                if isinstance(c, type) and hasattr(c, e.attr) and \
                        e.attr not in self.assigned_self():
                    return not isinstance(getattr(c, e.attr), (
                        types.FunctionType, property))
                return e.attr in ('__class__', '__dict__') and \
                    e.attr == '__class__'
            return self.is_global(e.value)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return False        # slices are copies
            return self.is_global(e.value)
        if isinstance(e, ast.Starred):
            return self.is_global(e.value)
        if isinstance(e, (ast.IfExp,)):
            return self.is_global(e.body) or self.is_global(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.is_global(x) for x in e.values)
        if isinstance(e, ast.NamedExpr):
            return self.is_global(e.value)
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d and d[-1] in ('get_network', 'get_current_network',
                               'import_module'):
                return True
            if d == ['type'] and len(e.args) == 1:
                return True
            if d and d[-1] in ('globals', 'vars', 'getattr') and \
                    d[0] not in self.local:
                return d[-1] == 'globals' or not e.args or \
                    self.is_global(e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    'get', 'setdefault', 'values', 'items'):
                return self.is_global(e.func.value)
        return False

    def assigned_self(self):
        """attributes every instance has of its own"""
        out = set()
        c = self.g.get(self.f.cls)
        tree = self.class_node
        if tree is None or c is None:
            return out
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == '__init__':
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.ctx, ast.Store) and isinstance(
                            x.value, ast.Name) and x.value.id == 'self':
                        out.add(x.attr)
        return out

    class_node = None

    def report(self, n, what):
        self.bad.append('line %d: %s' % (getattr(n, 'lineno', 0), what))

    def targets(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                yield from self.targets(x)
        elif isinstance(t, ast.Starred):
            yield from self.targets(t.value)
        else:
            yield t

    def find_aliases(self):
        while True:
            before = len(self.alias)
            for n in ast.walk(self.f.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    pairs = [(n.target, n.value)]
                elif isinstance(n, ast.NamedExpr):
                    pairs = [(n.target, n.value)]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, ast.withitem) and n.optional_vars:
                    pairs = [(n.optional_vars, n.context_expr)]
                for t, v in pairs:
                    vals = v.elts if isinstance(
                        v, (ast.Tuple, ast.List)) else [v]
                    v2 = self.value(v)
                    if v2 is not UNDEF and isinstance(v2, (
                            int, str, bytes, type(None), types.FunctionType,
                            types.BuiltinFunctionType, tuple)):
                        continue
                    if any(self.is_global(x) for x in vals):
                        for x in self.targets(t):
                            if isinstance(x, ast.Name):
                                self.alias.add(x.id)
            if len(self.alias) == before:
                return

    def run(self):
        fn = self.f.node
        for a, d in list(zip(reversed(fn.args.args),
                             reversed(fn.args.defaults))) + [
                (a, d) for a, d in zip(fn.args.kwonlyargs,
                                       fn.args.kw_defaults) if d]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call,
                              ast.ListComp, ast.DictComp)):
                self.alias.add(a.arg)
            if reads_network(d, self.f.mod):
                self.report(d, 'a default is bound to the network selected '
                            'at import')
        self.find_aliases()
        for d in fn.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            nm = (dotted(e) or ['?'])[-1]
            if nm not in PLAIN_DECORATORS and self.f.name in self.dep:
                self.report(d, 'decorator %s on a function that depends on '
                            'the selected network' % nm)
        allowed = (self.f.mod, self.f.qual.split('.')[-1]) == SELECT and \
            not self.f.cls
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                if not allowed or n.names != ['network']:
                    self.report(n, 'writes the globals %s' % n.names)
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                                ast.Delete, ast.For)):
                ts = n.targets if isinstance(
                    n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    for x in self.targets(t):
                        self.store(x, n)
            elif isinstance(n, ast.Call):
                self.call(n, allowed)
        return self.bad

    def store(self, t, n):
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            base = t.value
            if isinstance(base, ast.Name) and base.id == 'cls' \
                    and self.f.cls and isinstance(t, ast.Attribute):
                self.report(n, 'assigns a class attribute')
            elif isinstance(base, ast.Name) and base.id == 'self':
                return
            elif self.is_global(base):
                self.report(n, 'assigns to %s' % ast.unparse(t))
        elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign) and \
                t.id in self.alias:
            self.report(n, 'modifies %s in place' % t.id)

    def call(self, n, allowed):
        d = dotted(n.func)
        if d and d[-1] == 'select_network':
            self.report(n, 'selects a network')
        if d and d[-1] in ('setattr', 'delattr', '__setattr__',
                           '__delattr__') and d[0] not in self.local:
            if n.args and self.is_global(n.args[0]):
                self.report(n, 'sets an attribute of %s'
                            % ast.unparse(n.args[0]))
        if d in (['exec'], ['eval'], ['reload']):
            self.report(n, 'calls %s' % d[0])
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            v = self.value(n.func)
            if isinstance(v, types.FunctionType):
                return
            if self.is_global(n.func.value):
                self.report(n, 'modifies %s' % ast.unparse(n.func.value))


def dependents(funcs):
    """names of functions that may read the selected network"""
    calls = {}
    out = set()
    for f in funcs:
        calls.setdefault(f.name, set())
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if isinstance(n.func, ast.Attribute):
                    calls[f.name].add(n.func.attr)
                elif d:
                    calls[f.name].add(d[-1])
            if isinstance(n, ast.expr) and reads_network(n, f.mod):
                out.add(f.name)
    while True:
        new = {k for k, v in calls.items() if v & out} - out
        if not new:
            return out
        out |= new


def import_time(mod, tree):
    """uses of the selected network at import"""
    def walk(nodes):
        for n in nodes:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, ast.ClassDef):
                yield from walk(n.body)
                continue
            if isinstance(n, (ast.If, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from walk(getattr(n, f, []))
                continue
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                if isinstance(n, ast.ImportFrom) and n.module == 'riemann' \
                        and any(a.name == 'network' for a in n.names):
                    yield n, 'imports the network selected at import'
                continue
            if mod == 'riemann' and isinstance(n, (
                    ast.Assign, ast.AnnAssign)):
                continue
            if reads_network(n, mod):
                yield n, 'binds the network selected at import'
    return walk(tree.body)


def check(res):
    """obligations of all functions, into a prove.Result"""
    funcs = []
    trees = {}
    for mod, tree in sources():
        trees[mod] = tree
        funcs += list(functions(mod, tree))
    dep = dependents(funcs)
    n = 0
    for mod, tree in trees.items():
        bad = ['line %d: %s' % (x.lineno, w) for x, w in
               import_time(mod, tree)]
        for b in bad:
            res.failures.append((None, 'frame', '%s: %s' % (mod, b), None))
        n += not bad
        classes = {x.name: x for x in ast.walk(tree)
                   if isinstance(x, ast.ClassDef)}
        for f in funcs:
            if f.mod != mod:
                continue
            c = Check(f, dep)
            c.class_node = classes.get(f.cls)
            bad = c.run()
            for b in bad:
                res.failures.append((None, 'frame', '%s: %s' % (
                    f.qual, b), None))
            n += not bad
            res.functions.add(f.qual)
    res.obligations = n
    res.labels = {'frame': n}
    res.networks = ['-']
    res.paths = len(funcs)
