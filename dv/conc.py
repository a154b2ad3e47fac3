"""Concrete execution of theorems on the real code (replay and search).

Runs under plain CPython; imports riemann from /repo and the theorems, and no
part of the verifier.
"""
import hashlib
import json
import os
import random
import sys
import time
import traceback


class Skip(Exception):
    """the assumed domain does not contain this input"""


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label = label
        self.detail = detail


BYTE_LENS = (0, 1, 2, 3, 4, 5, 8, 15, 16, 19, 20, 21, 31, 32, 33, 34, 35, 64,
             65, 74, 75, 76, 77, 78, 79, 80, 81, 107, 110, 111, 112, 127, 128,
             129, 250, 251, 252, 253, 254, 255, 256, 257, 300, 515, 519, 520,
             521, 522, 1000, 65535, 65536)
INTS = (0, 1, 2, 3, 4, 5, 10, 16, 17, 31, 32, 33, 74, 75, 76, 77, 78, 79, 80,
        81, 96, 97, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257,
        500, 519, 520, 521, 546, 10000, 32767, 32768, 65534, 65535, 65536,
        65537, 8388607, 8388608, 16777215, 16777216, 499999999, 500000000,
        500000001, 2147483647, 2147483648, 4294967293, 4294967294,
        4294967295, 4294967296, 4294967297, 2 ** 40, 2 ** 48, 2 ** 56 - 1,
        2 ** 56, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1, 2 ** 64)


class Dom:
    """concrete domain; leaves come from a dict or from a generator"""

    def __init__(self, fixed=None, rng=None, prefix='', root=None,
                 consts=()):
        self.fixed = fixed
        self.rng = rng
        self.prefix = prefix
        self.root = root or self
        if root is None:
            self.leaves = {}
            self.labels = {}
            self.consts = consts
            self.big = 0

    def _get(self, n, gen):
        key = self.prefix + n
        r = self.root
        if key in r.leaves:
            return r.leaves[key]
        if self.fixed is not None and key in self.fixed:
            v = self.fixed[key]
        else:
            v = gen()
        r.leaves[key] = v
        return v

    def symbolic(self):
        return False

    def named(self, pre):
        return Dom(self.fixed, self.rng, self.prefix + pre, self.root)

    def _int(self, lo, hi):
        rng = self.rng
        if rng is None:
            return lo if lo is not None else 0
        a = lo if lo is not None else -2 ** 70
        b = hi if hi is not None else 2 ** 70
        t = rng.random()
        if b - a <= 12:
            return rng.randint(a, b)
        if t < .15:
            return rng.choice((a, b, a + 1, b - 1))
        if t < .55:
            c = [x for x in INTS + tuple(self.root.consts) if a <= x <= b]
            if c:
                x = rng.choice(c) + rng.choice((0, 0, 0, 1, -1))
                if a <= x <= b:
                    return x
        if t < .8:
            n = rng.randint(1, max(1, b.bit_length()))
            x = rng.getrandbits(n)
            if a <= x <= b:
                return x
        return rng.randint(a, b)

    def int(self, n, lo=None, hi=None):
        if lo is not None and hi is not None and hi < lo:
            raise Skip()
        return self._get(n, lambda: self._int(lo, hi))

    def index(self, n, lo, hi):
        if hi < lo:
            raise Skip()
        return self._get(n, lambda: self.rng.randint(lo, hi)
                         if self.rng else lo)

    def bool(self, n):
        return bool(self._get(n, lambda: self._int(0, 1)))

    def bytes(self, n, lo=0, hi=None, hints=None):
        def gen():
            rng = self.rng
            if rng is None:
                return (b'\0' * lo).hex()
            if hints and rng.random() < .5:
                h = rng.choice(list(hints))
                if lo <= len(h) and (hi is None or len(h) <= hi):
                    return h.hex()
            if lo == hi:
                ln = lo
            else:
                b = hi if hi is not None else 70000
                cap = 600 if self.root.big < 2 and self.prefix == '' else 300
                if rng.random() < .02 and self.root.big < 1:
                    cap = 70000
                    self.root.big += 1
                c = [x for x in BYTE_LENS if lo <= x <= min(b, cap)]
                if c and rng.random() < .7:
                    ln = rng.choice(c)
                else:
                    ln = rng.randint(lo, min(b, max(lo, min(cap, 120))))
            m = rng.random()
            if m < .1:
                return (bytes([rng.choice((0, 255, 1, 128))]) * ln).hex()
            bs = bytearray(rng.getrandbits(8) for _ in range(ln))
            if m < .35 and ln:
                bs[0] = rng.choice((0, 1, 2, 3, 4, 5, 0x4c, 0x4d, 0x4e, 0x50,
                                    0x51, 0x60, 0x6a, 0x76, 0xa9, 0xfc, 0xfd,
                                    0xfe, 0xff, 32, 20, 75, 76, 33, 80))
                bs[-1] = rng.choice((0, 1, 0x80, 0xff, 0x87, 0xac, 0xae))
            return bytes(bs).hex()
        return bytes.fromhex(self._get(n, gen))

    def choice(self, n, vals):
        vals = list(vals)
        if len(vals) == 1:
            return vals[0]
        i = self._get(n, lambda: self._int(0, len(vals) - 1))
        return vals[min(max(i, 0), len(vals) - 1)]

    def size(self, n, lo=0, hi=None):
        """a number of list elements"""
        def gen():
            rng = self.rng
            if rng is None:
                return lo
            b = hi if hi is not None else 300
            if rng.random() < .9:
                return rng.randint(lo, min(b, max(lo + 3, 3)))
            c = [x for x in (0, 1, 2, 5, 16, 20, 60) if lo <= x <= b]
            if self.root.big < 1 and rng.random() < .15:
                self.root.big += 1
                c = [x for x in (252, 253, 254, 255, 256, 300)
                     if lo <= x <= b] or c
            return rng.choice(c) if c else lo
        return self._get(n, gen)

    def list(self, n, lo, hi, fn, tup=False):
        k = self.size(n + '.n', lo, hi)
        out = [fn(Dom(self.fixed, self.rng,
                      '%s%s[%d].' % (self.prefix, n, j), self.root))
               for j in range(k)]
        return tuple(out) if tup else out

    def pick(self, n, table):
        k = self._get(n, lambda: self.rng.choice(sorted(table)))
        if k not in table:
            raise Skip('not in the table')
        return table[k]

    def letters(self, n, count, alphabet):
        return self._get(n, lambda: ''.join(
            self.rng.choice(alphabet) if self.rng else alphabet[0]
            for _ in range(count)))

    def network_word(self, attr, lo, hi, alphabet, length=None):
        import riemann
        return getattr(riemann.network, attr)

    def text(self, n, some=None):
        from riemann.script.opcodes import CODE_TO_INT

        def gen():
            r = self.rng
            out = []
            for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                out.append(r.choice([
                    r.choice(sorted(CODE_TO_INT)),
                    bytes(r.randrange(256) for _ in range(
                        r.choice([1, 2, 20, 75, 76, 255, 256, 1000,
                                  1001]))).hex(),
                    '%x' % r.randrange(10 ** 6), 'OP_FOO', 'zz', '0x12',
                    'OP_PUSH_3']))
            return r.choice([' ', ' ', '  ', '\n']).join(out)
        return self._get(n, gen if some is None else
                         lambda: some(self.rng))

    def opaque(self, n):
        return object()

    def assume(self, c):
        if not c:
            raise Skip()

    def eq(self, a, b, label='eq'):
        self.root.labels[label] = self.root.labels.get(label, 0) + 1
        if not deep_eq(a, b):
            raise Violation(label, 'got      %s\nexpected %s' % (
                show(a), show(b)))

    def check(self, c, label='check'):
        self.root.labels[label] = self.root.labels.get(label, 0) + 1
        if not c:
            raise Violation(label, 'condition is false')

    def reached(self, label):
        self.root.labels[label] = self.root.labels.get(label, 0) + 1


def show(v, depth=0):
    if depth > 5:
        return '...'
    if isinstance(v, (bytes, bytearray)):
        s = bytes(v).hex()
        return '0x' + (s if len(s) < 4000 else s[:4000] + '...')
    if isinstance(v, (list, tuple)):
        return '(%s)' % ', '.join(show(x, depth + 1) for x in v[:50])
    if hasattr(v, '__dict__') and not isinstance(v, type):
        return '%s{%s}' % (type(v).__name__, ', '.join(
            '%s=%s' % (k, show(x, depth + 1))
            for k, x in vars(v).items()))
    return repr(v)[:2000]


def deep_eq(a, b, depth=0):
    if a is b:
        return True
    if isinstance(a, (bytes, bytearray)) and isinstance(
            b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            deep_eq(x, y, depth + 1) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(deep_eq(a[k], b[k]) for k in a)
    if hasattr(a, '__dict__') and not isinstance(a, type):
        x, y = vars(a), vars(b)
        return set(x) == set(y) and all(
            deep_eq(x[k], y[k], depth + 1) for k in x)
    return a == b


def state():
    """the process-global tables"""
    from riemann import networks
    from riemann.script import opcodes
    out = {}
    for k, c in networks.SUPPORTED.items():
        d = {}
        for b in c.__mro__[:-1]:
            for a, v in vars(b).items():
                if not a.startswith('__'):
                    d.setdefault(a, v)
        out[k] = repr(sorted(d.items(), key=lambda x: x[0]))
    return (out, dict(opcodes.CODE_TO_INT), dict(opcodes.INT_TO_CODE))


def run_one(thm, dom, net):
    """None, or (label, detail)"""
    import riemann
    if net is not None:
        riemann.select_network(net)
    sel, before = riemann.network, state()
    try:
        thm.fn(dom)
        if not thm.selects and riemann.network is not sel:
            return ('frame', 'another network is selected')
        if state() != before:
            return ('frame', 'network parameters or opcode tables changed')
        return None
    except Skip:
        return None
    except Violation as v:
        return (v.label, v.detail)
    except Exception as e:
        return ('no-exception', 'uncaught %s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc()[-1500:]))


def harvest():
    """integer constants of the sources, as hints for the search"""
    import ast
    out = set()
    root = os.environ.get('REPO', '/repo') + '/riemann'
    for d, _, fs in os.walk(root):
        if 'tests' in d:
            continue
        for f in fs:
            if f.endswith('.py') and f not in ('networks.py', 'blake256.py'):
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(
                            n.value, int) and not isinstance(n.value, bool):
                        out.add(n.value)
    return tuple(sorted(out))


def networks_for(thm):
    """names of the networks a theorem ranges over"""
    from riemann.networks import SUPPORTED
    names = sorted(SUPPORTED)
    if thm.networks in (None, 'all'):
        return names
    return [n for n in names if thm.networks(SUPPORTED[n])]


def search(thm, seed, seconds, nets=None, max_trials=10 ** 9):
    """random search; returns (violation dict or None, trials)"""
    consts = harvest()
    names = nets or networks_for(thm)
    t0 = time.time()
    i = 0
    hist = []
    while time.time() - t0 < seconds and i < max_trials:
        rng = random.Random('%s/%s/%d' % (seed, thm.key, i))
        net = rng.choice(names)
        dom = Dom(None, rng, consts=consts)
        r = run_one(thm, dom, net)
        hist.append((net, dom.leaves))
        if len(hist) > 40:
            hist.pop(0)
        i += 1
        if r is not None:
            # does it fail on its own in a fresh process? the caller checks
            return {'theorem': thm.key, 'network': net,
                    'leaves': dom.leaves, 'label': r[0], 'detail': r[1],
                    'history': [list(h) for h in hist[:-1]]}, i
    return None, i


def replay(thm, v, with_history=False):
    """re-execute a recorded violation; returns (label, detail) or None"""
    if with_history:
        for net, leaves in v.get('history', ()):
            run_one(thm, Dom(leaves), net)
    return run_one(thm, Dom(v['leaves']), v.get('network'))


def main():
    cmd = sys.argv[1]
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('REPO', '/repo')
    sys.path[:0] = [root, repo]
    sys.dont_write_bytecode = True
    from dv import registry
    thms = registry.load_map()
    req = json.load(sys.stdin)
    if cmd == 'search':
        thm = thms[req['theorem']]
        v, n = search(thm, req['seed'], req['seconds'], req.get('nets'),
                      req.get('max_trials', 10 ** 9))
        print(json.dumps({'violation': v, 'trials': n}))
    elif cmd == 'replay':
        thm = thms[req['theorem']]
        r = replay(thm, req, False)
        if r is None and req.get('history'):
            r = replay(thm, req, True)
        print(json.dumps({'result': r}))


if __name__ == '__main__':
    main()
