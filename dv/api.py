"""Theorems and contracts: the specification side.

This module does not depend on the verifier: the same theorem functions are
executed symbolically by the verifier and concretely by the replay runner.
"""
import importlib

THEOREMS = []
CONTRACTS = []


class Theorem:
    def __init__(self, prop, name, fn, networks, functions, tier, bounded,
                 known, disable, weak, uses, record, stubs, codecs, selects,
                 effects, bits, folds, digits):
        self.bits = bits
        self.digits = digits
        self.folds = folds
        self.codecs = codecs
        self.selects = selects
        self.effects = effects
        self.stubs = stubs
        self.record = record
        self.disable = disable
        self.weak = weak
        self.uses = uses
        self.prop = prop
        self.name = name
        self.fn = fn
        self.networks = networks
        self.functions = functions
        self.tier = tier
        self.bounded = bounded
        self.known = known

    @property
    def key(self):
        return '%s.%s' % (self.prop, self.name)


def theorem(prop, networks=None, functions=(), tier='quick', bounded=None,
            known=None, name=None, disable=(), weak=False, uses=(),
            record=(), stubs=None, codecs=False,
            selects=False, effects=False, bits=False,
            folds=False, digits=False):
    """register a theorem of a property.

    networks: 'all' (default) or a predicate on the network class
    functions: public API the theorem is about (must exist)
    disable: contracts not used in the proof (those it establishes)
    weak: about exceptions only; loops under type invariants
    uses: weak contracts (of WEAK) used in the proof
    record: classes whose constructor stands for itself: an instance is the
        record of the arguments, nothing being known about what it does
    stubs: functions taken as unknown functions of their arguments (name ->
        type of the result); they may raise ValueError instead
    codecs: the text encodings stand for their contracts: an encoding decodes
        to the bytes it was made from, and decoding other text gives unknown
        bytes or fails
    selects: selects networks (and writes nothing else that is global)
    digits: to_long and from_long of base58 stand for their contract: they are
        inverse bijections between strings of digits and pairs of a value and
        a number of leading zeros
    folds: loops are functions of the state they are entered in
    bits: bitwise operations on numbers of known width are affine forms over
        GF(2); 'words': and sums of them are kept by their summands
    effects: decided by the frame analysis of dv/effects.py
    bounded: None when unbounded; else a text stating the bound
    """
    def deco(fn):
        THEOREMS.append(Theorem(prop, name or fn.__name__, fn, networks,
                                functions, tier, bounded, known,
                                disable, weak, uses, record,
                                stubs or {}, codecs, selects, effects,
                                bits, folds, digits))
        return fn
    return deco


class Contract:
    def __init__(self, target, spec, pre, proof):
        self.target = target
        self.spec = spec
        self.pre = pre
        self.proof = proof


def contract(target, pre=None, proof=()):
    """spec function used in place of the body of target by its callers

    pre: precondition, on the arguments: a list of clauses, each a condition
    or a list of alternatives; the contract is used where the clauses are
    proved, and the body is inlined elsewhere
    proof: the theorems that establish the contract; it is not used in a run
    in which one of them fails
    """
    def deco(fn):
        CONTRACTS.append(Contract(target, fn, pre, proof))
        return fn
    return deco


WEAK = {}


def weak_contract(target, returns, raises, proof):
    """target returns some value of a type or raises one of the exceptions;
    used in the theorems that name it"""
    WEAK[target] = (returns, raises, tuple(proof))


def resolve(path):
    """dotted path -> object (function, class or method)"""
    parts = path.split('.')
    for i in range(len(parts), 0, -1):
        try:
            m = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        o = m
        for x in parts[i:]:
            o = getattr(o, x)
        return o
    raise AttributeError(path)


def outcome(f, *args, **kwargs):
    """('ok', value) or ('raise', exception class name)"""
    try:
        return ('ok', f(*args, **kwargs))
    except Exception as e:
        return ('raise', type(e).__name__)


def fails(f, *args, **kwargs):
    """does the call raise?"""
    try:
        f(*args, **kwargs)
    except Exception:
        return True
    return False
