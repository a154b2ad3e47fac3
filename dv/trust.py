"""What the proofs assume; reported in every evidence file."""

TRUSTED = [
    'z3 (linear and non-linear integer arithmetic, uninterpreted functions)',
    'the verifier in /verif/dv: symbolic execution of the Python AST of the '
    'functions in /repo, the byte-string and list normaliser, and the '
    'induction rule for loops',
    'dv/prims.py: the meaning given to Python built-ins',
    'the theorems and specification functions in /verif/theorems',
]

COMMON = [
    'Python integers are mathematical integers (they are)',
    'byte strings and lists are shorter than 2**56 (no Python object is '
    'longer)',
    'hash functions (SHA-256, RIPEMD-160, BLAKE2b) are deterministic '
    'functions of their input; nothing else is assumed about them',
    'MemoryError, RecursionError and KeyboardInterrupt do not occur',
    'networks that answer every question the code asks about the selected '
    'network alike behave alike',
    'a function is called with values of the types its annotations name',
]

EXTRA = {}


def assumptions(prop):
    return COMMON + EXTRA.get(prop, [])
