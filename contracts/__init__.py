"""Contract registry.

A contract is a function ``contract(B, **variant)`` that builds arbitrary
inputs with B, runs the code of /repo/beer on them and states obligations
(B.eq, B.holds, ...).  The same text runs under two back ends: engine.sym
(every obligation is proved for all sizes and all values) and engine.conc
(concrete execution with the real torch: counterexample replay and bounded
stand-in)."""
import importlib
import itertools
import os


# layers and networks take the default precision, the commands single precision: not there
MIXED = {f'P{i:02d}' for i in range(1, 17)} | {'P20', 'P26'}


class Contract:
    def __init__(self, fn, prop, variants, timeout, symbolic, seeds, sizes, note, mixed):
        self.fn = fn
        self.name = fn.__module__.split('.')[-1] + '.' + fn.__name__
        self.prop = prop
        self.variants = variants
        self.timeout = timeout
        self.symbolic = symbolic
        self.seeds = seeds
        self.sizes = sizes
        self.note = note
        # also executed with double-precision inputs under torch's single-precision default
        self.mixed = mixed if mixed is not None else prop in MIXED


REGISTRY = {}


def contract(prop, variants=None, timeout=60, symbolic=True, seeds=6, sizes=None,
             note=None, mixed=None, **grid):
    '''symbolic=False marks a bounded check (never counted as proved), with the
    bound stated in note.'''
    vs = list(variants or [{}])
    for k, vals in grid.items():
        vs = [{**v, k: x} for v in vs for x in vals]

    def deco(fn):
        c = Contract(fn, prop, vs, timeout, symbolic, seeds, sizes, note, mixed)
        assert c.name not in REGISTRY, c.name
        REGISTRY[c.name] = c
        return fn
    return deco


LEMMAS = {}


def lemma(prop, file, *theorems):
    '''theorems of lemmas/<file>, proved by Lean for what the contracts of the property leave to
    mathematics (their hypotheses are obligations of the contracts)'''
    LEMMAS.setdefault(prop, {}).setdefault(file, []).extend(theorems)


_LOADED = False


def load_all():
    global _LOADED
    if _LOADED:
        return
    _LOADED = True
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('contracts.' + f[:-3])


def by_name(n):
    load_all()
    return REGISTRY[n]


def for_property(p):
    load_all()
    return [c for c in REGISTRY.values() if p in (c.prop if isinstance(c.prop, (list, tuple)) else [c.prop])]
