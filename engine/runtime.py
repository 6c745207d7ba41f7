"""Symbolic execution of the real source of /repo/beer.

* the modules are loaded from the working tree at run time; the only rewriting
  of the code is on `for` loops and comprehensions, which are given entry/exit
  hooks (`instrument`), everything else is executed as written;
* `torch`, `math` and a few builtins are replaced by symbolic versions;
* branches on undetermined conditions fork (re-execution with a decision
  prefix);
* loops of symbolic length are cut with an inductive invariant.
"""
import ast
import builtins
import copy
import importlib
import importlib.abc
import importlib.util
import itertools
import math as _math
import os
import sys
import time
import types
from fractions import Fraction

from . import expr as X
from . import tensor as TT
from .expr import P, Poly, Unsupported, Undecided, ZERO, UNIT, new_idx
from .tensor import T, SV, SymList, SymRange, SymBool, wrap, Storage

REPO = os.environ.get('VERIF_REPO', '/repo')


class Infeasible(Exception):
    'The current path is infeasible.'


# ----------------------------------------------------------------------
# paths

class Path:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []


PATH = None
MAXPATHS = 64


def decide(c):
    'Truth value of an undetermined condition: forks the execution.'
    global PATH
    if c is True or c is False:
        return c
    ok_t = feasible(c)
    ok_f = feasible(X.c_not_raw(c))
    if ok_t and not ok_f:
        return True
    if ok_f and not ok_t:
        return False
    if PATH is None:
        raise Unsupported(f'undetermined condition {X.cond_str(c)[:200]}')
    k = len(PATH.taken)
    if k < len(PATH.prefix):
        v = PATH.prefix[k]
    else:
        v = True
        PATH.pending.append(PATH.taken + [False])
    PATH.taken.append(v)
    _assume(c if v else X.c_not_raw(c))
    return v


def _assume(c):
    (X.FACTS if X.int_cond(c) else X.RFACTS).append(c)
    X._MEMO.clear()


def feasible(c):
    if X.int_cond(c):
        return not X.int_unsat(c)
    return True


def concretize(p):
    'python integer value of p: one path per value when p is provably small'
    if X.is_int(p) and X.prove_nonneg(p):
        hi = next((k for k in range(1, 9) if X.prove_nonneg(P(k) - 1 - p)), None)
        if hi is not None:
            for k in range(hi - 1):
                if decide(X.c_eq0(p - k)):
                    return k
            return hi - 1
    raise Unsupported(f'a python integer is needed for {p}')


def sym_iter(o):
    raise Unsupported('iteration over a sequence of symbolic length outside '
                      'an instrumented loop')


# ----------------------------------------------------------------------
# AST instrumentation

class Instr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = ['<module>']
        self.locals = [set()]
        self.depth = [0]

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.depth.append(0)
        a = node.args
        self.locals.append(
            {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} |
            {x.id for x in ast.walk(node) if isinstance(x, ast.Name)
             and isinstance(x.ctx, ast.Store)})
        self.generic_visit(node)
        self.locals.pop()
        self.depth.pop()
        self.fn.pop()
        return node

    def visit_If(self, node):
        'branches inside a loop are predicated when the condition is undetermined'
        ok = self.depth[-1] and len(self.fn) > 1 and _predicable(node)
        orig = copy.deepcopy(node) if ok else None
        self.generic_visit(node)
        if not ok:
            return node
        self.n += 1
        c = f'__vf_if{self.n}__'
        names = sorted({x.id for b in node.body + node.orelse for x in ast.walk(b)
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                        and not x.id.startswith('__vf_')})
        get = ast.parse(f'{c} = __vf_if__(0)').body
        get[0].value.args[0] = node.test
        tgt = '(' + ''.join(a + ', ' for a in names) + ')'

        def block(stmts, flag):
            w = ast.parse(f'with {c}({flag}): pass').body[0]
            stmts = copy.deepcopy(stmts) or [ast.Pass()]
            w.body = [_Checked().visit(x) for x in stmts]
            return [w]
        pred = ast.parse(f'{c}.start({names!r}, locals())').body + block(node.body, True)
        if names:
            pred += ast.parse(f'{tgt} = {c}.other(locals())').body
        pred += block(node.orelse, False)
        if names:
            pred += ast.parse(f'{tgt} = {c}.merged(locals())').body
        plain = ast.If(ast.Attribute(ast.Name(c, ast.Load()), 'value', ast.Load()),
                       node.body, node.orelse)
        top = ast.If(ast.Attribute(ast.Name(c, ast.Load()), 'pred', ast.Load()), pred, [plain])
        out = get + [top]
        for o in out:
            ast.copy_location(o, orig)
            ast.fix_missing_locations(o)
        return out

    def visit_While(self, node):
        'counting loops are for loops: while i < n: ...; i += 1'
        r = _counting(node) if len(self.fn) > 1 else None
        if r is None:
            self.generic_visit(node)
            return node
        var, bound, step, extra = r
        self.n += 1
        lo, hi = f'__vf_lo{self.n}__', f'__vf_hi{self.n}__'
        plain = copy.deepcopy(node)
        pre = ast.parse(f'{lo} = {var}\n{hi} = 0 + {extra}').body
        pre[1].value.left = bound
        src = ast.parse(f'if __vf_counts__({lo}, {hi}):\n'
                        f'    for {var} in __vf_range__({lo}, {hi}, {step}): pass\n'
                        f'    {var} = {"__vf_max__" if step > 0 else "__vf_min__"}({lo}, {hi})\n'
                        f'else: pass').body[0]
        src.body[0].body = node.body[:-1] or [ast.Pass()]
        src.orelse = [plain]
        src.body = [y for x in src.body for y in (lambda z: z if isinstance(z, list) else [z])(
            self.visit(x))]
        out = pre + [src]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_For(self, node):
        self.depth.append(self.depth[-1] + 1)
        self.generic_visit(node)
        self.depth.pop()
        if node.orelse or len(self.fn) == 1:
            return node
        self.n += 1
        lc = f'__vf_lc{self.n}__'
        assigned = sorted({x.id for b in node.body for x in ast.walk(b)
                           if isinstance(x, ast.Name) and
                           isinstance(x.ctx, ast.Store)
                           and not x.id.startswith('__vf_')})
        # lists mutated in place are rebound when the loop is summarised
        mut = {x.func.value.id for b in node.body for x in ast.walk(b)
               if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
               and isinstance(x.func.value, ast.Name)
               and x.func.attr in ('insert', 'append')}
        assigned = sorted(set(assigned) | (mut & self.locals[-1]))
        used = sorted({x.id for b in node.body for x in ast.walk(b)
                       if isinstance(x, ast.Name) and not x.id.startswith('__vf_')}
                      - set(assigned))
        # lists which are not only appended to
        reads = [x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name)
                 and x.id in mut]
        app = [x.func.value.id for b in node.body for x in ast.walk(b)
               if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
               and x.func.attr == 'append' and isinstance(x.func.value, ast.Name)]
        used += sorted({x for x in reads if reads.count(x) > 1 or app.count(x) != 1})
        attr = any(isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load)
                   for b in node.body for x in ast.walk(b))
        src = ast.parse(
            f'{lc} = __vf_loop__(0, {self.fn[-1]!r}, {assigned!r}, {used!r}, locals(), {attr!r})\n'
            f'if {lc}.sym: pass').body
        src[0].value.args[0] = node.iter
        node.iter = ast.Name(lc, ast.Load())
        tgt = '(' + ''.join(a + ', ' for a in assigned) + ')'
        if assigned:
            enter = ast.parse(f'if {lc}.sym: {tgt} = {lc}.enter(locals())').body
            final = ast.parse(f'if {lc}.sym: {tgt} = {lc}.final()').body
        else:
            enter = ast.parse(f'if {lc}.sym: {lc}.enter(locals())').body
            final = ast.parse(f'if {lc}.sym: {lc}.final()').body
        leave = ast.parse(f'if {lc}.sym: {lc}.leave(locals())').body
        node.body = enter + node.body + leave
        out = [src[0], node] + final
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.ifs or g.is_async:
            return node
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await))
               for x in ast.walk(node.elt)):
            return node
        names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        # target pattern -> lambda of one argument, unpacked structurally
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in names],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=node.elt)
        pat = _pattern(g.target)
        if pat is None:
            return node
        call = ast.Call(ast.Name('__vf_comp__', ast.Load()),
                        [g.iter, lam, ast.Constant(pat), ast.Constant(kind)], [])
        ast.copy_location(call, node)
        ast.fix_missing_locations(call)
        return call

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'indices' \
                and len(node.args) == 1 and not node.keywords:
            call = ast.Call(ast.Name('__vf_indices__', ast.Load()),
                            [node.func.value, node.args[0]], [])
            ast.copy_location(call, node)
            ast.fix_missing_locations(call)
            return call
        return node

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')


def _counting(node):
    'while v < e: body; v += 1 (e not modified by the body): (v, e, step, e - range end)'
    t = node.test
    if node.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(
            t.left, ast.Name) or len(node.body) < 1:
        return None
    v = t.left.id
    last = node.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == v
            and isinstance(last.value, ast.Constant) and last.value.value == 1
            and isinstance(last.op, (ast.Add, ast.Sub))):
        return None
    step = 1 if isinstance(last.op, ast.Add) else -1
    ends = {(1, ast.Lt): 0, (1, ast.LtE): 1, (-1, ast.Gt): 0, (-1, ast.GtE): -1}
    extra = ends.get((step, type(t.ops[0])))
    if extra is None:
        return None
    stored, called = set(), set()
    for b in node.body[:-1]:
        for x in ast.walk(b):
            if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stored.add(x.id)
            if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                called |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                called |= {y.id for y in ast.walk(x.func) if isinstance(y, ast.Name)}
    names = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
    if v in stored or v in names or names & (stored | called):
        return None
    return v, t.comparators[0], step, extra


def vf_counts(lo, hi):
    return any(isinstance(x, SV) for x in (lo, hi)) and all(
        isinstance(x, int) or isinstance(x, SV) and X.is_int(x.poly) for x in (lo, hi))


MUTATORS = {'append', 'insert', 'pop', 'remove', 'extend', 'update', 'clear', 'setdefault', 'add',
            'discard', 'sort', 'reverse', 'popitem'}


def _predicable(node):
    'both branches only assign names and elements of tensors'
    for s in node.body + node.orelse:
        if isinstance(s, ast.If):
            if not _predicable(s):
                return False
            continue
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Assign):
            ts = s.targets
        elif isinstance(s, ast.AugAssign):
            ts = [s.target]
        else:
            return False
        if not all(isinstance(t, ast.Name) or
                   isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) for t in ts):
            return False
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
               and x.func.attr in MUTATORS or isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield))
               for x in ast.walk(s)):
            return False
    return True


class _Checked(ast.NodeTransformer):
    'element assignments of a predicated branch must be on tensors'

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            node.value = ast.Call(ast.Name('__vf_istensor__', ast.Load()), [node.value], [])
        return node


def vf_istensor(x):
    if not isinstance(x, T):
        raise Unsupported('branch inside a symbolic loop')
    return x


class Pred:
    'a branch: taken, not taken, or both executed under their condition'

    def __init__(self, test):
        self.pred = False
        c = test.c if isinstance(test, SymBool) else None
        if isinstance(test, T) and test.isbool and not test._shape:
            c = test.cond_at(())
        if c is None or c is True or c is False or not TT.INLOOP[0]:
            self.value = test
            return
        if not feasible(c):
            self.value = False
        elif not feasible(X.c_not_raw(c)):
            self.value = True
        else:
            self.pred, self.c = True, c

    def __call__(self, flag):
        self.flag = flag
        return self

    def __enter__(self):
        c = self.c if self.flag else X.c_not(self.c)
        self.f = X.facts(c)
        self.f.__enter__()
        TT.PRED.append(c)

    def __exit__(self, *a):
        TT.PRED.pop()
        self.f.__exit__(*a)

    def start(self, names, loc):
        self.names = names
        self.v0 = {n: loc.get(n, POISON) for n in names}

    def other(self, loc):
        self.v1 = {n: loc.get(n, POISON) for n in self.names}
        return tuple(self.v0[n] for n in self.names)

    def merged(self, loc):
        out = []
        for n in self.names:
            a, b = self.v1[n], loc.get(n, POISON)
            if a is not b and (a is POISON or b is POISON):
                raise Unsupported('branch inside a symbolic loop')
            out.append(TT.merge(self.c, a, b))
        return tuple(out)


def _pattern(t):
    if isinstance(t, ast.Name):
        return 'x'
    if isinstance(t, (ast.Tuple, ast.List)):
        s = [_pattern(e) for e in t.elts]
        return None if None in s else tuple(s)
    return None


def _flat(pat, v):
    if pat == 'x':
        return [v]
    vs = list(v)
    if len(vs) != len(pat):
        raise ValueError('unpack')
    out = []
    for p, x in zip(pat, vs):
        out += _flat(p, x)
    return out


def is_symseq(it):
    if isinstance(it, (SymList, SymRange)):
        return not it.n.is_const()
    if isinstance(it, T):
        return bool(it._shape) and not it._shape[0].is_const()
    return False


def seq_len(it):
    return it.n if isinstance(it, (SymList, SymRange)) else it._shape[0]


def seq_get(it, k):
    if isinstance(it, T):
        return it[SV(k)]
    return it.elem(k)


def vf_indices(s, n):
    'slice.indices'
    if not isinstance(s, slice) or not any(isinstance(x, SV) for x in (n, s.start, s.stop)):
        return s.indices(n)
    step = 1 if s.step is None else s.step
    if step != 1:
        raise Unsupported('indices of a slice with a step')
    n = P(n)
    f = lambda x, d: wrap(d if x is None else TT.clamp_idx(P(x), n))
    return f(s.start, ZERO), f(s.stop, n), 1


def vf_comp(it, f, pat, kind):
    if is_symseq(it):
        snap = it.clone() if isinstance(it, T) else (
            it.copy() if isinstance(it, SymList) else it)
        return SymList(seq_len(it), lambda k: f(*_flat(pat, seq_get(snap, k))))
    if kind == 'list':
        return [f(*_flat(pat, x)) for x in it]
    return (f(*_flat(pat, x)) for x in it)


def flatten(v):
    return [y for x in v for y in flatten(x)] if isinstance(v, tuple) else [v]


# ----------------------------------------------------------------------
# loops

POISON = object()
LOOPSTATS = {'auto': 0, 'candidate': 0, 'obligations': 0}
CANDIDATES = []       # list of (name, nd, fn(idx...)->Poly) declared by the contract


class Loop:
    def __init__(self, it, fn, assigned, used, loc):
        self.sym = is_symseq(it)
        self.it = it
        self.fn = fn
        self.assigned = assigned
        self.used = used
        self.entry_locals = dict(loc)

    def __iter__(self):
        if not self.sym:
            return iter(self.it)
        return self.run()

    # -- state --------------------------------------------------------
    def snapshot(self, loc):
        self.loc0 = {n: loc[n] for n in self.assigned if n in loc}
        self.lists0 = {}
        for n in self.assigned + self.used:
            v = loc.get(n)
            if isinstance(v, list):
                self.lists0[n] = (v, list(v))
            elif isinstance(v, SymList):
                self.lists0[n] = (v, (v.n, v.f))

    def restore(self):
        for st, old in reversed(self.log):
            st.content = old
        self.log = []
        for n, (v, c) in self.lists0.items():
            if isinstance(v, list):
                v[:] = c
            else:
                v.n, v.f = c

    def enter(self, loc):
        if self.phase == 'probe':
            vals = self.loc0
        else:
            vals = {**self.loc0, **self.over}
        return tuple(vals.get(n, loc.get(n, POISON)) for n in self.assigned)

    def leave(self, loc):
        self.left = True
        self.out = {n: loc.get(n) for n in self.assigned}
        self.outloc = loc

    def final(self):
        vals = {**self.loc0, **self.fin}
        return tuple(vals.get(n, POISON) for n in self.assigned)

    def iterate(self, phase):
        'one symbolic execution of the body, as a sub-generator'
        self.phase = phase
        self.left = False
        log = self.log = []
        TT.WRITELOG.append(log)
        TT.INLOOP[0] += 1
        nf, nr = len(X.FACTS), len(X.RFACTS)
        try:
            yield seq_get(self.it, P(self.k))
        finally:
            TT.WRITELOG[:] = [l for l in TT.WRITELOG if l is not log]
            TT.INLOOP[0] -= 1
        if not self.left:
            raise Unsupported('break/continue in a symbolic loop')
        if len(X.FACTS) != nf or len(X.RFACTS) != nr:
            raise Unsupported('branch inside a symbolic loop')

    def run(self):
        n = seq_len(self.it)
        if not X.prove_nonneg(n - 1):
            if decide(X.c_lt0(n - 1)):
                self.fin = {}
                self.snapshot(self.entry_locals)
                return
        self.k = new_idx(n, 'it')
        self.snapshot(self.entry_locals)
        self.over = {}
        self.fin = {}
        self.mark = TT._NSTORE[0]
        yield from self.iterate('probe')
        # what did the body modify?
        stores = []
        for st, old in self.log:
            if st not in stores and st.born <= self.mark:
                stores.append(st)
        items = [('st', st) for st in stores]
        for nme, v0 in self.loc0.items():
            v1 = self.out.get(nme)
            if v1 is not v0:
                items.append(('loc', nme))
        for nme, (v, c) in self.lists0.items():
            now = list(v) if isinstance(v, list) else (v.n, v.f)
            if len(now) != len(c) or any(a is not b for a, b in zip(now, c)):
                if ('loc', nme) not in items:
                    items.append(('list', nme))
        self.restore()
        # names local to the body are not state: they are rebound before use
        self.items = items
        if not items:
            return
        if (yield from self.auto(n)):
            LOOPSTATS['auto'] += 1
            return
        if (yield from self.houdini(n)):
            LOOPSTATS['candidate'] += 1
            return
        raise Unsupported(f'no inductive invariant found for the loop in {self.fn}')

    # -- automatic summaries: accumulation and scatter ---------------------
    def auto(self, n):
        opaque = {}
        self.over = {}
        olds = {}
        for it in self.items:
            kind, x = it
            if kind == 'list' and (x not in self.assigned or x in self.used):
                return False
            if kind == 'loc' and isinstance(self.loc0[x], (list, SymList)) and (
                    x in self.used or x not in self.lists0):
                return False
            if kind == 'list' or isinstance(self.loc0.get(x) if kind == 'loc' else None,
                                            (list, SymList)):
                v = self.lists0[x]
                n0 = P(len(v[1])) if isinstance(v[0], list) else v[1][0]
                self.over[x] = l = SymList(n0 + P(self.k), OldItem)
                opaque[it] = (l, n0)
                continue
            if kind == 'st':
                nm = TT.fresh_name('H')
                X.TENSORS[nm] = X.TensorInfo(nm, x.rank)
                opaque[it] = nm
                olds[it] = x.content
                x.content = (lambda nm: lambda idx: X.elem(nm, idx))(nm)
            else:
                v = self.loc0[x]
                nm = TT.fresh_name('H')
                if isinstance(v, T):
                    X.TENSORS[nm] = X.TensorInfo(nm, v.ndim)
                    self.over[x] = T(v._shape, (lambda nm: lambda idx: X.elem(nm, idx))(nm),
                                     v.dtype)
                elif TT._isnum(v):
                    isint = isinstance(v, int) or (isinstance(v, SV) and X.is_int(v.poly))
                    X.TENSORS[nm] = X.TensorInfo(nm, 0, isint=isint)
                    self.over[x] = SV(X.elem(nm, ()))
                else:
                    self._undo(olds)
                    return False
                opaque[it] = nm
        try:
            yield from self.iterate('auto')
        except (Undecided, Unsupported, TT.TorchError):
            self.restore()
            self._undo(olds)
            return False
        res = {}
        ok = True
        names = {x for x in opaque.values() if isinstance(x, str)}
        try:
            for it in self.items:
                kind, x = it
                nm = opaque[it]
                if not isinstance(nm, str):
                    r = self._appended(self.out[x], *nm, names)
                    if r is None:
                        ok = False
                        break
                    res[it] = (None, ('append', nm[1], r))
                    continue
                if kind == 'st':
                    rank = x.rank
                    new = x.content
                else:
                    v = self.out[x]
                    if not isinstance(v, T):
                        q = P(v)
                        rank, new = 0, (lambda q: lambda idx: q)(q)
                    else:
                        v0 = self.loc0[x]
                        if not isinstance(v0, T) or v._shape != v0._shape:
                            ok = False
                            break
                        rank, new = v.ndim, v.snap()
                shape = x.shape if kind == 'st' else (
                    self.loc0[x]._shape if isinstance(self.loc0[x], T) else ())
                bs = [new_idx(s, 'b') for s in shape]
                body = new(tuple(P(b) for b in bs))
                s = self._summary(body, bs, nm, names)
                if os.environ.get('DBGLOOP'): print('LOOP', it[1], body, s)
                if s is None:
                    ok = False
                    break
                res[it] = (bs, s)
        except (Undecided, Unsupported, X.Unsupported):
            ok = False
        self.restore()
        self._undo(olds)
        if not ok:
            return False
        k = self.k
        for it in self.items:
            kind, x = it
            bs, s = res[it]
            LOOPSTATS['obligations'] += 1
            if s[0] == 'append':
                self.fin[x] = self._grown(self.lists0[x], s[1], s[2], n)
                continue
            if kind == 'st':
                old = x.content
                x.setcontent(self._fin(bs, s, old, n))
            else:
                v = self.loc0[x]
                if isinstance(v, T):
                    self.fin[x] = T(v._shape, self._fin(bs, s, v.snap(), n), v.dtype)
                else:
                    q = P(v)
                    self.fin[x] = wrap(self._fin(bs, s, lambda idx: q, n)(()))
        return True

    def _appended(self, v, l, n0, names):
        'the element appended to the list in the iteration k (function of k), or None'
        k = P(self.k)
        if v is not l and not isinstance(v, SymList) or v.n != n0 + k + 1:
            return None
        m = P(new_idx(n0 + k, 'm'))
        old = v.f(m)
        if not isinstance(old, OldItem) or old.k != m:
            return None
        return abstract(v.f(n0 + k), self.k, names)

    def _grown(self, entry, n0, elem, n):
        v, c = entry

        def f(m):
            c1 = X.c_lt0(m - n0)
            if c1 is False:
                return elem(m - n0)
            old = TT.pick(c, m) if isinstance(v, list) else c[1](m)
            return old if c1 is True else TT.merge(c1, old, elem(m - n0))
        return SymList(n0 + n, f)

    def _undo(self, olds):
        for (kind, x), c in olds.items():
            if kind == 'st':
                x.content = c

    def _fin(self, bs, s, old, n):
        k = self.k
        if s[0] == 'add':
            d = s[1]

            def f(idx):
                e = {b: P(i) for b, i in zip(bs, idx)}
                return old(tuple(P(i) for i in idx)) + X.msum(k, X.subst(d, e) if e else d)
            return f
        _, ks, cond, v = s

        def f(idx):
            e = {b: P(i) for b, i in zip(bs, idx)}
            kk = X.subst(ks, e)
            c = X.c_and(X.c_not(X.c_lt0(kk)), X.c_lt0(kk - n),
                        X.map_cond(cond, lambda p: X.subst(X.subst(p, e), {k: kk})))
            if c is False:
                return old(tuple(P(i) for i in idx))
            val = X.subst(X.subst(v, e), {k: kk})
            return X.ite(c, val, old(tuple(P(i) for i in idx))) if c is not True else val
        return f

    def _summary(self, body, bs, nm, names):
        k = self.k
        H = X._mk('elem', nm, *[P(b) for b in bs])
        if body == P(H):
            return ('add', ZERO)
        d = body - P(H)
        if not mentions(d, names):
            return ('add', d)
        a = body.single()
        if a is not None and a.kind == 'ite':
            c, v, w = a.args
            if c[0] == 'eq':
                v, w = X.assume_cond(v, c, True), X.assume_cond(w, c, False)
            if v == P(H):
                c, v, w = X.c_not(c), w, v
            if w != P(H):
                return None
            while True:
                # ite(c, ite(c2, v2, H), H)
                b = v.single()
                if b is None or b.kind != 'ite' or P(H) not in b.args[1:]:
                    break
                c2, v2, w2 = b.args
                if v2 == P(H):
                    c2, v2 = X.c_not(c2), w2
                c, v = X.c_and(c, c2), v2
            dv = v - P(H)
            if not mentions(dv, names):
                if any(mentions(p, names) for p in X.cond_polys(c)):
                    return None
                return ('add', X.ite(c, dv, ZERO))
            # H[.., e] + x where e == b is a conjunct of the condition
            for q in (c[1] if c[0] == 'and' else [c]):
                if q[0] != 'eq' or any(mentions(p, names) for p in X.cond_polys(c)):
                    continue
                for a2, val in X.eq_solutions(q[1]):
                    try:
                        dv = X.subst(v, {a2: val}) - P(H)
                    except X.Unsupported:
                        continue
                    if not mentions(dv, names):
                        return ('add', X.ite(c, dv, ZERO))
            if mentions(v, names) or any(mentions(p, names) for p in X.cond_polys(c)):
                return None
            # scatter: one of the conjuncts determines k
            cs = list(c[1]) if c[0] == 'and' else [c]
            for q in cs:
                if q[0] != 'eq':
                    continue
                sol = solve_for(q[1], k)
                if sol is None:
                    continue
                rest = X.c_and(*[z for z in cs if z is not q])
                return ('scatter', sol, rest, v)
        return None

    # -- candidate invariants ------------------------------------------------
    def houdini(self, n):
        k = self.k
        if not CANDIDATES:
            return False
        seen = []
        for v0, v1 in zip(flatten(seq_get(self.it, ZERO)), flatten(seq_get(self.it, UNIT))):
            if isinstance(v0, T) or not TT._isnum(v0):
                continue
            d = P(v1) - P(v0)
            if (d == UNIT or d == P(-1)) and (P(v0), d) not in seen:
                seen.append((P(v0), d))
        for start, d in reversed(seen):
            if (yield from self.houdini_from(n, start, d == UNIT)):
                return True
        return False

    def houdini_from(self, n, start, up):
        k = self.k
        options = []
        for it in self.items:
            kind, x = it
            opts = []
            for cand in CANDIDATES:
                name, nd, fn = cand
                if kind == 'st' and x.rank == nd:
                    opts += [('rows', cand), ('rows', cand, 1), ('rows', cand, -1)]
                if kind == 'loc':
                    v = self.loc0[x]
                    r = v.ndim if isinstance(v, T) else 0
                    if r == nd - 1 and (r or isinstance(v, T) or TT._isnum(v)):
                        opts += [('last', cand), ('last', cand, 1), ('last', cand, -1)]
                if kind == 'list' or kind == 'loc' and isinstance(self.loc0[x], list):
                    opts += [(h, cand, off) for h in ('plist', 'alist') for off in (0, -1, 1)]
            good = [o for o in opts if self._base(it, o, start, up, n)]
            if not good:
                return False
            options.append(good)
        for combo in itertools.product(*options):
            save = {it: it[1].content for it in self.items if it[0] == 'st'}
            self.over = {}
            for it, o in zip(self.items, combo):
                self._set(it, o, start, up, P(k), save.get(it))
            ok = True
            try:
                yield from self.iterate('step')
                for it, o in zip(self.items, combo):
                    if not self._check(it, o, start, up, P(k) + 1, save.get(it)):
                        ok = False
                        break
            except (Undecided, TT.TorchError):
                ok = False
            self.restore()
            self._undo(save)
            if ok:
                for it, o in zip(self.items, combo):
                    LOOPSTATS['obligations'] += 2
                    self._set(it, o, start, up, n, save.get(it), final=True)
                return True
        return False

    def _region(self, t, start, up, kk):
        'rows already processed before iteration kk (or never to be written)'
        if up:
            return X.c_lt0(t - start - kk)
        return X.c_lt0(start - kk - t)

    def _base(self, it, o, start, up, n):
        kind, x = it
        how, (name, nd, fn), *off = o
        start = start + P(sum(off))
        try:
            if how == 'rows':
                bs = [new_idx(s, 'b') for s in x.shape]
                c = self._region(P(bs[0]), start, up, ZERO)
                if c is False:
                    return True
                with X.facts(c):
                    idx = tuple(P(b) for b in bs)
                    return self._equal(x.content(idx), fn, idx, bs[0], start, up)
            if how == 'last':
                v = self.loc0[x]
                t = start - 1 if up else start + 1
                sh = v._shape if isinstance(v, T) else ()
                bs = [new_idx(s, 'b') for s in sh]
                idx = tuple(P(b) for b in bs)
                a = v.at(*idx) if isinstance(v, T) else P(v)
                return spec_equal(a, fn, (t,) + idx)
            if how in ('plist', 'alist'):
                v = self.loc0[x] if kind == 'loc' else self.lists0[x][0]
                if not isinstance(v, list) or len(v) != 1 or up and how == 'plist':
                    return False
                # the first element is the one before the first iteration
                return item_equal(v[0], nd, fn, start)
        except (Undecided, Unsupported):
            return False
        return False

    def _equal(self, a, fn, idx, b0, start, up):
        # rows outside the written range: typically one row (0 or last)
        if up and start == UNIT:
            e = {b0: ZERO}
        elif not up:
            e = {b0: start + 1}
        else:
            return spec_equal(a, fn, idx)
        idx2 = tuple(X.subst(i, e) for i in idx)
        return spec_equal(X.subst(a, e), fn, idx2)

    def _set(self, it, o, start, up, kk, old, final=False):
        kind, x = it
        how, (name, nd, fn), *off = o
        start = start + P(sum(off))
        if how == 'rows':
            def content(idx):
                c = self._region(idx[0], start, up, kk)
                if c is True:
                    return fn(*idx)
                return X.ite(c, fn(*idx), old(idx))
            (x.setcontent if final else x.rawset)(TT.memo(content))
        elif how == 'last':
            t = start + kk - 1 if up else start - kk + 1
            v = self.loc0[x]
            if isinstance(v, T):
                r = T(v._shape, lambda idx: fn(*((t,) + tuple(idx))), v.dtype)
            else:
                r = wrap(fn(t))
            (self.fin if final else self.over)[x] = r
        else:
            at = (lambda m: start - kk + m) if how == 'plist' else (
                lambda m: start + m if up else start - m)
            v = (self.loc0[x] if kind == 'loc' else self.lists0[x][0])[0]
            sh, dt = (v._shape, v.dtype) if isinstance(v, T) else ((), TT.int64)
            l = SymList(kk + 1, lambda m: T(sh, (lambda m: lambda idx: fn(at(m), *idx))(m), dt))
            if final and x not in self.assigned:
                raise Unsupported('list mutated through an alias')
            (self.fin if final else self.over)[x] = l

    def _check(self, it, o, start, up, kk, old):
        kind, x = it
        how, (name, nd, fn), *off = o
        start = start + P(sum(off))
        if how == 'rows':
            bs = [new_idx(s, 'b') for s in x.shape]
            idx = tuple(P(b) for b in bs)
            new = x.content
            # the row written in this iteration
            row = start + kk - 1 if up else start - kk + 1
            e = (row,) + idx[1:]
            if not spec_equal(new(e), fn, e):
                return False
            # every other row is unchanged w.r.t. the invariant at k
            c = X.c_eq0(idx[0] - row)
            with X.facts(X.c_not_raw(c)):
                reg = self._region(idx[0], start, up, kk - 1)
                want = X.ite(reg, fn(*idx), old(idx))
                return X.is_zero(X.resimp(new(idx) - want))
        if how == 'last':
            v = self.out[x]
            t = start + kk - 1 if up else start - kk + 1
            v0 = self.loc0[x]
            sh = v0._shape if isinstance(v0, T) else ()
            if isinstance(v, T) and v._shape != sh:
                return False
            bs = [new_idx(s, 'b') for s in sh]
            idx = tuple(P(b) for b in bs)
            a = v.at(*idx) if isinstance(v, T) else P(v)
            return spec_equal(a, fn, (t,) + idx)
        v = self.out[x] if kind == 'loc' else self.outloc[x]
        if not isinstance(v, SymList) or v.n != kk + 1:
            return False
        if how == 'alist':
            at = lambda m: start + m if up else start - m
            return all(item_equal(v.f(m), nd, fn, at(m)) for m in (kk, P(new_idx(kk, 'm'))))
        # the tail is the old list shifted by one
        m2 = P(new_idx(kk, 'm'))
        return item_equal(v.f(ZERO), nd, fn, start - kk) and \
            item_equal(v.f(m2 + 1), nd, fn, start - kk + 1 + m2)


def item_equal(a, nd, fn, t):
    'the list element a is the row t of the specification fn (rank nd)'
    if not isinstance(a, T):
        return nd == 1 and TT._isnum(a) and spec_equal(P(a), fn, (t,))
    if a.ndim != nd - 1:
        return False
    bs = [P(new_idx(s, 'b')) for s in a._shape]
    return spec_equal(a.at(*bs), fn, (t, *bs))


class OldItem:
    'element of a list in the state before an iteration'

    def __init__(self, k):
        self.k = k


def abstract(v, k, names):
    'the value v computed in iteration k as a function of k; None when it depends on names'
    if isinstance(v, T):
        bs = [new_idx(s, 'b') for s in v._shape]
        body = v.at(*[P(b) for b in bs])
        if mentions(body, names) or any(mentions(s, names) for s in v._shape):
            return None
        shape, dtype = v._shape, v.dtype

        def f(kk):
            e = {k: P(kk)}

            def content(idx):
                d = {b: P(i) for b, i in zip(bs, idx)}
                return X.subst(X.subst(body, d) if d else body, e)
            return T(tuple(X.subst(s, e) for s in shape), content, dtype)
        return f
    if isinstance(v, SV):
        p = v.poly
        return None if mentions(p, names) else (lambda kk: wrap(X.subst(p, {k: P(kk)})))
    if isinstance(v, tuple):
        fs = [abstract(x, k, names) for x in v]
        return None if None in fs else (lambda kk: tuple(f(kk) for f in fs))
    if v is None or isinstance(v, (bool, int, float, str, Fraction)):
        return lambda kk: v
    return None


def mentions(p, names):
    for m in p.t:
        for a, _ in m:
            if _mentions_atom(a, names):
                return True
    return False


def _mentions_atom(a, names):
    if a.kind == 'elem' and a.args[0] in names:
        return True
    for x in a.args:
        if isinstance(x, Poly):
            if mentions(x, names):
                return True
        elif isinstance(x, tuple):
            if a.kind == 'ite':
                if any(mentions(q, names) for q in X.cond_polys(x)):
                    return True
            else:
                for y in x:
                    if isinstance(y, Poly) and mentions(y, names):
                        return True
    return False


def solve_for(p, k):
    'p == 0  <=>  k == result (for k linear, or under a permutation).'
    lr = X._linear_in(p, k)
    if lr is not None and abs(lr[0]) == 1:
        c, r = lr
        return r.scale(-1 / c)
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.kind == 'elem' and len(a.args) == 2 and a.args[1].single() is k:
                inv = X.TENSORS[a.args[0]].perm_inv
                if inv:
                    rest = p - Poly({m: c})
                    if k not in rest.free():
                        return X.elem(inv, (rest.scale(-1 / c),))
    return None


def spec_equal(a, fn, idx):
    'a == fn(*idx), unfolding recursive specifications when needed.'
    s = fn(*idx)
    d = a - s
    if X.is_zero(d):
        return True
    u = unfold(s)
    if u is not None and X.is_zero(a - u):
        return True
    return False


UNFOLD = {}           # spec tensor name -> fn(idx) -> Poly or None


def unfold(p, only=None):
    '''Replace the recursively specified elements of p by their definition once
    (only those at the given (name, first index)).'''
    hit = False
    if not UNFOLD or not mentions(p, UNFOLD):
        return None

    def f(q):
        r = ZERO
        for m, c in q.t.items():
            t = Poly({(): c})
            for a, e in m:
                t = t * X.power(g(a), e)
            r = r + t
        return r

    def g(a):
        nonlocal hit
        if a.kind == 'elem' and a.args[0] in UNFOLD and (
                only is None or any(a.args[0] == n and X.is_zero(a.args[1] - i) for n, i in only)):
            v = UNFOLD[a.args[0]](a.args[1:])
            if v is not None:
                hit = True
                return v
            return P(a)
        if a.kind == 'elem':
            return X.elem(a.args[0], tuple(f(x) for x in a.args[1:]))
        if a.kind == 'fn':
            return X.fn(a.args[0], *[f(x) for x in a.args[1:]])
        if a.kind == 'exp':
            return X.expfn(f(a.args[0]))
        if a.kind == 'poly':
            return f(a.args[0])
        if a.kind == 'ite':
            c = X.map_cond(a.args[0], f)
            if c is True or c is False:
                return f(a.args[1] if c else a.args[2])
            with X.facts(c):
                v = X.resimp(X.assume_cond(f(a.args[1]), c, True))
            with X.facts(X.c_not_raw(c)):
                w = X.resimp(X.assume_cond(f(a.args[2]), c, False))
            return X.ite(c, v, w)
        if a.kind == 'sum':
            vs, b = X.open_sum(a)
            b = f(b)
            for v in reversed(vs):
                b = X.msum(v, b)
            return b
        if a.kind in ('max', 'argmax'):
            v, b = X.open_bind(a)
            return X.bind(a.kind, v, f(b))
        return P(a)
    r = f(p)
    return r if hit else None


# ----------------------------------------------------------------------
# builtins seen by the code under verification

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or (
            builtins.isinstance(x, SV) and X.is_int(x.poly))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, *a, **k):
        if a and builtins.isinstance(a[0], T):
            return cls(a[0].item())
        if a and builtins.isinstance(a[0], SV):
            if X.is_int(a[0].poly):
                return a[0]
            p = a[0].poly
            if X.is_int_valued_triangular(p):
                return a[0]
            return wrap(X.fn('floor', p))
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class sint(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or (
            builtins.isinstance(x, SV) and not X.is_int(x.poly))

    def __call__(cls, *a):
        if a and builtins.isinstance(a[0], T):
            return a[0].item()
        if a and builtins.isinstance(a[0], SV):
            return a[0]
        if a and builtins.isinstance(a[0], builtins.str):
            return builtins.float(a[0])
        if a and hasattr(a[0], '__float__') and not builtins.isinstance(a[0], (builtins.int, builtins.float)):
            return type(a[0]).__float__(a[0])
        return builtins.float(*a)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class sfloat(metaclass=_FloatMeta):
    pass


def slen(x):
    if hasattr(type(x), 'symlen'):
        return x.symlen()
    f = getattr(type(x), '__len__', None)
    if f is not None and not builtins.isinstance(x, (list, tuple, dict, str, set)):
        return f(x)
    return builtins.len(x)


def srange(*a):
    a = [x.item() if builtins.isinstance(x, T) else x for x in a]
    if all(builtins.isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        r = SymRange(0, a[0])
    else:
        r = SymRange(*a)
    if r.n.is_const() and r.start.is_const():
        s = builtins.int(r.start.const())
        return builtins.range(s, s + r.step * builtins.int(r.n.const()), r.step)
    return r


def _symlen_of(x):
    return seq_len(x)


def senumerate(x, start=0):
    if is_symseq(x):
        s = x.clone() if builtins.isinstance(x, T) else x
        return SymList(seq_len(x), lambda k: (wrap(P(k) + P(start)), seq_get(s, P(k))))
    return builtins.enumerate(x, start)


def szip(*xs):
    if any(is_symseq(x) for x in xs):
        n = None
        for x in xs:
            if not is_symseq(x):
                if builtins.isinstance(x, (builtins.range, list, tuple)):
                    raise Unsupported('zip of symbolic and concrete sequences')
                raise Unsupported('zip')
            m = seq_len(x)
            if n is None:
                n = m
            elif n != m:
                if X.prove_nonneg(m - n):
                    pass
                elif X.prove_nonneg(n - m):
                    n = m
                else:
                    raise Unsupported('zip of different lengths')
        return SymList(n, lambda k: tuple(seq_get(x, P(k)) for x in xs))
    return builtins.zip(*xs)


def sreversed(x):
    if builtins.isinstance(x, (SymList, SymRange)):
        return x.__reversed__()
    return builtins.reversed(x)


def ssum(x, start=0):
    if builtins.isinstance(x, T):
        return x.sum(0)
    if builtins.isinstance(x, (SymList, SymRange)):
        if x.n.is_const():
            x = [x.elem(P(i)) for i in builtins.range(builtins.int(x.n.const()))]
        else:
            k = new_idx(x.n, 's')
            e = x.elem(P(k))
            if builtins.isinstance(e, T):
                snap = e.snap()
                sh = e._shape

                def content(idx):
                    kk = new_idx(x.n, 's')
                    return X.msum(kk, x.elem(P(kk)).at(*idx))
                r = T(sh, content, e.dtype)
                return r + start if start != 0 else r
            return wrap(P(start) + X.msum(k, P(e)))
    r = start
    for v in x:
        r = r + v
    return r


def _minmax(op):
    def f(*a, **kw):
        if kw:
            return getattr(builtins, op)(*a, **kw)
        xs = a[0] if len(a) == 1 else a
        if builtins.isinstance(xs, SymList) or builtins.isinstance(xs, T):
            if is_symseq(xs):
                raise Unsupported(f'{op} of a symbolic sequence')
        xs = list(xs)
        if not any(builtins.isinstance(v, (SV, T)) for v in xs):
            return getattr(builtins, op)(xs)
        r = xs[0]
        for v in xs[1:]:
            if op == 'min':
                r = TT.merge(TT.condof(v < r), v, r)
            else:
                r = TT.merge(TT.condof(v > r), v, r)
        return r
    return f


def sabs(x):
    return builtins.abs(x)


def ssorted(x, **kw):
    if is_symseq(x):
        raise Unsupported('sorted')
    l = list(x)
    return builtins.sorted(l, **kw)


def slist(x=()):
    if builtins.isinstance(x, SymList):
        return x.copy()
    if builtins.isinstance(x, SymRange) and not x.n.is_const():
        return SymList(x.n, lambda k: x.elem(P(k)))
    if builtins.isinstance(x, T) and is_symseq(x):
        s = x.clone()
        return SymList(x._shape[0], lambda k: s[SV(k)])
    return builtins.list(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.list, SymList))

    def __call__(cls, *a):
        return slist(*a)


class slist_t(metaclass=_ListMeta):
    pass


def sround(x, *a):
    if builtins.isinstance(x, SV):
        raise Unsupported('round')
    return builtins.round(x, *a)


def _vf_loop(it, fn, assigned, used, loc, attr=False):
    l = Loop(it, fn, assigned, used, loc)
    if l.sym and attr:
        raise Unsupported('attribute assignment inside a symbolic loop')
    return l


def make_builtins():
    d = dict(vars(builtins))
    d.update(len=slen, range=srange, enumerate=senumerate, zip=szip,
             reversed=sreversed, sum=ssum, min=_minmax('min'), max=_minmax('max'),
             sorted=ssorted, list=slist_t, int=sint, float=sfloat, round=sround,
             **{"__vf_loop__": _vf_loop, "__vf_comp__": vf_comp,
                "__vf_if__": Pred, "__vf_istensor__": vf_istensor,
                "__vf_indices__": vf_indices, "__vf_counts__": vf_counts,
                "__vf_range__": srange, "__vf_max__": _minmax('max'), "__vf_min__": _minmax('min')})
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            top = name.split('.')[0]
            if top == 'math':
                return SMATH
            if top == 'random':
                return SRANDOM
            if top in ('torch',):
                from . import shim_torch
                return shim_torch.importer(name, fromlist)
            if top in ('numpy', 'scipy'):
                from . import shim_numpy
                return shim_numpy.importer(name, fromlist)
            if top == 'functools':
                return SFUNCTOOLS
            if top == 'natsort':
                return SNATSORT
        return real_import(name, globals, locals, fromlist, level)
    d['__import__'] = imp
    return d


class _Math(types.ModuleType):
    pi = SV(X.PI)
    inf = float('inf')
    e = _math.e

    @staticmethod
    def log(x, *b):
        if b:
            raise Unsupported('log base')
        if isinstance(x, T):
            x = x.item()
        return wrap(X.logfn(P(x)))

    @staticmethod
    def sqrt(x):
        if isinstance(x, T):
            x = x.item()
        r = X.poly_sqrt(P(x))
        if r is not None:
            return wrap(r)
        return wrap(X.power(P(x), Fraction(1, 2)))

    @staticmethod
    def exp(x):
        return wrap(X.expfn(P(x)))

    @staticmethod
    def lgamma(x):
        return wrap(X.fn('lgamma', P(x)))

    @staticmethod
    def ceil(x):
        if isinstance(x, SV):
            return wrap(-X.fn('floor', -x.poly))
        return _math.ceil(x)

    @staticmethod
    def floor(x):
        if isinstance(x, SV):
            return wrap(X.fn('floor', x.poly))
        return _math.floor(x)

    @staticmethod
    def isnan(x):
        return False


SMATH = _Math('math')


class _Random(types.ModuleType):
    'random numbers: arbitrary values'

    @staticmethod
    def choices(population, weights=None, *, cum_weights=None, k=1):
        import random
        if isinstance(population, (list, range)) and not isinstance(k, SV):
            return random.choices(population, weights, cum_weights=cum_weights, k=k)
        n = slen(population)
        if n == 0:
            raise IndexError('list index out of range')
        if cum_weights is not None or weights is not None:
            raise Unsupported('weighted choices')
        name = TT.fresh_name('choice')
        TT.input_tensor(name, (P(k),), isint=True, nonneg=True, lo=ZERO, hi=P(n))
        pop = population
        if isinstance(pop, (list, range)):
            if list(pop) != list(builtins.range(len(pop))):
                raise Unsupported('choices')
            pop = SymRange(0, len(pop))
        return SymList(P(k), lambda i: pop.elem(X.elem(name, (i,))))

    def __getattr__(self, n):
        import random
        f = getattr(random, n)

        def g(*a, **kw):
            if any(isinstance(x, (SV, SymList, SymRange, T)) for x in a):
                raise Unsupported(f'random.{n}')
            return f(*a, **kw)
        return g


SRANDOM = _Random('random')


class _Functools(types.ModuleType):
    'functools without the caches: the results of a cached function are those of the function'

    @staticmethod
    def lru_cache(maxsize=128, typed=False):
        return maxsize if callable(maxsize) else lambda f: f

    @staticmethod
    def cache(f):
        return f

    def __getattr__(self, n):
        import functools
        return getattr(functools, n)


SFUNCTOOLS = _Functools('functools')


class _Natsort(types.ModuleType):
    'natural order of strings: the numbers in them compared as numbers'

    @staticmethod
    def natsorted(seq, key=None, reverse=False):
        import re

        def k(x):
            x = key(x) if key else x
            return [(0, int(p), '') if p.isdigit() else (1, 0, p)
                    for p in re.split('([0-9]+)', x) if p]
        return sorted(seq, key=k, reverse=reverse)


SNATSORT = _Natsort('natsort')


# ----------------------------------------------------------------------
# loader

LOADED = []


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        src = open(self.path).read()
        tree = ast.parse(src, self.path)
        tree = Instr().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        mod.__dict__['__builtins__'] = BUILTINS
        LOADED.append(self.path)
        exec(code, mod.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'beer' and not name.startswith('beer.'):
            return None
        rel = name.replace('.', '/')
        base = os.path.join(REPO, rel)
        if os.path.isdir(base) and os.path.exists(base + '/__init__.py'):
            return importlib.util.spec_from_file_location(
                name, base + '/__init__.py', loader=Loader(base + '/__init__.py', True),
                submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=Loader(base + '.py', False))
        return None


BUILTINS = None


def install():
    global BUILTINS
    if BUILTINS is None:
        BUILTINS = make_builtins()
        sys.meta_path.insert(0, Finder())


def load_beer():
    install()
    _Math.pi = SV(X.PI)
    for m in [m for m in sys.modules if m == 'beer' or m.startswith('beer.')]:
        del sys.modules[m]
    from . import shim_torch
    saved = {k: sys.modules.get(k) for k in list(sys.modules)
             if k == 'torch' or k.startswith('torch.')}
    sys.modules['torch'] = shim_torch.torch
    for k, v in shim_torch.submodules().items():
        sys.modules[k] = v
    import importlib as il
    return il.import_module('beer')
