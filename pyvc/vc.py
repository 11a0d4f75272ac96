"""Verification conditions: contracts, obligations and their bookkeeping."""
import contextlib
import io
import json
import os
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import interp as P
from . import npmodel as N
from . import spmodel as _spmodel
from . import solver as S
from . import terms as T
from .interp import Arr, Path, PyRaise, explore, isarr
from .terms import (Cx, I, Inf, R, Rz, Unsupported, isscalar, isz, sand, seq,
                    sle, slt, snot, sor)


class Ob:
    def __init__(self, name, status, backend, secs, info='', model=None):
        self.name, self.status, self.backend = name, status, backend
        self.secs, self.info, self.model = secs, info, model


class VC:
    """obligations of one unit"""
    def __init__(self, unit, deadline=None):
        self.unit = unit
        self.obs = []
        self.same = {}
        self.functions = set()
        self.models = set()
        self.covers = []
        self.hyplists = []
        self.opts = {}
        self.timeout = 20000
        self.deadline = deadline

    # ------------------------------------------------------------- symbols
    def real(self, name):
        return z3.Real(name)

    def int(self, name):
        return z3.Int(name)

    def fn(self, name, arity=1, sort=R, dom=I):
        return z3.Function(name, *([dom] * arity + [sort]))

    def arr(self, name, shape, kind='f', owner=True):
        """symbolic array argument (owned by the caller)"""
        shape = tuple(shape)
        n = len(shape)
        if kind == 'c':
            fr, fi = self._f(name + '.re', n), self._f(name + '.im', n)
            a = Arr(shape, lambda idx: Cx(fr(idx), fi(idx)), 'c')
        elif kind == 'z':
            f = self._f(name, n)
            a = Arr(shape, lambda idx: Rz(f(idx)), 'z')
        elif kind == 'i':
            a = Arr(shape, self._f(name, n, I), 'i')
        elif kind == 'b':
            a = Arr(shape, self._f(name, n, T.B), 'b')
        else:
            a = Arr(shape, self._f(name, n), 'f')
        if owner:
            a.buf.owner = name
        a.contig, a.dt = False, '?'
        return a

    @staticmethod
    def _f(name, n, sort=R):
        if n == 0:
            c = z3.Const(name, sort)
            return lambda idx: c
        f = z3.Function(name, *([I] * n + [sort]))
        return lambda idx: f(*[T.lit(x) for x in idx])

    # ------------------------------------------------------------ execution
    def run(self, build, hyps=(), contracts=None, name='', **opts):
        """paths of build(ctx); build calls the real function"""
        hyps = [T.lit(h) if isinstance(h, bool) else h for h in hyps]
        self.hyplists.append(hyps)
        o = dict(self.opts)
        o.update(opts)
        o['used'] = self.functions
        o['models'] = self.models
        st = S.sat_cover(hyps)
        self.covers.append((name, st))
        if st == 'unsat':
            self.obs.append(Ob('%s/cover' % name, 'refuted', 'z3', 0,
                               'the precondition is contradictory'))
        paths = explore(build, hyps, contracts, o)
        for p in paths:
            p.hyps = list(hyps) + list(p.pc)
            for nm, facts, cond in p.ctx.obligs:
                self.ob('%s/%s' % (name, nm), facts, cond)
        if not paths:
            self.obs.append(Ob('%s/paths' % name, 'refuted', '', 0,
                               'no path'))
        return [p for p in paths if p.kind != 'end']

    def call(self, fn, args=(), kwargs=None, hyps=(), name='', **opts):
        """paths of fn(*args): args may be a callable building them"""
        def build(ctx):
            a = args() if callable(args) else args
            k = kwargs() if callable(kwargs) else (kwargs or {})
            return ctx.call(fn, tuple(a), dict(k))
        return self.run(build, hyps, name=name or getattr(
            fn, '__name__', 'call'), **opts)

    def side_conditions(self):
        """cancellations made by the normal form while terms were built"""
        for c in list(T.LOOSE.values()):
            if S.sign_decide([], c) is True or S.decide([], c) is True:
                continue
            fc = {str(x) for x in T.free_consts(c).values()}
            ls = [h for h in self.hyplists if fc & {
                str(x) for e in h for x in T.free_consts(e).values()}]
            for h in ls or [[]]:
                self.ob('normal form: %s' % str(c)[:80].replace('\n', ' '),
                        h, c)
        T.LOOSE.clear()

    # ---------------------------------------------------------- obligations
    def ob(self, name, hyps, goal, formal=False, timeout=None):
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            self.obs.append(Ob(name, 'unknown', '', 0, 'time budget spent'))
            return False
        try:
            goal, hyps = T.tobool(goal), list(hyps)
            key = (frozenset(h.get_id() if z3.is_expr(h) else h
                             for h in hyps),
                   goal.get_id() if z3.is_expr(goal) else goal, formal,
                   timeout, S.LIGHT[0])
            r = None
            if key in self.same:
                # the same formula, on another path
                r = self.same[key][0]
            if r is None:
                r = S.prove(hyps, goal, timeout or self.timeout, formal)
                if r.ok:
                    self.same[key] = (r, hyps, goal)
            self.obs.append(Ob(name, r.status, r.backend, time.time() - t0,
                               r.info, r.model))
            return r.ok
        except Unsupported as e:
            self.obs.append(Ob(name, 'unknown', '', time.time() - t0,
                               'outside the verifier: %s' % e))
            return False

    def lean(self, name, path):
        """a lemma file, accepted by Lean with the standard axioms only"""
        import re
        import subprocess
        t0 = time.time()
        path = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), path)
        try:
            r = subprocess.run(['lean', path], capture_output=True,
                               text=True, timeout=200)
            out = r.stdout + r.stderr
            ax = re.findall(r'depends on axioms: \[([^\]]*)\]', out)
            ok = r.returncode == 0 and ax and 'sorry' not in out and \
                'error' not in out and all(
                    a.strip() in ('propext', 'Classical.choice',
                                  'Quot.sound')
                    for t in ax for a in t.split(','))
        except (OSError, subprocess.TimeoutExpired) as e:
            ok, out = False, str(e)
        self.obs.append(Ob(name, 'proved' if ok else 'unknown', 'lean',
                           time.time() - t0, '' if ok else out[-500:]))
        return ok

    def proved(self, name, backend, secs):
        """an obligation the contract discharged itself"""
        self.obs.append(Ob(name, 'proved', backend, secs))

    def fail(self, name, info):
        self.obs.append(Ob(name, 'unknown', '', 0, info))

    def holds(self, name, cond, info=''):
        """obligation decided by evaluation (structural)"""
        self.obs.append(Ob(name, 'proved' if cond else 'refuted', 'eval', 0,
                           '' if cond else info))
        return cond

    def returns(self, name, p):
        """the path returns normally (or is infeasible)"""
        if p.returned:
            return True
        if not S.feasible(p.hyps, 5000):
            return False
        self.obs.append(Ob(name + '/no-exception', 'refuted', 'z3', 0,
                           'raises %s' % p.value, _model(p.hyps)))
        return False

    def raises(self, name, p, *cls):
        ok = p.kind == 'raise' and issubclass(p.value.cls, cls)
        if not ok and not S.feasible(p.hyps, 5000):
            return True
        self.obs.append(Ob(name + '/raises', 'proved' if ok else 'refuted',
                           'eval', 0, '' if ok else '%s: %s' % (
                               p.kind, p.value), None if ok else
                           _model(p.hyps)))
        return ok

    def equal(self, name, p, got, want, extra=(), formal=None):
        """got == want (values of any modelled kind), all elements"""
        hyps = (p.hyps if isinstance(p, Path) else list(p)) + list(extra)
        try:
            return self._equal(name, hyps, got, want, formal)
        except Unsupported as e:
            self.fail(name, 'outside the verifier: %s' % e)
            return False

    def _equal(self, name, hyps, got, want, formal):
        if isinstance(want, Arr) and want.ndim == 0 and not (
                isinstance(got, Arr)):
            want = want.at()
        if isinstance(want, (tuple, list)) and not isinstance(got, Arr):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                return self.holds(name, False, 'got %r' % (got,))
            return all([self._equal('%s[%d]' % (name, j), hyps, g, w, formal)
                        for j, (g, w) in enumerate(zip(got, want))])
        if isinstance(want, (tuple, list)):
            class _C:
                pass
            want = N.asarr(P.Ctx(hyps), list(want))
        if isarr(want):
            if isinstance(got, (P.SSeq, list, tuple)):
                got = N.asarr(P.Ctx(hyps), got)
            if not isarr(got):
                return self.holds(name, False, 'not an array: %r' % (got,))
            if not self.holds(name + '.ndim', got.ndim == want.ndim,
                              'shape %s, expected %s' % (got.shape,
                                                         want.shape)):
                return False
            for j, (a, b) in enumerate(zip(got.shape, want.shape)):
                if not (isinstance(a, int) and isinstance(b, int) and
                        a == b) and not T.same(a, b):
                    if not self.ob('%s.shape[%d]' % (name, j), hyps,
                                   seq(a, b)):
                        return False
            return self._elements(name, hyps, got, want, formal)
        if isscalar(want):
            if isarr(got) and got.ndim == 0:
                got = got.at()
            if not isscalar(got):
                return self.holds(name, False, 'got %r' % (got,))
            return self._scalar(name, hyps, got, want, formal)
        if isinstance(want, dict):
            if not isinstance(got, dict) or list(got) != list(want) and set(
                    got) != set(want):
                return self.holds(name, False, 'got %r' % (got,))
            return all([self._equal('%s[%s]' % (name, k), hyps, got[k],
                                    want[k], formal) for k in want])
        return self.holds(name, got is want or _safe_eq(got, want),
                          'got %r, expected %r' % (got, want))

    def _elements(self, name, hyps, got, want, formal):
        if all(isinstance(d, int) for d in want.shape):
            n = 1
            for d in want.shape:
                n *= d
            if n <= 400:
                ok = True
                for ix in P.indices(want.shape):
                    ok = self._scalar('%s%s' % (name, list(ix)), hyps,
                                      got.at(*ix), want.at(*ix),
                                      formal) and ok
                return ok
        ix = [T.fresh(I, 'e') for _ in want.shape]
        dom = [sand(sle(0, x), slt(x, d)) for x, d in zip(ix, want.shape)]
        return self._scalar(name + '[*]', hyps + dom, got.at(*ix),
                            want.at(*ix), formal)

    def _scalar(self, name, hyps, g, w, formal):
        if isinstance(g, Rz) or isinstance(w, Rz):
            return self.ob(name, hyps, T.rz(g).e == T.rz(w).e, True)
        if isinstance(g, Cx) or isinstance(w, Cx):
            g, w = T.cx(g), T.cx(w)
            a = self.ob(name + '.re', hyps, seq(g.re, w.re), bool(formal))
            b = self.ob(name + '.im', hyps, seq(g.im, w.im), bool(formal))
            return a and b
        if isinstance(g, Inf) and isinstance(w, Inf):
            return self.holds(name, g == w, 'got %r' % g)
        if isinstance(g, Inf):
            g = T.lit(g)
        if isinstance(w, Inf):
            w = T.lit(w)
        if T.isbool(g) and T.isbool(w):
            e = (g == w) if isinstance(g, bool) and isinstance(w, bool) \
                else T.lit(g) == T.lit(w)
            return self.ob(name, hyps, e)
        return self.ob(name, hyps, seq(T._arith(g), T._arith(w)),
                       bool(formal))

    def frame(self, name, p):
        """no array of the caller is written"""
        w = [e for e in flat_events(p.events) if e[0] == 'write']
        return self.holds(name + '/frame', not w,
                          'writes the argument %s' % (w,))


def flat_events(evs):
    out = []
    for e in evs:
        while e and e[0] in ('cond', 'loop'):
            e = e[-1]
        out.append(e)
    return out


def _safe_eq(a, b):
    try:
        return type(a) == type(b) and bool(a == b)
    except Exception:
        return False


def _model(hyps):
    r, s = S.z3check(S.purify([S._zb(h) for h in hyps])[0], 3000)
    return s.model() if r == z3.sat else None


# --------------------------------------------------------------- dynamic part
class Found(Exception):
    def __init__(self, msg, data):
        self.msg, self.data = msg, data


class Dyn:
    """bounded run-time checking of the contracts on the real code"""
    def __init__(self, rng, budget, tier):
        self.rng = rng
        self.deadline = time.time() + budget
        self.tier = tier
        self.n = 0
        self.keys = set()
        self.samples = []
        self.cur = None

    def more(self):
        return time.time() < self.deadline

    def top(self, n):
        """cap on the number of cases"""
        return n if self.tier != 'thorough' else 20 * n

    def case(self, **data):
        self.cur = data
        self.n += 1
        k = repr(data)[:300]
        if k not in self.keys:
            self.keys.add(k)
            if len(self.samples) < 3:
                self.samples.append(k)

    def expect(self, cond, msg, **extra):
        if not bool(cond):
            d = dict(self.cur or {})
            d.update(extra)
            raise Found(msg, d)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12):
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Found(msg + ': shape', dict(self.cur or {}, got=g, want=w))
        if g.dtype == bool or w.dtype == bool:
            g, w = g * 1, w * 1
        with np.errstate(all='ignore'):
            ok = (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (
                np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            raise Found(msg, dict(self.cur or {}, got=g, want=w))

    def raises(self, cls, f, *a, **k):
        try:
            r = f(*a, **k)
        except cls:
            return
        except Exception as e:
            raise Found('expected %s, got %s: %s' % (
                cls.__name__, type(e).__name__, e), dict(self.cur or {}))
        raise Found('expected %s, returned' % cls.__name__,
                    dict(self.cur or {}, got=r))


class Unit:
    def __init__(self, name, prove=None, dyn=None, bounded_only=''):
        self.name, self.prove, self.dyn = name, prove, dyn
        self.bounded_only = bounded_only   # why no proof, when prove is None


class Prop:
    def __init__(self, pid):
        self.id = pid
        self.units = []
        self.assumptions = []
        self.functions = []

    def unit(self, name):
        def deco(f):
            for u in self.units:
                if u.name == name:
                    u.prove = f
                    return f
            self.units.append(Unit(name, f))
            return f
        return deco

    def dyn(self, name):
        def deco(f):
            for u in self.units:
                if u.name == name:
                    u.dyn = f
                    return f
            self.units.append(Unit(name, None, f))
            return f
        return deco

    def assume(self, *txt):
        self.assumptions.extend(txt)
