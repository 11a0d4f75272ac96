"""Rules for code whose state is described by quantified facts: while loops
with a stated invariant, boolean selection and sorting as index maps."""
import ast

import z3

from . import interp as P
from . import npmodel as N
from . import terms as T
from .interp import Arr, BreakSig, ContinueSig, PyRaise, isarr
from .terms import (Cx, I, R, Unsupported, isscalar, isz, sand, seq, sge, sle,
                    slt, smul, snot, sor)


class EndPath(Exception):
    """the path ends: an iteration of a loop whose invariant was checked"""


def lit(x):
    return T.lit(x)


def forall(n, f, pat=None):
    """for all 0 <= k < n: f(k)"""
    k = T.fresh(I, 'q')
    b = T.tobool(f(k))
    if isinstance(b, bool):
        return b or sle(n, 0)
    body = z3.Implies(z3.And(k >= 0, k < lit(n)), b)
    if pat is not None:
        return z3.ForAll([k], body, patterns=[pat(k)])
    return z3.ForAll([k], body)


class Perm:
    """index map of a selection or a sort: values at fn(k), k < n"""
    def __init__(self, kind, fn, inv, n, arr):
        self.kind, self.fn, self.inv, self.n, self.arr = kind, fn, inv, n, arr


def perms(ctx):
    if not hasattr(ctx, 'perms'):
        ctx.perms = []
    return ctx.perms


def select(ctx, m):
    """explicit form of x[mask], by the index map of the selected elements"""
    if len(m.mshape) != 1:
        raise Unsupported('selection from a matrix')
    n = m.mshape[0]
    sel = None
    for p in perms(ctx):
        if p.kind == 'select' and N.same_mask(ctx, p.arr, m):
            sel = p
    if sel is None:
        cnt = m.shape[0] if isz(m.shape[0]) else T.fresh(I, 'cnt')
        f = z3.Function(T.fresh(I, 'sel').decl().name(), I, I)
        g = z3.Function(T.fresh(I, 'sinv').decl().name(), I, I)
        ctx.assume(sand(sle(0, cnt), sle(cnt, n)))
        ctx.assume(forall(cnt, lambda k: sand(
            f(k) >= 0, f(k) < lit(n), g(f(k)) == k, m.mask((f(k),))),
            lambda k: f(k)))
        ctx.assume(forall(n, lambda i: T.simplies(m.mask((i,)), sand(
            g(i) >= 0, g(i) < cnt, f(g(i)) == i)), lambda i: g(i)))
        k, l = T.fresh(I, 'q'), T.fresh(I, 'q')
        ctx.assume(z3.ForAll([k, l], z3.Implies(z3.And(
            0 <= k, k < l, l < cnt), f(k) < f(l)), patterns=[
                z3.MultiPattern(f(k), f(l))]))
        sel = Perm('select', f, g, cnt, m)
        for p in perms(ctx):
            if p.kind == 'select' and T.same(p.arr.mshape[0], n):
                i = T.fresh(I, 'mm')
                a, b = p.arr.mask((i,)), m.mask((i,))
                from . import solver as S
                if S.prove(ctx.facts(), T.lit(a) == z3.Not(T.lit(b)),
                           3000).ok:
                    # a selection and its complement
                    ctx.assume(seq(p.n + cnt, n))
        perms(ctx).append(sel)
    full = m.full
    return Arr((sel.n,), lambda ix: full((sel.fn(lit(ix[0])),)), m.kind)


def cle(a, b, kind):
    """the order numpy sorts by"""
    if kind == 'c':
        a, b = T.cx(a), T.cx(b)
        return sor(slt(a.re, b.re), sand(seq(a.re, b.re), sle(a.im, b.im)))
    return sle(a, b)


def permutation(ctx, a, tag):
    n = a.shape[0]
    f = z3.Function(T.fresh(I, tag).decl().name(), I, I)
    g = z3.Function(T.fresh(I, tag + '.inv').decl().name(), I, I)
    rd = a.reader()
    ctx.assume(forall(n, lambda k: sand(f(k) >= 0, f(k) < lit(n),
                                        g(f(k)) == k), lambda k: f(k)))
    ctx.assume(forall(n, lambda k: sand(g(k) >= 0, g(k) < lit(n),
                                        f(g(k)) == k), lambda k: g(k)))
    k, l = T.fresh(I, 'q'), T.fresh(I, 'q')
    ctx.assume(z3.ForAll([k, l], z3.Implies(z3.And(
        0 <= k, k <= l, l < lit(n)), T.lit(cle(rd((f(k),)), rd((f(l),)),
                                               a.kind))),
        patterns=[z3.MultiPattern(f(k), f(l))]))
    perms(ctx).append(Perm(tag, f, g, n, Arr(a.shape, rd, a.kind)))
    return f


def sort(ctx, x):
    a = explicit(ctx, x)
    f = permutation(ctx, a, 'sort')
    rd = a.reader()
    return Arr(a.shape, lambda ix: rd((f(lit(ix[0])),)), a.kind)


def argsort(ctx, x):
    a = explicit(ctx, x)
    f = permutation(ctx, a, 'argsort')
    return Arr(a.shape, lambda ix: f(lit(ix[0])), 'i')


def explicit(ctx, x):
    a = N.asarr(ctx, x)
    if isinstance(a, N.MArr):
        a = select(ctx, a)
    if a.ndim != 1:
        raise Unsupported('sorting of a matrix')
    return a


def first(ctx, n, holds, value, default):
    """next((value(i) for i in range(n) if holds(i)), *default)"""
    t, found = T.fresh(I, 'first'), T.fresh(T.B, 'found')
    if ctx.branch(found):
        ctx.assume(sand(sle(0, t), slt(t, n), T.tobool(holds(t))))
        ctx.assume(forall(t, lambda i: snot(holds(i))))
        return value(t)
    ctx.assume(forall(n, lambda i: snot(holds(i))))
    if not default:
        raise PyRaise(StopIteration, ())
    return default[0]


class Invariant:
    """to be subclassed: begin(ctx, env), facts(ctx, state) -> [(name,
    formula)], variant(state), step(ctx, before) once the body is done"""
    forget = False

    def goals(self, ctx, env):
        """the facts to prove after an iteration (by cases, if need be)"""
        return self.facts(ctx, env)

    def derive(self, ctx, env):
        """facts proved before the loop, for the proof of an iteration"""
        return []


def while_rule(make):
    """hook for opts['while']: make() gives the invariant of the loop"""
    def rule(ctx, st, env):
        inv = make()
        mods = {}
        for nd in [x for b in st.body for x in ast.walk(b)]:
            if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Store):
                old = env.vars.get(nd.id, P._MISSING)
                mods[('var', id(env), nd.id)] = ('var', env, nd.id, old)
                # in-place operators write into an array
                if isarr(old):
                    mods[('buf', id(old.buf), None)] = ('buf', old.buf, None,
                                                        old.buf.fn)
            elif isinstance(nd, ast.Subscript) and isinstance(
                    nd.ctx, ast.Store) and isinstance(nd.value, ast.Name):
                a = env.vars.get(nd.value.id)
                if isarr(a):
                    mods[('buf', id(a.buf), None)] = ('buf', a.buf, None,
                                                      a.buf.fn)
        saved = list(perms(ctx))
        inv.begin(ctx, env, mods)

        def check(when, facts=inv.facts):
            for name, c in facts(ctx, env):
                ctx.oblige('loop invariant %s: %s' % (when, name), c)
        check('at entry')
        derived = []
        for name, c in inv.derive(ctx, env):
            ctx.oblige('before the loop: %s' % name, c)
            derived.append(c)
        for c in derived:
            ctx.assume(c)
        for kd, obj, key, old in mods.values():
            if kd == 'var':
                h = ctx.havoc_val(old) if old is not P._MISSING and \
                    isscalar(old) else P._MISSING
                if old is not P._MISSING and not isscalar(old):
                    raise Unsupported('loop rebinds the array %s' % key)
                if h is P._MISSING:
                    obj.vars.pop(key, None)
                else:
                    obj.vars[key] = h
            elif kd == 'buf':
                obj.fn = havoc_buf(obj)
            else:
                raise Unsupported('loop modifies a %s' % kd)
        inv.havoc(ctx, env)
        npc = len(ctx.pc)
        for name, c in inv.facts(ctx, env):
            ctx.assume(c)
        c = T.tobool(ctx.truth(ctx.eval(st.test, env)))
        if not ctx.branch(c):
            return
        if inv.forget:
            # the iteration is proved from the derived facts only
            from .solver import has_quant
            ctx.pc[:npc] = [f for f in ctx.pc[:npc] if not has_quant(f)] + [
                T.tobool(c) for c in derived if not isinstance(c, bool)]
        v0 = inv.variant(ctx, env)
        ctx.perms = list(saved)
        known = reachable(env)
        old_log, ctx.log = ctx.log, []
        try:
            ctx.exec_block(st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            raise Unsupported('break in a loop with an invariant')
        log, ctx.log = ctx.log, old_log
        for kd, obj, key, old in log:
            if kd == 'buf' and obj not in known:
                continue        # an array made in this iteration
            if (kd, id(obj), key) not in mods and not (
                    kd == 'var' and old is P._MISSING):
                raise Unsupported('loop also modifies %s' % (key,))
        for kd, obj, key, old in mods.values():
            if kd == 'var' and old is not P._MISSING:
                new = obj.vars.get(key, P._MISSING)
                if not isscalar(new) or T.isint(new) != T.isint(old):
                    raise Unsupported('loop changes the type of %s' % key)
        inv.step(ctx, env)
        check('preserved', inv.goals)
        v1 = inv.variant(ctx, env)
        ctx.oblige('loop variant decreases and is bounded', sand(
            sge(v0, 0), slt(v1, v0)))
        raise EndPath()
    return rule


class ForInvariant:
    """to be subclassed for loops over a range that may break: the first
    `peel` iterations are executed, the others start from any state with
    facts(ctx, env, k) -> [(name, formula)], where the arrays the loop rebinds
    are bind(ctx, env, k) -> {name: value}.  With methods leave(ctx, env,
    exhausted) and after(ctx, env), what follows the loop is executed once from
    any state set up by after, which leave has to prove of each way out."""
    after = leave = None
    peel = 1

    def match(self, ctx, st, env, it):
        return True

    def bind(self, ctx, env, k):
        return {}

    def same(self, ctx, name, got, want):
        """formula: the value of a rebound variable is the stated one"""
        raise NotImplementedError


def for_rule(make):
    """hook for opts['for']: make() gives the invariant of the loop"""
    def rule(ctx, st, env, it):
        inv = make()
        if not isinstance(it, (P.SRange, range)) or \
                not inv.match(ctx, st, env, it):
            return False
        lo, hi, step = (it.start, it.stop, it.step) if isinstance(it, range) \
            else (it.lo, it.hi, it.step)
        if step != 1:
            raise Unsupported('range with a step')
        names = sorted({x.id for b in st.body for x in ast.walk(b)
                        if isinstance(x, ast.Name) and
                        isinstance(x.ctx, ast.Store)})

        def own(log, known):
            for kd, obj, key, old in log:
                if kd == 'var' and obj is env or kd == 'buf' and \
                        obj not in known:
                    continue
                raise Unsupported('loop also modifies a %s' % kd)

        def out(exhausted=False):
            if inv.after is not None:
                for log, known in logs:
                    own(log, known)
            if exhausted:
                ctx.events.append(('loop exhausted',))
                ctx.exec_block(st.orelse, env)
            if inv.after is not None:
                inv.leave(ctx, env, exhausted)
                raise EndPath()
        nev = len(ctx.events)
        if inv.after is not None and ctx.branch(T.fresh(T.B, 'after')):
            for nm in names:
                env.vars.pop(nm, None)
            inv.after(ctx, env)
            return
        inv.nev = nev
        logs = []
        if inv.after is not None:
            logs.append(([], reachable(env)))
            ctx.log = logs[0][0]
        for j in range(inv.peel):
            if not ctx.branch(T.tobool(slt(lo + j, hi))):
                ctx.exec_block(st.orelse, env)
                if inv.after is not None:
                    raise Unsupported('a loop that may be empty')
                return
            ctx.assign(st.target, T.sadd(lo, j), env)
            try:
                ctx.exec_block(st.body, env)
            except BreakSig:
                return out()
            except ContinueSig:
                pass
        k0 = T.sadd(lo, inv.peel)

        def check(when, k):
            for name, c in inv.facts(ctx, env, k):
                ctx.oblige('loop invariant %s: %s' % (when, name), c)
            for name, want in inv.bind(ctx, env, k).items():
                ctx.oblige('loop invariant %s: %s' % (when, name), inv.same(
                    ctx, name, env.vars.get(name), want))
        check('at entry', k0)
        k = T.fresh(I, 'it')
        for nm in names:
            old = env.vars.get(nm, P._MISSING)
            if isscalar(old) or isinstance(old, bool):
                env.vars[nm] = T.fresh(R, 'H') if isinstance(
                    old, T.Inf) else ctx.havoc_val(old)
            else:
                env.vars.pop(nm, None)
        env.vars.update(inv.bind(ctx, env, k))
        for name, c in inv.facts(ctx, env, k):
            ctx.assume(c)
        ctx.assume(sle(k0, k))
        ctx.assume(sor(sle(k, hi), seq(k, k0)))
        if not ctx.branch(T.tobool(slt(k, hi))):
            return out(True)
        ctx.assign(st.target, k, env)
        known = reachable(env)
        old_log, ctx.log = ctx.log, []
        logs.append((ctx.log, known))
        try:
            ctx.exec_block(st.body, env)
        except ContinueSig:
            pass
        except BreakSig:
            ctx.log = old_log
            return out()
        log, ctx.log = ctx.log, old_log
        own(log, known)
        check('preserved', T.sadd(k, 1))
        raise EndPath()
    return rule


def reachable(env):
    """buffers the program could see before an iteration"""
    out, seen = set(), set()

    def go(v, depth):
        if isarr(v):
            out.add(v.buf)
        elif isinstance(v, (list, tuple, set)) and depth < 6:
            for x in v:
                go(x, depth + 1)
        elif isinstance(v, dict) and depth < 6:
            for x in v.values():
                go(x, depth + 1)
        elif isinstance(v, P.SObj) and id(v) not in seen:
            seen.add(id(v))
            go(v.attrs, depth)
    e = env
    while e is not None:
        go(e.vars, 0)
        e = e.parent
    return out


def havoc_buf(buf):
    n = len(buf.shape)
    nm = T.fresh(I, 'H').decl().name()
    if buf.kind == 'c':
        fr = z3.Function(nm + '.re', *([I] * n + [R]))
        fi = z3.Function(nm + '.im', *([I] * n + [R]))
        return lambda ix: Cx(fr(*map(lit, ix)), fi(*map(lit, ix)))
    if buf.kind in 'fi':
        f = z3.Function(nm, *([I] * n + [R if buf.kind == 'f' else I]))
        return lambda ix: f(*map(lit, ix))
    raise Unsupported('havoc of kind %s' % buf.kind)


def forget(ctx, st, env, it):
    """hook for opts['for']: one generic iteration is executed, for its
    obligations, and nothing is kept of what the loop computes but the shapes
    and kinds of the arrays it writes to"""
    if not isinstance(it, (P.SRange, range)):
        return False
    lo, hi, step = (it.start, it.stop, it.step) if isinstance(it, range) \
        else (it.lo, it.hi, it.step)
    if not isinstance(step, int) or step < 1:
        return False
    names, written = set(), set()
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            elif isinstance(x, ast.Subscript) and isinstance(
                    x.ctx, ast.Store):
                if not isinstance(x.value, ast.Name):
                    return False
                written.add(x.value.id)
            elif isinstance(x, (ast.Break, ast.Return, ast.Global,
                                ast.Nonlocal, ast.Yield, ast.YieldFrom)):
                return False
    kept = {}
    for nm in names:
        old = env.vars.pop(nm, P._MISSING)
        if isscalar(old) and not isinstance(old, bool):
            kept[nm] = old
    bufs = set()
    for nm in written:
        a = env.vars.get(nm)
        if not isarr(a):
            raise Unsupported('loop writes to %s' % nm)
        ctx.setfn(a.buf, havoc_buf(a.buf))
        bufs.add(a.buf)
    for nm, old in kept.items():
        env.vars[nm] = ctx.havoc_val(old)
    if ctx.branch(T.fresh(T.B, 'after')):
        return
    k = T.fresh(I, 'it')
    i = T.sadd(lo, T.smul(step, k))
    ctx.assume(sand(sle(0, k), slt(i, hi)))
    ctx.assign(st.target, i, env)
    known = reachable(env)
    old_log, ctx.log = ctx.log, []
    try:
        ctx.exec_block(st.body, env)
    except ContinueSig:
        pass
    log, ctx.log = ctx.log, old_log
    for kd, obj, key, old in log:
        if kd == 'var' and obj is env or kd == 'buf' and (
                obj not in known or obj in bufs):
            continue
        raise Unsupported('loop also modifies a %s' % kd)
    raise EndPath()
