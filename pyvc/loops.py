"""Summaries of loops with a symbolic number of iterations.

Given the transfer function of one arbitrary iteration (locations -> terms over
the havocked values H and the iteration counter i) each location is resolved by
a schema whose inductive argument is checked here:

  last      T does not use any H: value of the last iteration
  constant  T == H
  write     buffer, T(idx) = If(c(idx, i), v(idx, i), H(idx)) where c pins i
  sum       T - H free of unresolved H
  product   T / H free of unresolved H
  ghost     a sequence given by the contract: initial value and step proved

A location whose T depends on the H of another location can be resolved only
after that one, with the closed form substituted."""
import z3

from . import solver as S
from . import terms as T
from .interp import (Arr, Ctx, HavocBuf, Poison, PyRaise, _MISSING, isarr,
                     kmax, cast)
from .terms import (Cx, I, R, Rz, Unsupported, isscalar, isz, ite, sadd, sand,
                    seq, sge, sle, slt, smul, snot, sor, ssub, ssum, sprod,
                    sdiv)


class Loc:
    """one scalar-valued component of a loop-carried location: a function of
    an index tuple (arity 0 for scalars)"""
    def __init__(self, key, arity, shape, init, hav, final, cls):
        self.key = key
        self.arity = arity
        self.shape = shape
        self.init = init        # idx -> term
        self.hav = hav          # idx -> term  (uninterpreted application)
        self.final = final      # idx -> term
        self.cls = cls          # 'r', 'i', 'b', 'z'
        self.closed = None      # (i, idx) -> term : value before iteration i
        self.how = None
        probe = hav(tuple(T.fresh(I, 'ix') for _ in range(arity)))
        e = probe
        self.hdecl = e.decl()
        self.hid = e.decl().get_id()


def parts(v):
    """scalar components of a value: [(name, getter)]"""
    if isinstance(v, Cx):
        return [('re', lambda x: T.real(x.re if isinstance(x, Cx) else x)),
                ('im', lambda x: T.real(x.im if isinstance(x, Cx) else 0))]
    if isinstance(v, Rz):
        return [('z', lambda x: T.rz(x).e)]
    if isz(v) and v.sort() == T.B:
        return [('b', lambda x: T.lit(T.tobool(x)))]
    if isz(v) and v.sort() == I:
        return [('i', lambda x: T.lit(x))]
    return [('r', lambda x: T.real(x))]


def decls_in(e):
    if not isz(e):
        return set()
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().get_id())
        st.extend(x.children())
    return out


def subst_fn(e, decl, arity, repl):
    """replace applications decl(args) by repl(args)"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(x):
            if decl.get_id() in decls_in(x):
                vs = [z3.Const(T.fresh(x.var_sort(j), 'bv').decl().name(),
                               x.var_sort(j)) for j in range(x.num_vars())]
                b = z3.substitute_vars(x.body(), *reversed(vs))
                b = go(b)
                if x.is_lambda():
                    d = T._depth(b)
                    kk = z3.Int('k!%d' % d)
                    b = z3.substitute(b, (vs[0], kk))
                    r = z3.Lambda([kk], b)
                elif x.is_forall():
                    r = z3.ForAll(vs, b)
                else:
                    r = z3.Exists(vs, b)
            else:
                r = x
        elif z3.is_app(x) and x.decl().eq(decl):
            args = [go(c) for c in x.children()]
            r = repl(tuple(T.unlit(a) for a in args))
            r = _tosort(r, x.sort())
        elif not x.children():
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = rebuild(x, ch)
        memo[k] = (x, r)       # x kept alive: its id must not be reused
        return r
    return go(e) if isz(e) else e


def _tosort(r, s):
    if s == R:
        if isinstance(r, Rz):
            return r.e
        return T.real(r)
    return T.lit(r)


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return x.decl()(*ch)


def expand(kind, key, init, hav, final, facts=()):
    """Loc list of one modified location, or None when it has no usable
    initial value (a temporary of the body)"""
    locs = []

    def add(tag, arity, shape, i, h, f):
        probe = h(tuple(T.fresh(I, 'ix') for _ in range(arity)))
        for nm, g in parts(probe):
            locs.append(Loc((key, tag, nm), arity, shape,
                            lambda idx, i=i, g=g: g(i(idx)),
                            lambda idx, h=h, g=g: g(h(idx)),
                            lambda idx, f=f, g=g: g(f(idx)), nm))

    def walk(tag, i, h, f):
        if isscalar(h):
            if h is not None and isinstance(h, (int, float)):
                return i is h
            if not isscalar(f):
                return False
            add(tag, 0, (), lambda idx: i, lambda idx: h, lambda idx: f)
            return True
        if isarr(h) and hasattr(h, 'hav'):
            if not isarr(f) or f.ndim != h.ndim:
                return False
            for a, b in zip(f.shape, h.shape):
                if not (a is b or T.same(a, b)) and not S.prove(
                        facts, seq(a, b), 4000).ok:
                    raise Unsupported('array of varying shape in a loop')
            ri, rh, rf = i.reader(), h.hav.fn, f.reader()
            add(tag, h.ndim, h.shape, ri, rh, rf)
            return True
        if isinstance(h, tuple):
            if not isinstance(f, tuple) or len(f) != len(h):
                return False
            return all([walk(tag + (j,), a, b, c)
                        for j, (a, b, c) in enumerate(zip(i, h, f))])
        return h is f or (type(h) == type(f) and not isz(h) and
                          not isarr(h) and _eqsafe(h, f))
    if kind == 'buf':
        return locs, add, walk
    return locs, add, walk


def _eqsafe(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def summarise(ctx, st, env, n, i, facts_i, mods, finals):
    locs = []
    byloc = {}
    temps = []
    for k, (kind, obj, key, init, hav) in mods.items():
        final = finals[k]
        ls, add, walk = expand(kind, k, init, hav, final,
                               ctx.facts() + list(facts_i))
        if kind == 'buf':
            add((), len(obj.shape), obj.shape, init, hav, final)
            ok = True
        elif hav is _MISSING or isinstance(hav, Poison) or isinstance(
                final, Poison) or final is _MISSING:
            ok = False
        else:
            ok = walk((), init, hav, final)
        if not ok:
            temps.append(k)
        else:
            locs.extend(ls)
            byloc[k] = ls
    unresolved = {l.hid: l for l in locs}
    facts = ctx.facts() + list(facts_i)
    hyp_ctx = facts
    # transfer functions at generic indices
    for l in locs:
        l.ix = tuple(T.fresh(I, 'ix') for _ in range(l.arity))
        l.t = l.final(l.ix)
        l.h = l.hav(l.ix)
        l.dom = [sand(sle(0, x), slt(x, d)) for x, d in zip(l.ix, l.shape)
                 if d is not None]
    # shapes of array-valued variables must be stable (checked by Poison);
    progress = True
    while unresolved and progress:
        progress = False
        for l in list(unresolved.values()):
            if try_resolve(ctx, l, unresolved, n, i, hyp_ctx):
                del unresolved[l.hid]
                for o in unresolved.values():
                    o.t = substitute_closed(o.t, l, i)
                progress = True
                break
        if not progress:
            if ghosts(ctx, unresolved, n, i, hyp_ctx, locs):
                progress = True
    if unresolved:
        import os
        if os.environ.get('PYVC_DEBUG'):
            for l in unresolved.values():
                print('UNRESOLVED', l.key, l.ix, l.t)
        raise Unsupported('loop invariant not found for %s' % ', '.join(
            str(l.key[0][2] or l.key[0][0]) for l in unresolved.values()))
    # final state
    nn = T.lit(n)
    for k, (kind, obj, key, init, hav) in mods.items():
        ctx.note(kind, obj, key, ctx._current(kind, obj, key))
        if k in temps:
            fin = finals[k]
            if kind == 'var':
                v = last_value(ctx, fin, locs, n, i)
                ctx._restore(kind, obj, key, v)
                continue
            raise Unsupported('loop temporary')
        ls = byloc[k]
        it = iter(ls)

        def val(idx, ls=ls):
            vs = {l.key[2]: l.closed(n, idx) for l in ls}
            return pack(vs)
        if kind == 'buf':
            ctx._restore(kind, obj, key, memo(val))
        else:
            ctx._restore(kind, obj, key, rebuild_val(ls, init, hav, n))


def memo(fn):
    from .npmodel import memo_fn
    return memo_fn(fn)


def pack(vs):
    if 're' in vs:
        return Cx(vs['re'], vs['im'])
    if 'z' in vs:
        return Rz(T.real(vs['z']))
    return list(vs.values())[0]


def rebuild_val(ls, init, hav, n):
    def go(tag, h):
        mine = [l for l in ls if l.key[1] == tag]
        if isscalar(h) and mine:
            return pack({l.key[2]: l.closed(n, ()) for l in mine})
        if isarr(h) and mine:
            return Arr(h.shape, memo(lambda idx: pack(
                {l.key[2]: l.closed(n, idx) for l in mine})), h.kind)
        if isinstance(h, tuple):
            return tuple(go(tag + (j,), x) for j, x in enumerate(h))
        return h
    return go((), hav)


def last_value(ctx, v, locs, n, i):
    """value of a body temporary after the loop (at least one iteration)"""
    last = T.lit(ssub(n, 1))

    def scal(x):
        if isz(x):
            for l in locs:
                x = substitute_closed(x, l, i)
            return z3.substitute(x, (i, last))
        if isinstance(x, Cx):
            return Cx(scal(x.re), scal(x.im))
        if isinstance(x, Rz):
            return Rz(scal(x.e))
        return x
    if isscalar(v):
        return scal(v)
    if isarr(v):
        rd = v.reader()
        shp = [scal(d) for d in v.shape]
        return Arr(shp, memo(lambda idx: scal(rd(idx))), v.kind)
    if isinstance(v, tuple):
        return tuple(last_value(ctx, x, locs, n, i) for x in v)
    if v is None or isinstance(v, (str, bool)):
        return v
    return Poison('loop temporary used after the loop')


def substitute_closed(e, l, i):
    if not isz(e) or l.hid not in decls_in(e):
        return e
    return subst_fn(e, l.hdecl, l.arity, lambda idx: l.closed(i, idx))


def inst(e, l, i, iv, idx):
    """e at iteration iv, index idx"""
    if not isz(e):
        return e
    sub = [(i, T.lit(iv))] + [(a, T.lit(b)) for a, b in zip(l.ix, idx)]
    return z3.substitute(e, *sub)


def others(e, unresolved, l):
    d = decls_in(e)
    return [h for h in unresolved if h in d]


def try_resolve(ctx, l, unresolved, n, i, facts):
    t = l.t
    if not isz(t):
        t = T.lit(t) if l.cls in 'bi' else T.real(t)
    t = ctx_ite(T.simp_ite(t))
    facts = facts + l.dom
    dep = others(t, unresolved, l)
    # last
    if not dep:
        l.how = 'last'
        l.closed = lambda iv, idx: ite(
            sle(iv, 0), l.init(idx), inst(t, l, i, ssub(iv, 1), idx))
        return True
    # constant
    if t.eq(l.h):
        l.how = 'constant'
        l.closed = lambda iv, idx: l.init(idx)
        return True
    if dep != [l.hid]:
        # writes may have values depending on others: not yet
        return False
    # pointwise write: cell ix changes in iteration j(ix) only, so the value it
    # has before is the initial one
    w = as_write(t, l)
    if w is not None:
        c, v = w
        p = pin(c, i, l, facts)
        if p is not None:
            j, rest = p        # c  <=>  i == j(ix) and rest
            at = lambda e: z3.substitute(e, (i, j)) if isz(e) else e
            rest, v_ = at(rest), at(v)
            if not isz(rest):
                rest = T.lit(rest)
            rest, v_ = reindex(rest, l, rest), reindex(v_, l, rest)
            if not T.mentions(T.lit(j), i) and own_only(rest, l) and \
                    own_only(v_, l) and l.hid not in decls_in(j):
                l.how = 'write'
                uses = l.hid in decls_in(rest) or l.hid in decls_in(v_)

                def put(e, idx):
                    if uses:
                        e = subst_fn(e, l.hdecl, l.arity,
                                     lambda ii: l.init(l.ix))
                    return z3.substitute(e, *[(a, T.lit(b)) for a, b in zip(
                        l.ix, idx)]) if l.ix else e

                def closed(iv, idx):
                    jj = T.unlit(z3.simplify(put(T.lit(j), idx)))
                    cond = sand(sle(0, jj), slt(jj, iv),
                                T.unlit(put(rest, idx)))
                    if cond is False:
                        return l.init(idx)
                    return ite(cond, put(v_, idx), l.init(idx))
                l.closed = closed
                return True
    # uses of its own H only at the same index?
    if not own_only(t, l):
        return False
    if l.cls == 'b':
        return False
    if w is not None and l.hid not in decls_in(w[0]) and \
            l.hid not in decls_in(w[1]):
        c, v = w
        # condition independent of i: like a conditional last value
        if i.get_id() not in T.free_consts(c) and not others(
                v, unresolved, l):
            l.how = 'last'
            l.closed = lambda iv, idx: ite(
                sand(sle(1, iv), inst(c, l, i, 0, idx)),
                inst(v, l, i, ssub(iv, 1), idx), l.init(idx))
            return True
    if l.cls in ('r', 'i', 'z', 're', 'im'):
        h = l.h
        # sum
        d = T.simp_ite(push_sub(t, h))
        try:
            p = T.nf(d)
        except T.Unsupported:
            return False
        de = T.poly_expr(p)
        if l.hid not in decls_in(de):
            if l.cls == 'i':
                de = T.toint(de)
            l.how = 'sum'
            l.closed = lambda iv, idx: _cl(l, sadd(l.init(idx), ssum(
                0, iv, lambda j: inst(de, l, i, j, idx), ctx.decide)))
            return True
        # product
        q = z3.substitute(t, (h, z3.RealVal(1))) if l.cls != 'i' else None
        if q is not None and l.hid not in decls_in(q):
            S_ = S.prove_eq(facts, t, h * q, 0, 4000, formal=(l.cls == 'z'))
            if S_.ok:
                l.how = 'product'
                l.closed = lambda iv, idx: _cl(l, smul(l.init(idx), sprod(
                    0, iv, lambda j: inst(q, l, i, j, idx), ctx.decide)))
                return True
    return False


def _cl(l, v):
    if l.cls == 'i':
        return T.lit(v)
    return T.real(v) if not isinstance(v, Rz) else v.e


def push_sub(t, h):
    """t - h with the subtraction pushed into ITEs"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), push_sub(t.arg(1), h), push_sub(t.arg(2), h))
    if t.eq(h):
        return z3.RealVal(0) if t.sort() == R else z3.IntVal(0)
    return t - h


def reindex(e, l, rest):
    """arguments of l's H that equal l.ix as polynomials (under the equations
    for l.ix in rest), rewritten to l.ix"""
    eqs = []
    for c in conjuncts(rest):
        if z3.is_eq(c):
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if any(a.eq(x) for x in l.ix) and l.hid not in decls_in(b):
                    eqs.append((a, b))

    def f(idx):
        def z(a, b):
            a, b = z3.substitute(T.lit(a), eqs), z3.substitute(T.lit(b), eqs)
            return T.nf(a - b) == {}
        ok = all(a is b or z(a, b) for a, b in zip(idx, l.ix))
        return l.h if ok else l.hdecl(*[T.lit(a) for a in idx])
    return subst_fn(e, l.hdecl, l.arity, f) if l.hid in decls_in(e) else e


def own_only(t, l):
    """every application of l's H is exactly at l.ix"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if l.hid in decls_in(x):
                return False
            continue
        if z3.is_app(x) and x.decl().eq(l.hdecl):
            if not x.eq(l.h):
                return False
            continue
        st.extend(x.children())
    return True


def as_write(t, l):
    """t = If(c, v, H) with as much of the conditions as possible in c"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = t.arg(0), t.arg(1), t.arg(2)
    if b.eq(l.h):
        w = as_write(a, l)
        if w:
            return T.lit(sand(c, w[0])), w[1]
        return None if a.eq(l.h) else (c, a)
    nc = T.lit(snot(c))
    if a.eq(l.h):
        w = as_write(b, l)
        if w:
            return T.lit(sand(nc, w[0])), w[1]
        return nc, b
    ha, hb = l.hid in decls_in(a), l.hid in decls_in(b)
    if not ha and not hb:
        return None
    wa = as_write(a, l) if ha else None
    wb = as_write(b, l) if hb else None
    if not ha and wb:
        return z3.Or(c, wb[0]), z3.If(c, a, wb[1])
    if not hb and wa:
        return z3.Or(nc, wa[0]), z3.If(c, wa[1], b)
    if wa and wb:
        ca, cb = conjuncts(wa[0]), conjuncts(wb[0])
        com = [x for x in ca if any(x.eq(y) for y in cb)]
        ra = [x for x in ca if not any(x.eq(y) for y in com)]
        rb = [x for x in cb if not any(x.eq(y) for y in com)]
        if ra or rb:
            com.append(z3.If(c, T.lit(sand(*ra)), T.lit(sand(*rb))))
        return T.lit(sand(*com)), z3.If(c, wa[1], wb[1])
    return None


def ctx_ite(t, depth=0):
    """simplify the branches of nested ITEs by the conditions around them"""
    if depth > 12 or not (z3.is_app(t) and t.decl().kind() ==
                          z3.Z3_OP_ITE):
        return t
    c, a, b = t.arg(0), t.arg(1), t.arg(2)
    for x in conjuncts(c):
        a = assume(a, x, True)
    if a.eq(b):
        return ctx_ite(a, depth)
    for x in disjuncts(c):
        b = assume(b, x, False)
    a, b = ctx_ite(a, depth + 1), ctx_ite(b, depth + 1)
    return a if a.eq(b) else z3.If(c, a, b)


def assume(e, x, val):
    if z3.is_not(x):
        x, val = x.arg(0), not val
    return T.assume_in(e, x, val)


def disjuncts(c):
    if z3.is_or(c):
        out = []
        for x in c.children():
            out.extend(disjuncts(x))
        return out
    if z3.is_not(c) and z3.is_and(c.arg(0)):
        return [T.lit(snot(x)) for x in conjuncts(c.arg(0))]
    return [c]


def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out.extend(conjuncts(x))
        return out
    return [c]


def pin(c, i, l, facts):
    """c  <=>  i == j and rest"""
    cs = conjuncts(c)
    for x in cs:
        if z3.is_eq(x) and x.arg(0).sort() == I:
            d = T.nf(x.arg(0) - x.arg(1))
            a = T._atom(i)
            co = d.get(((a, 1),), 0)
            if abs(co) == 1 and all(
                    m == ((a, 1),) or not T.mentions(T.poly_expr({m: 1}), i)
                    for m in d):
                rest = {m: -v / co for m, v in d.items() if m != ((a, 1),)}
                j = T.toint(T.poly_expr(rest))
                return j, sand(*[y for y in cs if not y.eq(x)])
    return block(cs, i)


def block(cs, i):
    """b + s i <= x < b + s i + w, 0 < w <= s:  i == (x - b) div s and
    (x - b) mod s < w"""
    a = T._atom(i)
    lows, ups = [], []
    for x in cs:
        neg = z3.is_not(x)
        q = x.arg(0) if neg else x
        if not z3.is_app(q) or q.num_args() != 2 or q.arg(0).sort() != I:
            continue
        k = q.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            d, strict = q.arg(1) - q.arg(0), k == z3.Z3_OP_LT
        elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            d, strict = q.arg(0) - q.arg(1), k == z3.Z3_OP_GT
        else:
            continue
        if neg:
            d, strict = -d, not strict
        if strict:
            d = d - 1               # d >= 0
        p = T.nf(d)
        co = p.get(((a, 1),), 0)
        if co == 0 or any(m != ((a, 1),) and T.mentions(
                T.poly_expr({m: 1}), i) for m in p):
            continue
        (lows if co < 0 else ups).append((x, p, co))
    for x, p, co in lows:
        for y, q, cq in ups:
            if co != -cq or co != int(co):
                continue
            w = T.padd(p, q)
            if any(m != () for m in w):
                continue
            w, st = w.get((), 0) + 1, int(cq)
            if not 0 < w <= st or w != int(w):
                continue
            e = T.toint(T.poly_expr({m: v for m, v in p.items()
                                     if m != ((a, 1),)}))
            return e / st, sand(e % st < int(w), *[
                z for z in cs if not z.eq(x) and not z.eq(y)])
    return None


class Ghost:
    """a sequence defined by the contract: at(0, idx) = init(idx),
    at(i + 1, idx) = step(i, idx) (step in terms of at(i, .) of this and other
    ghosts)"""
    def __init__(self, name, arity, init, at, step):
        self.name, self.arity = name, arity
        self.init, self.at, self.step = init, at, step


def settle(t, facts):
    """decide the ITE conditions of t that follow from the facts"""
    for _ in range(40):
        t = ctx_ite(T.simp_ite(t))
        done = True
        for c in S.ite_conds(t):
            if decls_bound(c):
                continue
            d = S.decide(facts, c)
            if d is not None:
                t = T.assume_in(t, c, d)
                done = False
                break
        if done:
            break
    return t


def decls_bound(c):
    st = [c]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


def ghosts(ctx, unresolved, n, i, facts, locs):
    """assign to each unresolved location a ghost of the contract such that the
    initial values agree and every step is provable (assume all candidates,
    drop those that fail)"""
    gs = [g() if callable(g) else g for g in ctx.ghosts]
    if not gs:
        return False
    cand = {}
    for hid, l in unresolved.items():
        if l.cls not in ('r', 're'):
            continue
        for g in gs:
            if g.arity != l.arity:
                continue
            try:
                r = S.prove_eq(facts + l.dom, T.real(l.init(l.ix)),
                               T.real(g.init(l.ix)), 0, 5000)
            except Unsupported:
                continue
            if r.ok:
                cand.setdefault(hid, []).append(g)
    assign = {h: c[0] for h, c in cand.items()}
    while assign:
        bad = None
        for hid, g in assign.items():
            l = unresolved[hid]
            t = settle(T.real(l.t), facts + l.dom)
            for h2, g2 in assign.items():
                l2 = unresolved[h2]
                t = subst_fn(t, l2.hdecl, l2.arity,
                             lambda idx, g2=g2: g2.at(i, idx))
            rest = {h: 1 for h in unresolved if h not in assign}
            if others(t, rest, l):
                why = 'depends on another location'
                bad = hid
                break
            r = S.prove_eq(facts + l.dom, t, T.real(g.step(i, l.ix)), 0,
                           15000)
            if not r.ok:
                why = r
                bad = hid
                break
        if bad is None:
            break
        import os
        if os.environ.get('PYVC_DEBUG'):
            print('GHOST', assign[bad].name, unresolved[bad].key, why, '\n',
                  t, '\n', T.real(g.step(i, l.ix)))
        cand[bad] = [c for c in cand[bad] if c is not assign[bad]]
        if cand[bad]:
            assign[bad] = cand[bad][0]
        else:
            del assign[bad]
    for hid, g in assign.items():
        l = unresolved.pop(hid)
        l.how = 'ghost ' + g.name
        l.closed = lambda iv, idx, g=g: g.at(iv, idx)
        for o in unresolved.values():
            o.t = substitute_closed(o.t, l, i)
    return bool(assign)
