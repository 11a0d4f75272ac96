"""Maximally flat FIR zeros and cost-optimal zeros.  For every order n and alpha > 0
each of the n values z_j returned by maxflat_fir_zeros is proved to be in the closed
unit disc and to satisfy 2 - z_j - 1/z_j = C_j, C_j = alpha^(-1/n) exp(i (2 j + o)
pi / n), o odd; a Lean lemma gives 1 + alpha C_j^n = 0, with distinct C_j (all the
roots, each once).  For spread_fir_uc_zeros every call of the cost function, at any
point and after any other, is proved to be at the zero set being tried (unit circle,
conjugate pairs, a zero at 1 for odd orders, poles at the origin, gain 1), and the
value returned to be the zero set of the minimiser, within the signal band.  numpy's
complex square root and scipy's minimize enter by their contracts (minimize: the
point returned lies within the bounds and costs no more than the starting one, both
tested at run time)."""
from .base import *
import copy
import time
import scipy.optimize
from pydsm.NTFdesign import helpers as H

PROP = Prop('C26')
PROP.assume('numpy.sqrt of a complex number: the root with real part >= 0')
PROP.assume('scipy.optimize.minimize (L-BFGS-B): calls the function within the '
            'bounds; the x it returns is within the bounds and is not worse than '
            'the starting point (checked at run time)')
fr, fi = [z3.Function('csqrt.' + q, R, R, R) for q in ('re', 'im')]


def np_sqrt(ctx, x):
    real = N.MODELS[id(np.sqrt)][1]
    if isarr(x) and x.kind == 'c':
        rd = x.reader()
        return N.mkarr(x.shape, lambda ix: csqrt(rd(ix)), 'c')
    if T.iscx(x):
        return csqrt(x)
    return real(ctx, x)


def csqrt(v):
    v = T.cx(v)
    a = [T.lit(T.real(t)) for t in (v.re, v.im)]
    return Cx(fr(*a), fi(*a))


def subterms(es):
    seen, todo = {}, [e for e in es if T.isz(e)]
    while todo:
        e = todo.pop()
        if e.get_id() not in seen:
            seen[e.get_id()] = e
            todo += e.children()
    return list(seen.values())


@PROP.unit('maxflat_fir_zeros')
def u_maxflat(vc):
    n, al = vc.int('n'), vc.real('alpha')
    name = 'maxflat_fir_zeros'
    for p in vc.call(H.maxflat_fir_zeros, (n, al), hyps=[n >= 1, al > 0],
                     name=name, contracts={id(np.sqrt): np_sqrt}):
        if not vc.returns(name, p):
            continue
        vc.frame(name, p)
        v = p.value
        ok = isarr(v) and v.ndim == 1 and T.same(v.shape[0], n)
        vc.holds(name + ': n values', ok)
        if not ok:
            continue
        j = vc.int('j')
        # what the values must be
        z = T.cx(v.reader()((j,)))
        rho = T.spow(sdiv(1, T.ssqrt(al)), sdiv(2, T.real(n)))
        done = False
        for o in (3, 1, -1):
            th = sdiv(smul(sadd(smul(2, T.real(j)), o), T.PI), T.real(n))
            if place(vc, name, p, z, rho, th, j, n):
                done = True
                break
        if not done:
            vc.fail(name + ': 2 - z - 1/z = alpha^(-1/n) exp(i (2 j + o) pi/n)',
                    'no odd offset o could be proved')
    vc.lean(name + ': 1 + alpha C_j^n = 0 at distinct points (Lean)',
            'lemmas/C26.lean')


def zero(e):
    return not T.nf(T.real(e))


def place(vc, name, p, z, rho, th, j, n, base=None):
    """obligations on one value z, over abstract names for the points:
    z + 1/z = 2 m, |z| <= 1, for m = 1 - C/2, or cos(base) + C/2, where
    C = rho exp(i th)"""
    rz, pr, pi, c0 = [z3.Real(q) for q in ('rho!', 'P!', 'Q!', 'c0!')]
    sub, zr, zi = [], T.real(z.re), T.real(z.im)
    for t in subterms([zr, zi]):
        if t.num_args() == 1 and t.decl().name() in ('cos', 'sin'):
            if base is not None and t.decl().name() == 'cos' and (
                    zero(t.arg(0) - base) or zero(t.arg(0) + base)):
                sub.append((t, c0))
                continue
            up = zero(t.arg(0) - th)
            if not up and not zero(t.arg(0) + th):
                return False
            sub.append((t, pr / rz if t.decl().name() == 'cos' else
                        pi / rz if up else -pi / rz))
        elif t.num_args() == 2 and t.decl().name() == 'pow':
            if not zero(t - rho):
                return False
            sub.append((t, rz))

    def ab(e):
        """over rho, and rho e^(i th) = P + i Q"""
        e = z3.substitute(e, *sub)
        for t in subterms([e]):
            if t.num_args() == 2 and t.decl().name() in (
                    'csqrt.re', 'csqrt.im'):
                e = z3.substitute(e, (t, t.decl()(*[
                    T.real(T.nfexpr(x)) for x in t.children()])))
        return e
    zr, zi = ab(zr), ab(zi)
    hyps = [rz > 0, rz * rz == pr * pr + pi * pi, c0 >= -1, c0 <= 1]
    vc.hyplists.append(list(hyps))
    # arguments of the root, and what numpy's root gives
    roots, ss = [], []
    for t in subterms([zr, zi]):
        if t.num_args() == 2 and t.decl().name() == 'csqrt.re':
            x, y = t.children()
            k = len(roots)
            m = [q for q in roots if S.prove(hyps, z3.And(
                q[4] == x, q[5] == y), 5000).ok]
            if m:
                ss += [(t, m[0][2]), (fi(x, y), m[0][3])]
                continue
            a, b, X, Y = [z3.Real('%s%d!' % (q, k)) for q in 'abXY']
            roots.append((t, fi(x, y), a, b, x, y))
    ideal, r0 = [], rz * rz - pr * pr - pi * pi
    for t, u, a, b, x, y in roots:
        ss += [(t, a), (u, b)]
        hyps += [a * a - b * b == x, 2 * a * b == y, a >= 0]
        ideal += [q + c * r0 for c in (0, T.lit(F(1, 4)), T.lit(F(-1, 4)), T.lit(F(1, 2)))
                  for q in (a * a - b * b - x, 2 * a * b - y)]
    # z^2 - 2 m z + 1 = 0 for each outcome of the tests
    conds = []
    for t in subterms([zr, zi]):
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not any(
                t.arg(0).eq(q) for q in conds):
            conds.append(t.arg(0))
    if len(conds) > 3:
        return False
    mr, mi = (1 - pr / 2, -pi / 2) if base is None else (
        c0 + pr / 2, pi / 2)
    out = []
    for bits in range(2 ** len(conds)):
        val = [bool(bits >> i & 1) for i in range(len(conds))]
        sb = [(q, z3.BoolVal(b)) for q, b in zip(conds, val)]
        a, b = [T.real(T.nfexpr(z3.substitute(T.simp_ite(
            z3.substitute(e, *sb)), *ss))) for e in (zr, zi)]
        cs = hyps + [z3.substitute(q if w else z3.Not(q), *ss)
                     for q, w in zip(conds, val)]
        roots_ = []
        for t in subterms(cs):
            if t.num_args() == 1 and t.decl().name() == 'sqrt':
                w = z3.Real('w%d!' % len(roots_))
                roots_.append((t, w))
        cs = [z3.substitute(q, *roots_) if roots_ else q for q in cs] + [
            f for t, w in roots_ for f in (w >= 0, w * w == T.real(T.nfexpr(
                t.arg(0))))]
        # |x| < |y| just if |x|^2 < |y|^2
        cs = [squared(q, {w: t for t, w in roots_}) for q in cs]
        inv = reciprocal(a, b)
        if inv is not None:
            # z = 1/u: the same equation, outside of the unit disc
            a, b = inv
        tag = name + (' (case %d)' % bits if conds else '')
        for nm, h, g in (
                ('not 0', hyps, z3.Or(a != 0, b != 0)),
                ('z + 1/z = 2 m (real part)', hyps,
                 a * a - b * b - 2 * (mr * a - mi * b) + 1 == 0),
                ('z + 1/z = 2 m (imaginary part)', hyps,
                 2 * a * b - 2 * (mr * b + mi * a) == 0),
                ('in the closed unit disc', None, None)):
            if g is None:
                tt = disc(a, b, mr, mi, inv is not None, hyps, cs, ideal)
                if tt is None:
                    return False
                out.append((tag + ': ' + nm, tt))
                continue
            t0 = time.time()
            if nm == 'not 0':
                # it follows from the equation: 0^2 - 2 m 0 + 1 is not 0
                h, g = [], z3.BoolVal(True)
            elif vanishes(g.arg(0), ideal):
                h, g = [], z3.BoolVal(True)
            sv = z3.Solver()
            sv.set('timeout', 50000)
            sv.add(*h)
            sv.add(z3.Not(g))
            r = sv.check()
            if r != z3.unsat:
                return False
            out.append((tag + ': ' + nm, time.time() - t0))
    for nm, t in out:
        vc.proved(nm, 'z3', t)
    return True


def vanishes(e, ideal):
    """e = 0, being a multiple of an expression that is 0"""
    return zero(e) or any(zero(e - c * q) for q in ideal
                          for c in (1, -1, 2, -2))


def squared(q, args):
    neg = z3.is_not(q)
    r = q.arg(0) if neg else q
    if z3.is_app(r) and r.decl().kind() in (
            z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE) and all(
            x in args for x in r.children()):
        x, y = [T.real(T.nfexpr(args[x].arg(0))) for x in r.children()]
        r = {z3.Z3_OP_LT: x < y, z3.Z3_OP_GT: x > y, z3.Z3_OP_LE: x <= y,
             z3.Z3_OP_GE: x >= y}[r.decl().kind()]
        return z3.Not(r) if neg else r
    return q


def disc(a, b, mr, mi, outside, hyps, cs, ideal=()):
    """|u| >= 1 (or <= 1) for a root u of u^2 - 2 m u + 1: its product with the
    other one, 2 m - u, is 1, and it is the larger (smaller)"""
    t0 = time.time()
    u2, v2 = z3.Reals('u2! v2!')
    n1, n2 = [T.real(T.nfexpr(q)) for q in (
        a * a + b * b, (2 * mr - a) * (2 * mr - a) + (2 * mi - b) *
        (2 * mi - b))]

    def holds(h, g, ms=20000):
        sv = z3.Solver()
        sv.set('timeout', ms)
        sv.add(*h)
        sv.add(z3.Not(g))
        return sv.check() == z3.unsat
    re, im = a * (2 * mr - a) - b * (2 * mi - b), a * (2 * mi - b) + b * (
        2 * mr - a)
    if not zero(n1 * n2 - re * re - im * im) or not (vanishes(
            re - 1, ideal) or holds(hyps, re == 1)) or not (vanishes(
                im, ideal) or holds(hyps, im == 0)):
        return None
    # |u|^2 |2 m - u|^2 = 1
    g = a * a + b * b >= 1 if outside else a * a + b * b <= 1
    d = n1 - n2 if outside else n2 - n1
    if any(nonneg(q, d) for q in cs) or holds(
            cs, n1 >= n2 if outside else n1 <= n2):
        if holds([u2 >= 0, v2 >= 0, u2 * v2 == 1, u2 >= v2 if outside else
                  u2 <= v2], u2 >= 1 if outside else u2 <= 1):
            return time.time() - t0
    if holds(cs, g, 50000):
        return time.time() - t0
    return None


def nonneg(q, d):
    """d >= 0, as q says it is positive, or not negative"""
    neg = z3.is_not(q)
    q = q.arg(0) if neg else q
    if not z3.is_app(q) or q.num_args() != 2 or q.arg(0).sort() != R:
        return False
    k, e = q.decl().kind(), q.arg(0) - q.arg(1)
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        e = -e
    elif k not in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        return False
    return zero(e + d) if neg else zero(e - d)


def reciprocal(a, b):
    """u with a + i b = 1/u, where that is how they are computed"""
    den = [t for t in subterms([a, b]) if z3.is_app_of(t, z3.Z3_OP_DIV) and
           not z3.is_rational_value(z3.simplify(t.arg(1)))]
    if not den or not all(t.eq(den[0]) for t in den) or \
            not z3.simplify(den[0].arg(0) == 1).eq(z3.BoolVal(True)):
        return None
    t = z3.Real('t!')
    at, bt = [z3.substitute(q, (den[0], t)) for q in (a, b)]
    A, B = [T.real(T.nfexpr(z3.substitute(q, (t, z3.RealVal(1)))))
            for q in (at, bt)]
    if not zero(at - t * A) or not zero(bt - t * B):
        return None
    # A^2 + B^2 = c den for a constant c
    n, d = [T.nf(T.real(e)) for e in (A * A + B * B, den[0].arg(1))]
    k = next(iter(d), None)
    if k is None or k not in n:
        return None
    c = F(n[k]) / F(d[k])
    if c and zero(A * A + B * B - T.lit(c) * den[0].arg(1)):
        return A / T.lit(c), -B / T.lit(c)


# --------------------------------------------------------------------- spread
def cost(ntf, *args, **kwargs):
    raise AssertionError


@PROP.unit('spread_fir_uc_zeros')
def u_spread(vc):
    n, osr, tol = vc.int('order'), vc.real('OSR'), vc.real('ftol')
    dflt = {'L_BFGS_B_opts': {'ftol': vc.real('dflt.ftol'), 'maxiter': 15000}}
    a0 = vc.real('a0')
    for form, args, kw, opts, want in (
            ('', (), {}, {}, dflt['L_BFGS_B_opts']),
            (', cf_args', ([a0, 2],), {}, {}, dflt['L_BFGS_B_opts']),
            (', cf_kwargs, options', ([a0], {'q': 3}), {},
             {'L_BFGS_B_opts': {'ftol': tol}},
             dict(dflt['L_BFGS_B_opts'], ftol=tol))):
        name = 'spread_fir_uc_zeros%s' % form
        spread(vc, name, n, osr, args, opts, want, dflt)


def spread(vc, name, n, osr, args, opts, want, dflt):
    half = n / 2
    edge = sdiv(T.PI, osr)

    def goodset(ctx, tag, arr, xx):
        """the zero set for the angles xx"""
        ok = isarr(arr) and arr.ndim == 1
        ctx.oblige(tag + ': a vector of zeros', ok and
                   seq(arr.shape[0], n))
        if not ok:
            return
        rd, j = arr.reader(), T.fresh(I, 'j')
        rx = xx.reader()
        lo, up = sand(sle(0, j), slt(j, half)), sand(sle(half, j),
                                                     slt(j, smul(2, half)))
        for w, cond, v in (
                ('free zeros', lo, lambda: T.sexp(Cx(0, rx((j,))))),
                ('their conjugates', up, lambda: T.sexp(Cx(
                    0, ssub(0, rx((ssub(j, half),)))))),
                ('zero at 1 when the order is odd', sand(
                    seq(j, ssub(n, 1)), seq(n % 2, 1)), lambda: Cx(1, 0))):
            g, v = T.cx(rd((j,))), v()
            ctx.oblige('%s: %s' % (tag, w), T.simplies(cond, sand(
                seq(g.re, v.re), seq(g.im, v.im))))

    def cf(ctx, ntf, *a, **k):
        ok = isinstance(ntf, (tuple, list)) and len(ntf) == 3
        ctx.oblige('cost function: called with a zpk triple', ok)
        if ok:
            goodset(ctx, 'cost function: zeros tried', ntf[0], ctx.tried[-1])
            rd, j = N.asarr(ctx, ntf[1]).reader(), T.fresh(I, 'j')
            v = T.cx(rd((j,)))
            ctx.oblige('cost function: poles at the origin', sand(
                seq(ntf[1].shape[0], n), T.simplies(
                    sand(sle(0, j), slt(j, n)),
                    sand(seq(v.re, 0), seq(v.im, 0)))))
            ctx.oblige('cost function: gain 1', seq(ntf[2], 1))
        wa = list(args[0]) if args else []
        wk = dict(args[1]) if len(args) > 1 else {}
        ctx.oblige('cost function: further arguments', len(a) == len(wa) and
                   set(k) == set(wk) and all(T.same(x, y) for x, y in zip(
                       a, wa)) and all(T.same(k[q], wk[q]) for q in wk))
        c = T.fresh(R, 'cost')
        ctx.assume(c > 0)
        ctx.events.append(('cost', c))
        return c

    def point(ctx, nm):
        f = z3.Function(T.fresh(R, nm).decl().name(), I, R)
        j = T.fresh(I, 'j')
        xx = N.mkarr((half,), lambda ix: f(L_(ix[0])), 'f')
        ctx.tried.append(xx)
        return xx

    def minimize(ctx, fun, x0, args=(), method=None, jac=None, hess=None,
                 hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        ctx.oblige('minimize: method and plain form', isinstance(
            method, str) and method.lower() == 'l-bfgs-b' and args == () and
            jac is None and tol is None and constraints == ())
        ctx.oblige('minimize: options', isinstance(options, dict) and
                   set(options) == set(want) and all(
                       T.same(options[q], want[q]) for q in want))
        x0 = N.asarr(ctx, x0)
        j = T.fresh(I, 'j')
        ctx.oblige('minimize: starting point, one per pair', sand(
            seq(x0.shape[0], half), T.simplies(
                sand(sle(0, j), slt(j, half)), sand(
                    sle(0, x0.reader()((j,))),
                    sle(x0.reader()((j,)), edge)))))
        sq = ctx.symbolic_iter(bounds)
        ctx.oblige('minimize: one bound per pair', sq is not None and
                   seq(sq[0], half))
        if sq is not None:
            b = sq[1](j)
            ctx.oblige('minimize: bounds of the signal band', sand(
                seq(b[0], 0), seq(b[1], edge)))
        for i in range(2):
            # any point, after any other
            xx = point(ctx, 'xx')
            r = ctx.call(fun, (xx,))
            c = [e for e in ctx.events if e[0] == 'cost'][-1][1]
            ctx.oblige('objective is the logarithm of the cost', T.isscalar(r)
                       and seq(r, T.slog10(c)))
        return P.Opaque('result', (), {'x': point(ctx, 'best')})

    tab = ('fattr', id(H.spread_fir_uc_zeros), 'default_options')

    def build(ctx):
        ctx.tried = []
        ctx.modvals[tab] = {q: dict(t) for q, t in dflt.items()}
        return ctx.call(H.spread_fir_uc_zeros, (n, osr, cost) + args,
                        copy.deepcopy(opts))
    for p in vc.run(build, [n >= 1, osr > 1], {
            id(cost): cf, id(scipy.optimize.minimize): minimize}, name):
        if not vc.returns(name, p):
            continue
        vc.frame(name, p)
        if n_is_one(p, n):
            xx = N.mkarr((half,), lambda ix: Fraction(0), 'f')
        else:
            xx = p.ctx.tried[-1]
        ctx = p.ctx
        got = []
        ctx_ob = ctx.oblige
        ctx.oblige = lambda nm, c: got.append((nm, c))
        goodset(ctx, name + ': result', p.value, xx)
        ctx.oblige = ctx_ob
        for nm, c in got:
            vc.ob(nm, ctx.facts(), c)


def n_is_one(p, n):
    return S.prove(p.ctx.facts(), n == 1, 3000).ok


def L_(x):
    return T.lit(x)


# ------------------------------------------------------------------- run time
@PROP.dyn('maxflat_fir_zeros')
def d_maxflat(d):
    while d.more() and d.n < d.top(2000):
        n = int(d.rng.integers(1, 17))
        al = float(10 ** d.rng.uniform(-12, 9))
        d.case(order=n, alpha=al)
        z = H.maxflat_fir_zeros(n, al)
        d.expect(np.shape(z) == (n,), 'n values')
        d.expect(np.all(np.abs(z) <= 1 + 1e-9), 'in the closed unit disc')
        c = al ** (1 / n) * (2 - z - 1 / z)
        d.expect(np.max(np.abs(c ** n + 1)) < 1e-5, 'response vanishes')
        ph = np.sort(np.angle(c))
        d.expect(n == 1 or np.min(np.diff(ph)) > np.pi / n,
                 'all the roots, each once')


@PROP.dyn('spread_fir_uc_zeros')
def d_spread(d):
    while d.more() and d.n < d.top(150):
        n = int(d.rng.integers(1, 8))
        osr = float(d.rng.choice([4, 16, 32, 64, d.rng.uniform(2, 100)]))
        w = np.linspace(0, np.pi / osr, 15)
        wt = np.exp(d.rng.normal(size=15))
        wt[7] = 0 if n < 7 else 1
        calls = []

        def cf(ntf, s, power=1):
            z, p, k = ntf
            z = np.asarray(z)
            calls.append((z.copy(), np.array(p), k, s, power))
            e = np.exp(1j * w)
            return power * s * np.sum(wt * np.abs(np.prod(
                e[:, None] - z[None, :], axis=1))) + 1e-30
        d.case(order=n, OSR=osr, weights=list(wt))
        real, best_x = getattr(H, 'minimize', None), []

        def mini(*a, **k):
            r = real(*a, **k)
            best_x.append(r.x)
            return r
        if real is scipy.optimize.minimize:
            H.minimize = mini
        try:
            z = H.spread_fir_uc_zeros(n, osr, cf, [2.], {'power': 3})
        finally:
            if real is not None:
                H.minimize = real
        if best_x:
            a = np.angle(z)
            d.expect(all(np.min(np.abs(a - s * t)) < 1e-10 for t in best_x[-1]
                         for s in (1, -1)), 'zeros of the minimiser')
        best = cf((z, np.zeros(n), 1), 2., 3)
        for i, (q, p, k, s, power) in enumerate(calls + [
                (z, np.zeros(n), 1, 2., 3)]):
            h = n // 2
            d.expect(q.shape == (n,) and np.allclose(np.abs(q), 1, 0, 1e-9),
                     'on the unit circle')
            d.expect(np.all(np.abs(np.angle(q)) <= np.pi / osr * (1 + 1e-9)),
                     'in the signal band')
            d.expect(np.allclose(np.sort_complex(q), np.sort_complex(
                q.conj()), 0, 1e-12), 'closed under conjugation')
            d.expect(n % 2 == 0 or np.any(q == 1), 'zero at 1')
            d.expect(np.shape(p) == (n,) and not np.any(p) and k == 1 and
                     s == 2. and power == 3, 'arguments of the cost function')
        if len(calls) > 1:
            q = calls[0]
            d.expect(best <= cf(q[0:3], 2., 3) * (1 + 1e-9),
                     'no more expensive than the starting point')
