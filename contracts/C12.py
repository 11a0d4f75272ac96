"""Schreier NTF synthesis, every order n, osr, H_inf, f0, option and both methods.
The search for the pole parameter x is proved with a loop invariant (x > 0, the last
gain is that of the last poles): where it ends without a warning the poles are those
of the last parameter and the gain error is below 1e-10, or the last step below
1e-10 x.  The poles tried are proved to be in the closed unit disc and to satisfy
z + 1/z = 2 m_j, m_j = 1 - C_j/2 or cos(2 pi f0) + C_j/2, C_j = x^(2/n)
exp(i (2 j + o) pi / n); that they are closed under conjugation and strictly inside
is a Lean lemma over this.  The zeros are proved to be the ones given, or exp(i a_j)
with |a_j| in the band and a_sigma(j) = -a_j for an involution sigma, before and
after any call of the optimizer, whose values enter only by its bounds.  The while
loop of the optimizer is covered by an invariant: any iteration starts from the
initial zeros or from those of any values within the bounds.  Zeros of ds_optzeros:
the real function, evaluated for each order 1 to 14 and kind (its whole domain).
Band-pass designs are proved for f0 + 1/(4 osr) < 1/2 (beyond, at run time); one given zero with the
optimizer on: at run time."""
import ast
import warnings
from .base import *
from .C26 import np_sqrt, subterms, zero, place
from pyvc import rules as L
import scipy.optimize
from pydsm import relab
from pydsm.delsig import _synthesizeNTF0 as M0, _synthesizeNTF1 as M1
from pydsm.delsig import _ds, _tf, synthesizeNTF
from pydsm.exceptions import PyDsmApproximationWarning

PROP = Prop('C12')
PROP.assume('scipy.optimize.fmin_l_bfgs_b: the x it returns is within the bounds')
PROP.assume('evalTF, cplxpair: by their contracts (C03, C06): the value of the zpk '
            'form; the same values, paired')
PROP.assume('np.angle: in (-pi, pi], of the sign of the imaginary part; np.sort: a '
            'permutation; np.delete, np.nonzero: no more values than before')
PROP.assume('numpy.sqrt of a complex number: the root with real part >= 0')
PROP.assume('band-pass designs: f0 + 1/(4 osr) < 1/2 (otherwise the band is not '
            'within 0 .. 1/2)')
TOL = F(1, 10**10)
PRE, PIM = [z3.Function('pole.' + q, R, I, R) for q in ('re', 'im')]


ANGLE = z3.Function('angle', R, R, R)


def lit(x):
    return T.lit(x)


def rx(x):
    return T.lit(T.real(x))


class World:
    """one kind of design: low-pass or band-pass, a zero option, an optimizer"""
    def __init__(self, vc, bp, opt, optimizer):
        self.vc, self.bp, self.opt, self.uo = vc, bp, opt, optimizer
        self.osr, self.H = vc.real('osr'), vc.real('Hinf')
        self.n = 2 * vc.int('half') if bp else vc.int('order')
        self.hyps = [self.osr > 1, self.n >= 1]
        self.f0 = F(0)
        e = sdiv(F(1, 4), self.osr)
        self.h = self.n
        if bp:
            self.f0 = vc.real('f0')
            self.h = vc.int('half')
            self.hyps += [self.f0 > e, self.f0 + e < F(1, 2)]
        if self.given_():
            self.given = vc.arr('zeros', (self.n,),
                                'f' if opt == 'given, real' else 'c')
            if optimizer:
                # one zero is tested against 3, which is an option, too
                self.hyps.append(self.n >= 2)
        self.far = sle(self.f0, F(1, 4)) if bp else True
        self.OZ = z3.Function('optzeros', I, R)
        self.placed, self.keep = {}, []
        self.name = 'synthesizeNTF(%s, opt %s%s)' % (
            'band-pass' if bp else 'low-pass', opt,
            ', optimizer' if optimizer else '')

    def given_(self):
        return isinstance(self.opt, str)

    def optzeros(self, ctx, n, opt=1):
        ctx.oblige('ds_optzeros: one zero each (pair, if band-pass)',
                   seq(n, self.h))
        if isarr(opt) and opt.ndim == 0:
            opt = opt.reader()(())
        ctx.oblige('ds_optzeros: kind of zeros', seq(
            opt, {1: 1, 2: 2, 3: 1, 4: 2}[self.opt]))

        def at(ix):
            v = self.OZ(lit(ix[0]))
            ctx.assume(sand(v >= -1, v <= 1))
            return v
        return N.mkarr((self.h,), at, 'f')

    def poles(self, x):
        x = rx(T.nfexpr(T.real(x)))
        return N.mkarr((self.n,), lambda ix: Cx(
            PRE(x, lit(ix[0])), PIM(x, lit(ix[0]))), 'c')

    def polesof(self, arr):
        """the parameter of an array of poles"""
        if not isarr(arr) or arr.ndim != 1 or not T.same(arr.shape[0], self.n):
            return None
        v = arr.reader()((T.fresh(I, 'j'),))
        if T.iscx(v) and T.isz(v.re) and v.re.decl().eq(PRE) and \
                v.im.decl().eq(PIM) and v.im.arg(0).eq(v.re.arg(0)):
            return v.re.arg(0)

    def zeropoles(self, ctx, arr):
        if not isarr(arr) or not T.same(arr.shape[0], self.n):
            return False
        j = T.fresh(I, 'j')
        v = T.cx(arr.reader()((j,)))
        return S.prove(ctx.facts() + [j >= 0, j < self.n], sand(
            seq(v.re, 0), seq(v.im, 0)), 3000).ok

    def token(self, ctx, z):
        """gain as a function of the poles, for a set of zeros"""
        if not hasattr(ctx, 'ztok'):
            ctx.ztok = []
        j = T.fresh(I, 'j')
        b = T.cx(z.reader()((j,)))
        for w, fn in ctx.ztok:
            a = T.cx(w.reader()((j,)))
            if T.same(w.shape[0], z.shape[0]) and zero(a.re - b.re) and \
                    zero(a.im - b.im):
                return fn
        fn = z3.Function(T.fresh(R, 'gain').decl().name(), R, R)
        ctx.ztok.append((z, fn))
        return fn

    def evalTF(self, ctx, tf, zi):
        ok = isinstance(tf, (tuple, list)) and len(tf) == 3
        ctx.oblige('evalTF: a zpk triple with gain 1', ok and seq(tf[2], 1))
        z = tf[0]
        ctx.oblige('evalTF: at the frequency farthest from the band', sand(
            T.simplies(self.far, seq(zi, -1)),
            T.simplies(snot(self.far), seq(zi, 1))))
        fn = self.token(ctx, z)
        x = self.polesof(tf[1])
        if x is None:
            if not self.zeropoles(ctx, tf[1]):
                raise Unsupported('evalTF of other poles')
            x = rx(0)
        return Cx(fn(x), T.fresh(R, 'gain.im'))

    def cplxpair(self, ctx, x, tol=None, dim=None):
        n, rd, j = x.shape[0], x.reader(), T.fresh(I, 'j')
        v = T.cx(rd((j,)))
        pw = [t for t in subterms([rx(v.re), rx(v.im)])
              if t.num_args() == 2 and t.decl().name() == 'pow' and
              zero(t.arg(1) - sdiv(2, T.real(self.n)))]
        if not pw:
            z = N.mkarr(x.shape, T_fresh(ctx, x), 'c')
            if not hasattr(ctx, 'zpaired'):
                ctx.zpaired = []
            ctx.zpaired.append((z, x))
            return z
        par = pw[0].arg(0)
        ctx.oblige('cplxpair of the poles: order values', seq(n, self.n))
        X = z3.Real('x!param')
        v = Cx(*[z3.substitute(rx(q), (par, X)) for q in (v.re, v.im)])
        key = tuple(z3.substitute(q, (j, z3.Int('j!key')))
                    for q in (v.re, v.im))
        self.keep.append(key)
        key = tuple(q.get_id() for q in key)
        if key not in self.placed:
            rho = T.spow(X, sdiv(2, T.real(self.n)))
            offs = (1,) if self.bp else (3,)
            th = lambda o: sdiv(smul(sadd(smul(2, T.real(j)), o), T.PI),
                                T.real(self.n))
            base = smul(2, smul(T.PI, self.f0)) if self.bp else None
            self.placed[key] = any(place(
                self.vc, self.name + ': poles tried', None, v, rho, th(o), j,
                self.n, base) for o in offs)
        ctx.oblige('poles tried: those of the Butterworth-like family',
                   self.placed[key])
        return self.poles(par)


    def angle(self, ctx, z, deg=False):
        """the argument: in (-pi, pi], of the sign of the imaginary part"""
        z = N.asarr(ctx, z)
        fn = ANGLE

        def at(v):
            v = T.cx(v)
            a, b = rx(v.re), rx(v.im)
            t = fn(a, b)
            ctx.assume(z3.And(t > -T.PI, t <= T.PI, (t > 0) == z3.Or(
                b > 0, z3.And(b == 0, a < 0))))
            return t
        if isinstance(z, N.MArr) and not self.given_():
            self.half(ctx, z)
        return N.elementwise(ctx, at, [z], 'f')

    def half(self, ctx, z):
        """at most half of the zeros are selected, as no selected one has a
        selected conjugate (counted in lemmas/C12.lean)"""
        zs = initial(self, ctx)
        j = T.fresh(I, 'j')
        k = zs.sigma(j)
        is_set(ctx, 'positive angles: selected from the zeros', N.mkarr(
            z.mshape, z.full, 'c'), zs)
        v = T.cx(z.full((j,)))
        ctx.oblige('positive angles: the positive ones', T.lit(z.mask(
            (j,))) == (ANGLE(rx(v.re), rx(v.im)) > 0))
        a, b = zs.angle(j), zs.angle(k)
        if self.opt:
            for i in (j, k):
                i = place_of(ctx, i / 2 if self.bp else i)
                ctx.assume(z3.And(self.OZ(i) >= -1, self.OZ(i) <= 1))
                ctx.assume(scaled(self, self.OZ(i)))
            if not self.bp:
                ctx.assume(self.OZ(k) == -self.OZ(j))
        dom = sand(sle(0, j), slt(j, self.n))
        ctx.oblige('positive angles: conjugates', T.simplies(dom, sand(
            sle(0, k), slt(k, self.n), seq(zs.sigma(k), j),
            seq(b, ssub(0, a)))))
        ctx.oblige('positive angles: within (-pi, pi)', T.simplies(dom, sand(
            slt(a, 1), slt(-1, a))))
        ctx.assume(2 * lit(z.shape[0]) <= lit(self.n))

    def delete(self, ctx, arr, obj, axis=None):
        m = T.fresh(I, 'left')
        arr = N.asarr(ctx, arr)
        ctx.assume(sand(sle(0, m), sle(m, arr.shape[0])))
        f = z3.Function(T.fresh(R, 'left').decl().name(), I, R)
        return N.mkarr((m,), lambda ix: f(lit(ix[0])), 'f')

    def values(self, ctx, m):
        f = z3.Function(T.fresh(R, 'v').decl().name(), I, R)

        def at(ix):
            ctx.assume(facts_v(self, ctx, f, m, lit(ix[0])))
            return f(lit(ix[0]))
        ctx.opt, ctx.optlast = (f, m), True
        return N.mkarr((m,), at, 'f')

    def fmin(self, ctx, func, x0, fprime=None, args=(), approx_grad=0,
             bounds=None, **kw):
        ctx.oblige('fmin_l_bfgs_b: the in-band noise of the zeros',
                   getattr(func, 'fn', func) is _ds.ds_synNTFobj1 or
                   getattr(func, 'pyfn', None) is _ds.ds_synNTFobj1)
        ok = isinstance(args, (tuple, list)) and len(args) == 3
        ctx.oblige('fmin_l_bfgs_b: osr and f0', ok and sand(
            seq(args[1], self.osr), seq(args[2], self.f0)))
        ctx.oblige('fmin_l_bfgs_b: poles', ok and (self.polesof(
            args[0]) is not None or self.zeropoles(ctx, args[0])))
        ctx.oblige('fmin_l_bfgs_b: gradient', fprime is None and
                   bool(approx_grad))
        x0 = N.asarr(ctx, x0)
        m, j = x0.shape[0], T.fresh(I, 'j')
        sq = ctx.symbolic_iter(bounds)
        ctx.oblige('fmin_l_bfgs_b: one bound each', sq is not None and
                   seq(sq[0], m))
        if sq is not None:
            b = sq[1](j)
            lo, hi = (F(-1, 2), F(1, 2)) if self.bp else (F(0), F(1))
            ctx.oblige('fmin_l_bfgs_b: bounds of the signal band', sand(
                seq(b[0], lo), seq(b[1], hi)))
        ctx.moved = True
        return (self.values(ctx, m), T.fresh(R, 'fmin'), {})


def np_sort(ctx, x):
    """a permutation of the elements (that they are sorted is not needed)"""
    x = N.asarr(ctx, x)
    f = z3.Function(T.fresh(I, 'sort').decl().name(), I, I)
    rd, n = x.reader(), x.shape[0]
    ctx.sorted = f

    def at(ix):
        i = f(lit(ix[0]))
        ctx.assume(T.simplies(sand(sle(0, ix[0]), slt(ix[0], n)), sand(
            sle(0, i), slt(i, n))))
        return rd((i,))
    return N.mkarr(x.shape, at, x.kind)


def nonzero(ctx, a):
    return P.Opaque('nonzero', (a,))


def wloop(w, ctx, st, env):
    """zero and pole optimization: an iteration starts from the initial zeros,
    or from those of any outcome of the optimizer"""
    if not all(q in env.vars for q in ('opt_iteration', 'x0', 'z')):
        return False
    if w.opt in (3, 4) and ctx.branch(T.fresh(T.B, 'later')):
        m = T.fresh(I, 'm')
        ctx.assume(sand(sle(1, m), sle(2 * m, w.n)))
        V = w.values(ctx, m)
        names = {x.id for b in st.body for x in ast.walk(b)
                 if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for nm in names:
            env.vars.pop(nm, None)
        it = T.fresh(I, 'left')
        ctx.assume(it >= 1)
        env.vars.update(opt_iteration=it, x0=V, z=optimized(
            w, *ctx.opt).arr(), fprev=T.fresh(R, 'fprev'))
    c = ctx.truth(ctx.eval(st.test, env))
    if not (c if isinstance(c, bool) else ctx.branch(c)):
        return
    ctx.exec_block(st.body, env)
    c = ctx.truth(ctx.eval(st.test, env))
    if not (c if isinstance(c, bool) else ctx.branch(c)):
        return
    opt = getattr(ctx, 'opt', None)
    z, x0 = env.vars['z'], env.vars['x0']
    ok = opt is not None and isarr(z) and isarr(x0)
    ctx.oblige('next iteration: zeros of the optimizer', ok)
    if ok:
        is_set(ctx, 'next iteration: zeros', z, optimized(w, *opt))
        j = T.fresh(I, 'j')
        ctx.oblige('next iteration: x0 of the optimizer', sand(
            seq(x0.shape[0], opt[1]), seq(x0.reader()((j,)), opt[0](j)),
            sle(1, opt[1]), sle(2 * opt[1], w.n)))
    raise L.EndPath()


def T_fresh(ctx, x):
    nm = T.fresh(R, 'zp').decl().name()
    fr, fi = [z3.Function(nm + q, I, R) for q in ('.re', '.im')]
    return lambda ix: Cx(fr(lit(ix[0])), fi(lit(ix[0])))


def met(err):
    return sand(slt(err, TOL), slt(ssub(0, TOL), err))


class Loop(L.ForInvariant):
    """search for the pole parameter x"""
    peel = 1

    def __init__(self, w):
        self.w, self.calls = w, 0

    def match(self, ctx, st, env, it):
        return all(q in env.vars for q in ('x', 'fprev', 'z'))

    def facts(self, ctx, env, k):
        self.calls += 1
        w, v = self.w, env.vars
        x, xp = v['x'], ssub(v['x'], v['delta_x'])
        G = w.token(ctx, v['z'])
        out = [('x > 0', sand(sgt(x, 0), sgt(xp, 0))),
               ('gain of the last poles', seq(v['fprev'], ssub(
                   G(rx(T.nfexpr(T.real(xp)))), w.H)))]
        if self.calls == 3:
            out.append(('a warning if this is the last one',
                        True if self.warned(ctx) else sle(k, 100)))
        return out

    def bind(self, ctx, env, k):
        return {'p': self.w.poles(ssub(env.vars['x'], env.vars['delta_x']))}

    def warned(self, ctx):
        return any(e[0] == 'warn' and issubclass(e[1], PyDsmApproximationWarning)
                   for e in flat_events(ctx.events[self.nev:]))

    def conv(self, ctx, env):
        """the gain is met, or the last step was negligible"""
        v = env.vars
        x, dx = v['x'], v['delta_x']
        err = ssub(self.w.token(ctx, v['z'])(rx(T.nfexpr(T.real(
            ssub(x, dx))))), self.w.H)
        ctx.met = met(err)
        return sor(ctx.met, sand(slt(dx, smul(TOL, x)),
                                 slt(smul(-TOL, x), dx)))

    def leave(self, ctx, env, exhausted):
        v = env.vars
        w, p = self.w, v.get('p')
        x = w.polesof(p)
        if x is None:
            ctx.oblige('end of the search: order poles, at 0',
                       w.zeropoles(ctx, p))
            ctx.oblige('end of the search: a warning when the poles are set '
                       'to 0', self.warned(ctx))
            return
        ctx.oblige('end of the search: x > 0', sgt(x, 0))
        if not exhausted and not self.warned(ctx):
            ctx.oblige('end of the search: the poles are the last ones tried',
                       seq(x, ssub(v['x'], v['delta_x'])))
            ctx.oblige('end of the search: gain met, or the search stalled',
                       self.conv(ctx, env))

    def after(self, ctx, env):
        w = self.w
        if ctx.branch(T.fresh(T.B, 'poles at 0')):
            env.vars['p'] = N.mkarr((w.n,), lambda ix: Fraction(0), 'f')
            ctx.events.append(('warned',))
            return
        env.vars['x'], env.vars['delta_x'] = [T.fresh(R, q) for q in (
            'x', 'dx')]
        if ctx.branch(T.fresh(T.B, 'search warned')):
            env.vars['p'] = w.poles(T.fresh(R, 'xlast'))
            ctx.events.append(('warned',))
            return
        env.vars['p'] = self.bind(ctx, env, None)['p']
        ctx.assume(self.conv(ctx, env))
        ctx.env = env.vars['x'], env.vars['delta_x']

    def same(self, ctx, name, got, want):
        a, b = self.w.polesof(got), self.w.polesof(want)
        return a is not None and seq(a, b)


def place_of(ctx, j):
    f = getattr(ctx, 'sorted', None)
    return j if f is None else f(j)


class Zeros:
    """a conjugate-closed set of zeros on the unit circle: pi * angle(j), with the
    conjugate of zero j at position sigma(j)"""
    def __init__(self, n, cases, sigma):
        self.n, self.cases, self.sigma = n, cases, sigma

    def angle(self, j):
        cs = self.cases(j)
        r = cs[-1][1]
        for c, a in reversed(cs[:-1]):
            r = T.ite(c, a, r)
        return r

    def elem(self, j):
        cs = [(c, T.sexp(Cx(0, smul(T.PI, a)))) for c, a in self.cases(j)]
        r = cs[-1][1]
        for c, a in reversed(cs[:-1]):
            r = Cx(T.ite(c, a.re, r.re), T.ite(c, a.im, r.im))
        return r

    def arr(self):
        return N.mkarr((self.n,), lambda ix: self.elem(lit(ix[0])), 'c')


def initial(w, ctx):
    """the zeros of the option, before they are optimized"""
    edge = sdiv(1, w.osr)
    if w.bp:
        edge = sdiv(edge, 2)
    if w.opt == 0:
        a = lambda j: F(0)
    else:
        fn = w.OZ
        a = lambda j: smul(edge, fn(place_of(ctx, j)))
    if not w.bp:
        m = w.n % 2
        sg = (lambda j: j) if w.opt == 0 else lambda j: z3.If(
            j < m, j, z3.If((j - m) % 2 == 0, j + 1, j - 1))
        return Zeros(w.n, lambda j: [(True, a(j))], sg)
    c = smul(2, w.f0)
    return Zeros(w.n, lambda i: [(i % 2 == 0, sadd(c, a(i / 2))), (True, ssub(
        0, sadd(c, a(i / 2))))], lambda i: z3.If(i % 2 == 0, i + 1, i - 1))


def optimized(w, V, m):
    """the zeros for the m values V the optimizer gives"""
    if not w.bp:
        pad = w.n - 2 * m
        ang = lambda v: sdiv(v, w.osr)
        return Zeros(w.n, lambda i: [
            (i < pad, F(0)), (i < pad + m, ang(V(i - pad))),
            (True, ssub(0, ang(V(i - pad - m))))],
            lambda i: z3.If(i < pad, i, z3.If(i < pad + m, i + m, i - m)))
    pad, h = w.h - m, w.h
    one = smul(2, w.f0)
    two = lambda i: smul(2, sadd(w.f0, sdiv(sdiv(V(i - pad), 2), w.osr)))
    return Zeros(w.n, lambda i: [
        (i < pad, one), (i < h, two(i)), (i < h + pad, ssub(0, one)),
        (True, ssub(0, two(i - h)))],
        lambda i: z3.If(i < h, i + h, i - h))


def is_set(ctx, tag, z, zs):
    """obligations: the elements of z are those of the set"""
    j = T.fresh(I, 'j')
    a, b = T.cx(z.reader()((j,))), zs.elem(j)
    ctx.oblige(tag + ' (number)', seq(z.shape[0], zs.n))
    ctx.oblige(tag + ' (real part)', seq(a.re, b.re))
    ctx.oblige(tag + ' (imaginary part)', seq(a.im, b.im))


def scaled(w, v):
    """bounds on v / osr, for -1 <= v <= 1 (lemma 'bounds scale')"""
    u = sdiv(1, w.osr)
    t = smul(v, u)
    e = sdiv(F(1, 4), w.osr)
    return sand(slt(0, u), slt(u, 1), sle(ssub(0, u), t), sle(t, u),
                seq(e, sdiv(u, 4)))


def facts_v(w, ctx, V, m, j):
    """bounds on the values the optimizer gives"""
    lo, hi = (F(-1, 2), F(1, 2)) if w.bp else (F(0), F(1))
    return T.simplies(sand(sle(0, j), slt(j, m)), sand(
        sle(lo, V(j)), sle(V(j), hi),
        sle(smul(lo, sdiv(1, w.osr)), smul(V(j), sdiv(1, w.osr))),
        sle(smul(V(j), sdiv(1, w.osr)), smul(hi, sdiv(1, w.osr))),
        scaled(w, V(j))))


def check_zeros(w, vc, p, z, name):
    """order zeros, on the unit circle, in the band, closed under conjugation"""
    ctx, j = p.ctx, vc.int('j')
    opt = getattr(ctx, 'opt', None)
    last = ctx.optlast if opt else False
    zs = optimized(w, *opt) if last else initial(w, ctx)
    k = zs.sigma(j)
    hy = [j >= 0, j < w.n]
    fs = ctx.facts() + hy
    if last:
        for t in (j, k):
            for i in (t - (w.n - 2 * opt[1]), t - (w.n - opt[1])) \
                    if not w.bp else (t - (w.h - opt[1]),
                                      t - w.h - (w.h - opt[1])):
                fs.append(facts_v(w, ctx, opt[0], opt[1], i))
    else:
        for i in (j, k):
            i = place_of(ctx, i / 2 if w.bp else i)
            fs += [w.OZ(i) >= -1, w.OZ(i) <= 1, scaled(w, w.OZ(i))]
        if not w.bp:
            fs.append(w.OZ(k) == -w.OZ(j))
    a, b = zs.angle(j), zs.angle(k)
    el = T.cx(z.reader()((j,)))
    e = zs.elem(j)
    vc.ob(name + ': number of zeros', fs, seq(z.shape[0], w.n))
    vc.ob(name + ': zeros on the unit circle, as stated', fs, sand(
        seq(el.re, e.re), seq(el.im, e.im)))
    c = smul(2, w.f0)
    e = sdiv(1, w.osr)
    if w.bp:
        e = sdiv(e, 2)
    s = z3.If(lit(a) >= 0, lit(a), -lit(a))
    vc.ob(name + ': zeros in the signal band', fs, sand(
        sle(ssub(c, e), s), sle(s, sadd(c, e))))
    vc.ob(name + ': zeros closed under conjugation', fs, sand(
        sle(0, k), slt(k, w.n), seq(zs.sigma(k), j), seq(b, ssub(0, a))))


def go(vc, *args):
    S.LIGHT[0] = True
    try:
        design(vc, *args)
    finally:
        S.LIGHT[0] = False


def design(vc, bp, opt, uo):
    w = World(vc, bp, opt, uo)
    name = w.name
    v, u = vc.real('v'), vc.real('u')
    for lo, hi in ((F(-1), F(1)), (F(-1, 2), F(1, 2)), (F(0), F(1))):
        for c in (sle(smul(lo, u), smul(v, u)), sle(smul(v, u), smul(hi, u))):
            vc.ob('lemma: bounds scale', [u > 0, v >= lo, v <= hi], c)
    u = sdiv(1, w.osr)
    for c in (slt(0, u), slt(u, 1), seq(sdiv(F(1, 4), w.osr), sdiv(u, 4))):
        vc.ob('lemma: 1/osr', [w.osr > 1], c)
    if w.given_():
        opt = w.given
    for p in vc.call(synthesizeNTF, (w.n, w.osr, opt, w.H, w.f0),
                     dict(use_optimizer=uo), hyps=w.hyps, name=name,
                     contracts={id(np.sqrt): np_sqrt,
                                id(_ds.ds_optzeros): w.optzeros,
                                id(_tf.evalTF): w.evalTF,
                                id(relab.cplxpair): w.cplxpair,
                                id(np.angle): w.angle,
                                id(np.delete): w.delete, id(np.nonzero): nonzero,
                                id(np.sort): np_sort,
                                id(scipy.optimize.fmin_l_bfgs_b): w.fmin},
                     **{'for': L.for_rule(lambda: Loop(w)),
                        'while': lambda *a: wloop(w, *a)}):
        if p.kind == 'end':
            continue
        if not vc.returns(name, p):
            continue
        ctx = p.ctx
        vc.frame(name, p)
        v = p.value
        ok = isinstance(v, tuple) and len(v) == 3
        src = [s for z, s in getattr(ctx, 'zpaired', ()) if ok and isarr(
            v[0]) and z.buf is v[0].buf]
        vc.holds(name + ': (paired zeros, poles, gain)', bool(src))
        if not src:
            continue
        vc.ob(name + ': gain is 1', ctx.facts(), seq(v[2], 1))
        z = src[0]
        if w.given_():
            j = vc.int('j')
            a, b = [T.cx(q.reader()((j,))) for q in (z, w.given)]
            vc.ob(name + ': the zeros given', ctx.facts() + [
                j >= 0, j < w.n], sand(seq(z.shape[0], w.n), seq(
                    a.re, b.re), seq(a.im, b.im)))
        else:
            check_zeros(w, vc, p, z, name)
        warned = any(e[0] == 'warned' or e[0] == 'warn' and issubclass(
            e[1], PyDsmApproximationWarning) for e in flat_events(p.events))
        x = w.polesof(v[1])
        if x is None:
            vc.holds(name + ': order poles, those of the search or zero',
                     w.zeropoles(ctx, v[1]))
            vc.holds(name + ': a warning when the poles are set to zero', warned)
        elif not warned:
            ok = met(ssub(w.token(ctx, z)(x), w.H))
            if not getattr(ctx, 'moved', False) and hasattr(ctx, 'env'):
                xn, dx = ctx.env
                ok = sor(ok, sand(seq(xn, sadd(x, dx)), slt(dx, smul(
                    TOL, xn)), slt(smul(-TOL, xn), dx)))
            vc.ob(name + ': peak gain, or the search stalled', ctx.facts(), ok)


for _bp in (False, True):
    for _uo in (False, True):
        for _opt in (0, 1, 2, 3, 4, 'given', 'given, real'):
            if _opt in (3, 4) and not _uo:
                continue
            PROP.unit('%s, opt %s%s' % (
                'band-pass' if _bp else 'low-pass', _opt,
                ', optimizer' if _uo else ''))(
                lambda vc, bp=_bp, o=_opt, u=_uo: go(vc, bp, o, u))


@PROP.unit('arguments and options')
def u_args(vc):
    n, osr, H, f0 = vc.int('order'), vc.real('osr'), vc.real('H'), vc.real('f0')
    token = P.Opaque('ntf', ())
    e = sdiv(F(1, 4), osr)
    base = [osr > 1, n >= 1, f0 >= 0]
    vec, m = vc.arr('zeros', (vc.int('length'),), 'c'), vc.int('length')
    cases = [
        ('f0 > 1/2', 0, [f0 > F(1, 2)], None),
        ('odd order, band-pass', 2, [n % 2 == 1, f0 >= e, f0 > 0,
                                     f0 <= F(1, 2)], None),
        ('zeros, another number', vec, [m >= 1, m != n, f0 == 0], None),
        ('zeros, another number, band-pass', vec,
         [m >= 1, m != n, n % 2 == 0, f0 >= e, f0 <= F(1, 2)], None),
        ('low-pass', 1, [f0 == 0], F(0)),
        ('low-pass, f0 below the band', 3, [f0 > 0, f0 < e, f0 <= F(1, 2)],
         F(0)),
        ('band-pass', 2, [n % 2 == 0, f0 >= e, f0 > 0, f0 <= F(1, 2)], f0),
        ('zeros', vec, [m == n, f0 == 0], F(0))]
    for case, opt, hy, want in cases:
        for kw, which in (({}, None), ({'use_optimizer': True}, M1),
                          ({'use_optimizer': False}, M0)):
            calls = {}

            def model(mod):
                def f(ctx, *a):
                    if not hasattr(ctx, 'calls'):
                        ctx.calls = []
                    ctx.calls.append((mod, a))
                    return token
                return f
            for d in ((True, False) if which is None else (True,)):
                name = 'synthesizeNTF: %s, %s' % (case, kw or 'default %s' % d)

                def build(ctx):
                    ctx.modvals[('fattr', id(synthesizeNTF),
                                 'default_options')] = ctx.lift(
                                     {'use_optimizer': d})
                    return ctx.call(synthesizeNTF, (n, osr, opt, H, f0),
                                    dict(kw))
                for p in vc.run(build, base + hy, {
                        id(M0.synthesizeNTF0): model(M0),
                        id(M1.synthesizeNTF1): model(M1)}, name):
                    if want is None:
                        vc.raises(name, p, ValueError)
                        continue
                    if not vc.returns(name, p):
                        continue
                    cs = getattr(p.ctx, 'calls', [])
                    w = which or (M1 if d else M0)
                    vc.holds(name + ': the method chosen, its result',
                             len(cs) == 1 and cs[0][0] is w and
                             p.value is token)
                    if len(cs) != 1:
                        continue
                    a = cs[0][1]
                    ok = len(a) == 5 and isarr(a[2])
                    vc.holds(name + ': arguments', ok)
                    if ok:
                        vc.ob(name + ': order, osr, H_inf, f0', p.ctx.facts(),
                              sand(seq(a[0], n), seq(a[1], osr), seq(a[3], H),
                                   seq(a[4], want)))
                        if opt is vec:
                            vc.equal(name + ': zeros', p, a[2], vec)
                        else:
                            vc.ob(name + ': opt', p.ctx.facts(), a[2].ndim == 0
                                  and seq(a[2].reader()(()), opt))
                    wn = [x for x in flat_events(p.events) if x[0] == 'warn']
                    if 'below' in case:
                        vc.holds(name + ': warning', len(wn) == 1 and issubclass(
                            wn[0][1], PyDsmApproximationWarning))
                    else:
                        vc.holds(name + ': no warning', not wn)


@PROP.unit('ds_optzeros, its whole domain')
def u_optzeros(vc):
    for n in range(1, 15):
        for opt in (1, 2):
            v = np.asarray(_ds.ds_optzeros(n, opt))
            h = n % 2
            a, b = v[h::2], v[h + 1::2]
            vc.holds('ds_optzeros(%d, %d): n values in [-1, 1], in pairs of '
                     'opposite ones' % (n, opt), v.shape == (n,) and bool(
                         np.all(np.abs(v) <= 1)) and np.array_equal(a, -b) and
                     not np.any(v[:h]))
    vc.lean('conjugate poles, strictly inside; at most half of the angles are '
            'positive (Lean)', 'lemmas/C12.lean')


@PROP.dyn('designs')
def d_designs(d):
    rng = d.rng
    while d.more() and d.n < d.top(1500):
        bp = bool(rng.random() < .5)
        order = int(rng.integers(1, 15))
        osr = float(rng.choice([2, 4, 8, 16, 32, 64, 256,
                                rng.uniform(1.2, 300)]))
        f0 = 0.
        if bp:
            order = 2 * int(rng.integers(1, 8))
            f0 = float(rng.choice([rng.uniform(.25 / osr, .5), .25, .125, .4,
                                   rng.uniform(0, .5)]))
        H = float(rng.choice([1.1, 1.5, 2, 4, 8, rng.uniform(1.01, 20),
                              2. ** order * rng.uniform(.9, 1)]))
        opt = int(rng.integers(0, 5))
        uo = bool(rng.random() < (.5 if order < 9 else .2))
        given = bool(rng.random() < .15)
        if given:
            a = rng.uniform(0, np.pi, order // 2)
            opt = np.concatenate((np.exp(1j * a), np.exp(-1j * a), [1.] * (
                order % 2)))
            rng.shuffle(opt)
        keep = np.array(opt)
        kw = {} if uo and rng.random() < .3 else {'use_optimizer': uo}
        d.case(order=order, osr=osr, opt=opt, H_inf=H, f0=f0, use_optimizer=uo)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            z, p, k = synthesizeNTF(order, osr, opt, H, f0, **kw)
        d.expect(np.array_equal(keep, opt), 'arguments unchanged')
        wn = any(issubclass(q.category, PyDsmApproximationWarning) for q in w)
        d.expect(z.shape == (order,) and p.shape == (order,) and k == 1,
                 'order zeros, order poles, gain 1')
        if 0 < f0 < .25 / osr:
            d.expect(wn, 'warning: low-pass')
            f0 = 0
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                z2, p2, k = synthesizeNTF(order, osr, opt, H, 0, **kw)
            wn = any(issubclass(q.category, PyDsmApproximationWarning)
                     for q in w)
            d.close(z, z2, 'the low-pass design', atol=1e-7)
            d.close(p, p2, 'the low-pass design', atol=1e-7)
        zi = -1 if f0 <= .25 else 1
        if not wn:
            g = abs(np.prod(zi - z) / np.prod(zi - p))
            d.expect(abs(g - H) <= 1e-5 * H, 'peak gain %s' % g)
        elif not given and f0 == 0 and 1.2 < H < .8 * 2 ** order and \
                order < 9 and osr > 8:
            d.expect(False, 'a gain within reach is met, without a warning')
        d.expect(np.all(np.abs(p) <= 1), 'poles in the unit disc')
        for nm, r in (('zeros', z), ('poles', p)):
            s = r[np.abs(r.imag) > 0]
            t = list(s.conj())
            for v in s:
                if t:
                    i = int(np.argmin([abs(q - v) for q in t]))
                    d.expect(abs(t.pop(i) - v) < 1e-8, nm + ': conjugate pairs')
        if given:
            t = list(opt)
            for v in z:
                i = int(np.argmin([abs(q - v) for q in t]))
                d.expect(abs(t.pop(i) - v) < 1e-10, 'the zeros given')
            continue
        d.expect(np.all(np.abs(np.abs(z) - 1) < 1e-6), 'zeros: unit circle')
        f = np.abs(np.angle(z)) / 2 / np.pi
        lo, hi = (0, .5 / osr) if f0 == 0 else (f0 - .25 / osr,
                                                min(.5, f0 + .25 / osr))
        d.expect(np.all(f >= lo - 1e-7) and np.all(f <= hi + 1e-7),
                 'zeros in the signal band')
        if opt == 0 and isinstance(opt, int):
            d.close(f, np.full(order, f0), 'zeros at band centre', atol=1e-7)
        elif opt in (1, 2) and order % 2 == 0 and f0 == 0:
            want = np.abs(_ds.ds_optzeros(order, opt)) / 2 / osr
            d.close(np.sort(f), np.sort(want), 'zeros of the option',
                    atol=1e-7)


@PROP.dyn('arguments')
def d_args(d):
    for kw in ({}, {'use_optimizer': True}, {'use_optimizer': False}):
        for a in ((4, 32, 0, 1.5, .51), (3, 32, 1, 1.5, .25),
                  (4, 32, [1, 1, 1], 1.5, 0), (4, 32, [1] * 5, 1.5, .25),
                  (4, 32, [1], 1.5), (1, 32, [1, 1], 1.5),
                  (4, 32, [[1, 1, 1, 1]], 1.5), (5, 64, 2, 1.5, .01)):
            d.case(args=a, kw=kw)
            d.raises(ValueError, synthesizeNTF, *a, **kw)
    old = dict(synthesizeNTF.default_options)
    try:
        for u in (True, False):
            synthesizeNTF.default_options['use_optimizer'] = u
            d.case(default=u)
            a, b = synthesizeNTF(4, 32, 3), synthesizeNTF(
                4, 32, 3, use_optimizer=u)
            d.close(a[0], b[0], 'default options')
    finally:
        synthesizeNTF.default_options.update(old)
