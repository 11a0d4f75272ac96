"""Chebyshev NTF design.  Proved for every order, oversampling ratio, peak gain
and centre frequency, by an invariant of the search loop: what is returned is the
complex-paired zeros and poles of the stated Chebyshev type II filter for some
attenuation in [0, 300] dB, with gain 1, and, if some attenuation x* in that range
gives the requested peak gain, either the peak gain is within 1e-6 of it or the
attenuation is within 1e-6 dB of x* (for searches that end by their own
convergence tests).  scipy's cheby2 enters by its contract: `order` zeros on the
unit circle in the stop band, poles inside the unit circle, closed under
conjugation, peak gain 1, and leading coefficient decreasing with the attenuation.
That the search converges within its iteration limit, and the contract of cheby2
itself, are checked at run time only."""
from .base import *
from pyvc import rules as L
import scipy.signal
from pydsm import relab
from pydsm.delsig import _synthesizeChebyshevNTF as M
from pydsm.delsig import synthesizeChebyshevNTF, ds_f1f2

PROP = Prop('C25')
PROP.assume('scipy.signal.cheby2 returns the Chebyshev type II filter (zeros on '
            'the unit circle in the stop band, poles inside the unit circle, both '
            'closed under conjugation, peak gain 1); 1/k increases with the '
            'attenuation (checked at run time)')
PROP.assume('the search meets one of its convergence tests within 100 iterations '
            '(checked at run time)')
cheby2 = scipy.signal.cheby2
TOL = F(1, 10**6)


class Design:
    """the filters cheby2 gives for one band, as functions of the attenuation"""
    def __init__(self, vc, order, band, n, btype):
        self.order, self.band, self.n, self.btype = order, band, n, btype
        self.fn = {q: z3.Function('cheby.' + q, R, I, R)
                   for q in ('zre', 'zim', 'pre', 'pim')}
        self.G = z3.Function('cheby.gain', R, R)
        self.seen = []
        self.xs = None

    def arr(self, q, x):
        x = T.lit(T.real(x))
        at = lambda ix: Cx(*[self.fn[q + t](x, L.lit(ix[0]))
                             for t in ('re', 'im')])
        return N.mkarr((self.n,), at, 'c')

    def gain(self, x):
        return self.G(T.lit(T.real(x)))

    def at(self, ctx, x):
        x = T.nfexpr(T.real(x))
        ctx.assume(sgt(self.gain(x), 0))
        if self.xs is not None:
            # 1/k increases with the attenuation
            ctx.assume(sand(*[seq(o(x, self.xs), o(
                self.gain(x), self.gain(self.xs))) for o in (slt, sgt)]))
        self.seen.append(x)
        return self.arr('z', x), self.arr('p', x), sdiv(1, self.gain(x))

    def cheby2(self, ctx, N_, rs, Wn, btype='low', analog=False, output='ba',
               fs=None):
        ctx.oblige('cheby2: order', seq(N_, self.order))
        ctx.oblige('cheby2: attenuation in (0, 300]', sand(
            sgt(rs, 0), sle(rs, 300)))
        ctx.oblige('cheby2: kind of band and form', (
            btype, analog, output, fs) == (self.btype, False, 'zpk', None))
        if isarr(Wn):
            rd = Wn.reader()
            Wn = tuple(rd((j,)) for j in range(Wn.shape[0]))
        if isinstance(self.band, (tuple, list)):
            ok = isinstance(Wn, (tuple, list)) and len(Wn) == 2
            ctx.oblige('cheby2: stop band', ok and sand(*[
                seq(a, b) for a, b in zip(Wn, self.band)]))
        else:
            ctx.oblige('cheby2: stop band', T.isscalar(Wn) and
                       seq(Wn, self.band))
        return self.at(ctx, rs)

    def cplxpair(self, ctx, x, tol=None, dim=None):
        rd = x.reader()
        for q in 'zp':
            for t in self.seen:
                j = T.fresh(I, 'j')
                a, b = rd((j,)), self.arr(q, t).reader()((j,))
                if T.same(x.shape[0], self.n) and a is not None and \
                        T.same(a.re, b.re) and T.same(a.im, b.im):
                    return P.Opaque('paired', (q, t))
        ctx.oblige('cplxpair gets the zeros or the poles of the design', False)
        raise Unsupported('cplxpair of another value')


class Search(L.ForInvariant):
    """state of the search for the attenuation: a bracket of the solution, and
    the design of the last attenuation tried"""
    peel = 1

    def __init__(self, ds, xs, Hinf):
        self.ds, self.xs, self.H = ds, xs, Hinf

    def match(self, ctx, st, env, it):
        return all(q in env.vars for q in ('x_min', 'x_max', 'x'))

    def facts(self, ctx, env, k):
        v = env.vars
        lo, hi, x, xp = v['x_min'], v['x_max'], v['x'], v['x_p']
        out = [('bracket', sand(sle(0, lo), sle(lo, hi), sle(hi, 300))),
               ('next attenuation', sand(sge(x, lo), sle(x, hi), sgt(x, 0))),
               ('step', seq(v['dx'], ssub(x, xp))),
               ('last attenuation', sand(sle(0, xp), sle(xp, 300))),
               ('error', seq(v['f_p'], ssub(self.ds.gain(xp), self.H))),
               ('not converged', snot(v['converged']))]
        if self.xs is not None:
            out += [('solution in the bracket', sand(
                sle(lo, self.xs), sle(self.xs, hi)))]
        return out

    def bind(self, ctx, env, k):
        z, p, kk = self.ds.at(ctx, env.vars['x_p'])
        return {'z': z, 'p': p, 'k': kk}

    def same(self, ctx, name, got, want):
        if name == 'k':
            return seq(got, want)
        if not isarr(got):
            return False
        j = T.fresh(I, 'j')
        a, b = got.reader()((j,)), want.reader()((j,))
        return sand(seq(a.re, b.re), seq(a.im, b.im))


def design(vc, bp, sol):
    osr, H, f0 = vc.real('osr'), vc.real('Hinf'), vc.real('f0')
    order, opt = vc.int('order'), vc.int('opt')
    hyps = [osr > 1, order >= 1]
    e = sdiv(F(1, 4), osr)
    if bp:
        hyps += [f0 > e, f0 + e < F(1, 2), order % 2 == 0]
        ds = Design(vc, order / 2, (smul(2, ssub(f0, e)), smul(2, sadd(f0, e))),
                    order, 'stop')
    else:
        f0 = F(0)
        ds = Design(vc, order, sdiv(1, osr), order, 'high')
    xs = None
    if sol:
        ds.xs = xs = vc.real('xs')
        hyps += [xs >= 0, xs <= 300, ds.gain(xs) == H]
    name = 'synthesizeChebyshevNTF(%s%s)' % (
        'band-pass' if bp else 'low-pass', ', attainable gain' if sol else '')
    con = {id(cheby2): ds.cheby2, id(relab.cplxpair): ds.cplxpair}
    for p in vc.call(synthesizeChebyshevNTF, (order, osr, opt, H, f0),
                     hyps=hyps, name=name, contracts=con,
                     **{'for': L.for_rule(lambda: Search(ds, xs, H))}):
        if p.kind == 'end':
            continue
        if not vc.returns(name, p):
            continue
        vc.frame(name, p)
        v = p.value
        ok = isinstance(v, tuple) and len(v) == 3 and all(
            isinstance(t, P.Opaque) and t.name == 'paired' for t in v[:2]) \
            and v[0].args[0] == 'z' and v[1].args[0] == 'p'
        vc.holds(name + ': (paired zeros, paired poles, gain)', ok)
        if not ok:
            continue
        vc.ob(name + ': gain is 1', p.ctx.facts(), seq(v[2], 1))
        x = v[0].args[1]
        vc.ob(name + ': zeros and poles of one design, up to 300 dB', p.ctx.facts(),
              sand(seq(x, v[1].args[1]), sle(0, x), sle(x, 300)))
        if sol and not any(t[0] == 'loop exhausted' for t in p.events):
            err = ssub(ds.gain(x), H)
            vc.ob(name + ': peak gain', p.ctx.facts(), sor(
                sand(slt(err, TOL), slt(ssub(0, TOL), err)),
                sand(slt(ssub(x, xs), TOL), slt(ssub(xs, x), TOL))))


for _bp in (False, True):
    for _sol in (False, True):
        PROP.unit('%s%s' % ('band-pass' if _bp else 'low-pass',
                            ', attainable gain' if _sol else ''))(
            lambda vc, bp=_bp, sol=_sol: design(vc, bp, sol))


@PROP.unit('odd band-pass order')
def u_odd(vc):
    osr, H, f0 = vc.real('osr'), vc.real('Hinf'), vc.real('f0')
    order = vc.int('order')
    name = 'odd band-pass order'
    for p in vc.call(synthesizeChebyshevNTF, (order,), dict(
            osr=osr, H_inf=H, f0=f0), hyps=[order % 2 == 1, f0 != 0],
            name=name):
        vc.raises(name, p, ValueError)


@PROP.unit('defaults')
def u_def(vc):
    import inspect
    vc.holds('published defaults: order 3, osr 64, opt 0, H_inf 1.5, f0 0', [
        q.default for q in inspect.signature(
            synthesizeChebyshevNTF).parameters.values()] == [3, 64, 0, 1.5, 0])


# ------------------------------------------------------------------ run time
def check(d, order, osr, H, f0, z, p, k, msg):
    z, p = np.asarray(z), np.asarray(p)
    d.expect(z.shape == (order,) and p.shape == (order,) and k == 1,
             msg + ': numbers of zeros and poles, gain')
    d.expect(np.max(abs(abs(z) - 1)) < 1e-8, msg + ': zeros on the unit circle')
    d.expect(np.max(abs(p)) < 1, msg + ': poles inside the unit circle')
    for nm, r in (('zeros', z), ('poles', p)):
        m = r[np.abs(r.imag) > 1e-12]
        d.expect(np.allclose(np.sort_complex(m), np.sort_complex(m.conj()),
                             0, 1e-12), msg + ': %s closed under conjugation' % nm)
    f = np.abs(np.angle(z)) / 2 / np.pi
    f1, f2 = (0, .5 / osr) if f0 == 0 else (f0 - .25 / osr, f0 + .25 / osr)
    d.expect(np.all(f >= f1 - 1e-9) and np.all(f <= f2 + 1e-9),
             msg + ': zeros in the signal band [%g, %g]: %s' % (f1, f2, f))
    g = lambda fr: np.prod(np.abs(np.exp(2j * np.pi * fr) - z)) / np.prod(
        np.abs(np.exp(2j * np.pi * fr) - p))
    if H is not None:
        far = .5 if f0 == 0 or f0 < .25 else 0.
        d.close(g(far), H, msg + ': peak gain', rtol=1e-4, atol=1e-4)
        d.expect(max(g(t) for t in np.linspace(0, .5, 101)) <= H * (1 + 1e-4),
                 msg + ': no larger gain elsewhere')


@PROP.dyn('attainable designs')
def d_att(d):
    while d.more() and d.n < d.top(400):
        bp = d.rng.random() < .5
        osr = float(d.rng.choice([2, 4, 8, 16, 32, 64, 128, 256,
                                  d.rng.uniform(1.2, 300)]))
        f0, order = 0, int(d.rng.integers(1, 10))
        if bp:
            order, e = 2 * int(d.rng.integers(1, 5)), .25 / osr
            if e > .24:
                continue
            f0 = d.rng.uniform(1.02 * e, .5 - 1.02 * e)
        H = float(d.rng.choice([1.1, 1.3, 1.5, 2, 3, 5, 8,
                                d.rng.uniform(1.02, 10)]))
        gain = lambda x: 1 / (cheby2(order, x, 1 / osr, 'high', output='zpk')
                              if f0 == 0 else cheby2(
            order // 2, x, (2 * f0 - .5 / osr, 2 * f0 + .5 / osr), 'stop',
            output='zpk'))[2]
        gs = [gain(x) for x in (.5, 3, 10, 30, 100, 250)]
        d.expect(all(a < b * (1 + 1e-9) for a, b in zip(gs, gs[1:])),
                 'contract of cheby2: gain increases with attenuation')
        if not gs[0] < H < gs[-1]:
            continue
        d.case(order=order, osr=osr, H_inf=H, f0=f0)
        z, p, k = synthesizeChebyshevNTF(order, osr, int(d.rng.integers(3)), H,
                                         f0)
        check(d, order, osr, H, f0, z, p, k, 'synthesizeChebyshevNTF')


@PROP.dyn('other arguments')
def d_other(d):
    while d.more() and d.n < d.top(300):
        osr = float(d.rng.choice([4, 16, 64, d.rng.uniform(2, 100)]))
        t = d.rng.integers(3)
        if t == 0:
            order, f0 = 2 * int(d.rng.integers(5)) + 1, float(
                d.rng.uniform(.01, .49))
            d.case(order=order, osr=osr, f0=f0)
            d.raises(ValueError, synthesizeChebyshevNTF, order, osr, 0, 1.5, f0)
        elif t == 1:
            # gain out of reach: still a proper design
            order, H = int(d.rng.integers(1, 7)), float(
                d.rng.choice([.5, 1, 1e9]))
            d.case(order=order, osr=osr, H_inf=H)
            z, p, k = synthesizeChebyshevNTF(order, osr, 0, H)
            if H < 10:
                check(d, order, osr, None, 0, z, p, k, 'unattainable gain')
        else:
            kw = {q: v for q, v in (('order', 4), ('osr', osr), ('H_inf', 2.),
                                    ('f0', 0.)) if d.rng.random() < .5}
            d.case(**kw)
            full = dict(dict(order=3, osr=64, H_inf=1.5, f0=0.), **kw)
            z, p, k = synthesizeChebyshevNTF(**kw)
            check(d, full['order'], full['osr'], full['H_inf'], full['f0'],
                  z, p, k, 'defaults')
