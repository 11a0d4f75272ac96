"""Noise gain and weighting functionals.  Proved for every NTF and weighting
(abstract complex / real functions of frequency), all band edges: the integrand,
the bounds, the factor and the options handed to scipy's quad are exactly those
of the stated integral; mult_weightings is proved for up to four factors of any
mix of kinds.  evalTF (C05), idtft_hermitian (C11), impulse_response (C21) and
raw_acorr (C11) enter by their contracts, scipy's quad and convolve by assumed
ones."""
from .base import *
import scipy.integrate
import scipy.signal as ss
from pydsm.NTFdesign import merit_factors as M
from pydsm.NTFdesign.weighting import _fir_weighting as W
from pydsm.NTFdesign.legacy import _quantization_noise_gain as L
from pydsm.NTFdesign.legacy import _q0_from_ir as L2
from pydsm import ft, ir, correlations
from pydsm.delsig import evalTF
from .C11 import checked, integral, sameopts, ang, cexp

PROP = Prop('C10')
QOPT = {'epsabs': F(1, 10**14), 'epsrel': F(1, 10**9), 'limit': 100,
        'points': None}


class World:
    """abstract filters (evaluated through evalTF's contract) and weightings"""
    def __init__(self, vc):
        self.vc = vc
        self.tf = []
        self.con = {id(evalTF): self.evalTF}

    def filter(self, name, kind='zpk'):
        vc = self.vc
        n, m = vc.int(name + '.n'), vc.int(name + '.m')
        if kind == 'zpk':
            h = (vc.arr(name + '.z', (n,), 'c'), vc.arr(name + '.p', (m,), 'c'),
                 vc.real(name + '.k'))
        else:
            h = (vc.arr(name + '.b', (n,)), vc.arr(name + '.a', (m,)))
        fr = z3.Function(name + '.Hre', R, R, R)
        fi = z3.Function(name + '.Him', R, R, R)

        def at(z):
            z = T.cx(z)
            a = [T.nfexpr(T.real(t)) for t in (z.re, z.im)]
            return Cx(fr(*a), fi(*a))
        self.tf.append((h, at))
        mag2 = lambda f: self.mag2(at, f)
        return h, mag2

    @staticmethod
    def mag2(at, f):
        v = at(cexp(ang(f, 1)))
        return sadd(smul(v.re, v.re), smul(v.im, v.im))

    def evalTF(self, ctx, tf, z):
        for h, at in self.tf:
            if tf is h or isinstance(tf, tuple) and len(tf) == len(h) and all(
                    a is b for a, b in zip(tf, h)):
                if isarr(z):
                    rd = z.reader()
                    if all(T.same(q, 1) for q in z.shape):
                        return at(rd((0,) * z.ndim))
                    ctx.oblige('more than one point', sor(*[
                        sgt(q, 1) for q in z.shape]))
                    return N.mkarr(z.shape, lambda ix: at(rd(ix)), 'c')
                return at(z)
        ctx.oblige('evalTF gets one of the filters given', False)
        raise Unsupported('evalTF of an unknown filter')

    def weight(self, name):
        fr = z3.Function(name, R, R)

        def w(f):
            raise AssertionError
        at = lambda f: fr(T.nfexpr(T.real(f)))

        def call(ctx, f):
            if isarr(f):
                rd = f.reader()
                return N.mkarr(f.shape, lambda ix: at(rd(ix)), 'f')
            return at(f)
        self.con[id(w)] = call
        return w, at


@PROP.unit('quantization_noise_gain')
def u_gain(vc):
    b0, b1 = vc.real('b0'), vc.real('b1')
    eps = vc.real('eps')
    for kn in ('zpk', 'nd'):
        wd = World(vc)
        ntf, g2 = wd.filter('N' + kn, kn)
        wf, wat = wd.weight('w')
        hz, hz2 = wd.filter('Hz')
        hb, hb2 = wd.filter('Hb', 'nd')
        for wn, w, wat in (('none', None, lambda f: 1), ('function', wf, wat),
                           ('zpk', hz, hz2), ('nd', hb, hb2)):
            for kw, lo, hi, avg, opt in (
                    ({}, 0, F(1, 2), False, QOPT),
                    ({'bounds': (b0, b1)}, b0, b1, False, QOPT),
                    ({'bounds': [b0, b1], 'avg': True}, b0, b1, True, QOPT),
                    ({'avg': True, 'quad_opts': {'epsabs': eps}},
                     0, F(1, 2), True, dict(QOPT, epsabs=eps)),
                    ({'avg': False, 'quad_opts': {'limit': 3,
                                                  'points': None}},
                     0, F(1, 2), False, dict(QOPT, limit=3))):
                kw = dict(kw)
                if w is not None:
                    kw['w'] = w
                name = 'quantization_noise_gain(%s, w %s, %s)' % (
                    kn, wn, sorted(kw))
                for p in vc.call(M.quantization_noise_gain, (ntf,), kw,
                                 hyps=[b0 < b1], name=name,
                                 contracts=wd.con, quad_check=checked(opt)):
                    if not vc.returns(name, p):
                        continue
                    vc.frame(name, p)
                    c = sdiv(1, ssub(hi, lo)) if avg else 2
                    vc.equal(name, p, p.value, smul(c, integral(
                        lo, hi, lambda f: smul(g2(f), wat(f)))))


@PROP.unit('mult_weightings')
def u_mult(vc):
    wd = World(vc)
    f, n, m = vc.real('f'), vc.int('n'), vc.int('m')
    w1, w2 = wd.weight('w1'), wd.weight('w2')
    hz, hb = wd.filter('Hz'), wd.filter('Hb', 'nd')
    z1 = wd.filter('Hz1')
    for ws in ([w1], [hz], [w1, w2], [w1, hz], [hz, w1], [hb, hz],
               [hz, z1], [w1, hb, w2], [hz, hb, z1], [w2, hz, w1, hb],
               [w1, w1], [hz, hz, w2]):
        for fn, fv in (('scalar', f), ('array', vc.arr('ff', (n,))),
                       ('matrix', vc.arr('fm', (n, m))),
                       ('one', vc.arr('f1', (1,)))):
            nm = 'mult_weightings(%d factors, %s)%d' % (
                len(ws), fn, len(vc.obs))
            for p in vc.run(lambda ctx: ctx.call(ctx.call(
                    W.mult_weightings, [q[0] for q in ws]), (fv,)),
                    [n >= 2, m >= 1], name=nm, contracts=wd.con):
                if not vc.returns(nm, p):
                    continue
                vc.frame(nm, p)

                def want(x):
                    r = 1
                    for q in ws:
                        r = smul(r, q[1](x))
                    return r
                if fn == 'one' and T.isscalar(p.value):
                    fn, fv = 'scalar', fv.at(0)
                vc.equal(nm, p, p.value, want(fv) if fn == 'scalar' else Arr(
                    fv.shape, lambda ix: want(fv.at(*ix)), 'f'))


@PROP.unit('q0_weighting')
def u_q0(vc):
    wd = World(vc)
    n = vc.int('P')
    eps = vc.real('eps')
    wf = wd.weight('w')
    hz, hb = wd.filter('Hz'), wd.filter('Hb', 'nd')
    for wn, (w, wat) in (('function', wf), ('zpk', hz), ('nd', hb)):
        for kw, opt in (({}, QOPT), ({'quad_opts': {'epsrel': eps}},
                                     dict(QOPT, epsrel=eps))):
            def idh(ctx, Ff, tt, fs=1, **o):
                ctx.oblige('idtft_hermitian gets the options', list(o) == [
                    'quad_opts'] and sameopts(o['quad_opts'], opt))
                ctx.oblige('idtft_hermitian at unit rate', T.same(fs, 1))
                tt = N.asarr(ctx, tt)
                rd = tt.reader()

                def el(ix):
                    v = T.fresh(R, 'fw')
                    y = ctx.merged(lambda: ctx.call(Ff, (smul(v, fs),)))
                    return smul(2, T.mkint(0, F(1, 2), v, smul(
                        T.cx(y).re, scos(ang(v, rd(ix))))))
                return N.mkarr(tt.shape, el, 'f')
            con = dict(wd.con)
            con[id(ft.idtft_hermitian)] = idh
            name = 'q0_weighting(%s, %s)' % (wn, sorted(kw))
            for p in vc.call(W.q0_weighting, (n, w), kw, hyps=[n >= 0],
                             name=name, contracts=con):
                if not vc.returns(name, p):
                    continue
                vc.frame(name, p)
                vc.equal(name, p, p.value, Arr((n + 1,), lambda ix: smul(
                    2, integral(0, F(1, 2), lambda f: smul(
                        wat(f), scos(ang(f, ix[0]))))), 'f'))
    # with idtft_hermitian's body as well (no contract in between)
    for kw, opt in (({}, QOPT), ({'quad_opts': {'epsrel': eps}},
                                 dict(QOPT, epsrel=eps))):
        name = 'q0_weighting through quad(%s)' % sorted(kw)
        for p in vc.call(W.q0_weighting, (n, wf[0]), kw, hyps=[n >= 0],
                         name=name, contracts=wd.con,
                         quad_check=checked(opt)):
            if vc.returns(name, p):
                vc.equal(name, p, p.value, Arr((n + 1,), lambda ix: smul(
                    2, integral(0, F(1, 2), lambda f: smul(
                        wf[1](f), scos(ang(f, ix[0]))))), 'f'))


@PROP.unit('legacy')
def u_legacy(vc):
    n1, n2 = vc.int('n1'), vc.int('n2')
    n = vc.int('P')
    h1, h2 = vc.arr('h1', (n1,)), vc.arr('h2', (n2,))
    cv = vc.arr('cv', (n1 + n2 - 1,), owner=False)
    db = vc.real('db')
    wd = World(vc)
    ntf, H = wd.filter('N')[0], wd.filter('H')[0]

    def imp(ctx, h, m=None, db=80):
        ctx.oblige('impulse response of the NTF or of the filter',
                   h is ntf or h is H)
        ctx.oblige('guessed length', m is None)
        ctx.oblige('decay', T.same(db, want_db[0]))
        return h1 if h is ntf else h2

    def conv(ctx, a, b, mode='full', method='auto'):
        a, b = N.asarr(ctx, a), N.asarr(ctx, b)
        ctx.oblige('full convolution of the two responses', (
            a is h1 and b is h2 or a is h2 and b is h1) and mode == 'full')
        return cv
    con = {id(ir.impulse_response): imp, id(ss.convolve): conv,
           id(np.convolve): conv}
    want_db = [80]
    for kw in ({}, {'H_type': 'zpk'}, {'H_type': 'ba'}, {'H_type': 'imp'},
               {'db': db}, {'H_type': 'ba', 'db': db}):
        want_db[0] = kw.get('db', 80)
        name = 'quantization_noise_gain_by_conv(%s)' % kw
        a = h2 if kw.get('H_type') == 'imp' else H
        for p in vc.call(L.quantization_noise_gain_by_conv, (ntf, a), kw,
                         hyps=[n1 >= 1, n2 >= 1], name=name, contracts=con):
            if vc.returns(name, p):
                vc.frame(name, p)
                vc.equal(name, p, p.value, ssum(0, sadd(n1, n2 - 1), lambda k:
                                                smul(cv.at(k), cv.at(k))))
    want_db[0] = 80
    for p in vc.call(L.quantization_noise_gain_by_conv, (ntf, H),
                     {'H_type': 'other'}, name='bad type', contracts=con):
        vc.raises('bad type', p, ValueError)
    from .C11 import acorr_model
    for k1 in 'fi':
        h1 = vc.arr('h1' + k1, (n1,), k1)
        name = 'q0_from_filter_ir(%s)' % k1
        for p in vc.call(L2.q0_from_filter_ir, (n, h1),
                         hyps=[n1 >= 1, n >= 0], name=name,
                         contracts={id(correlations.raw_acorr): acorr_model}):
            if vc.returns(name, p):
                vc.frame(name, p)
                vc.equal(name, p, p.value, Arr((n + 1,), lambda ix: ite(
                    slt(ix[0], n1), ssum(0, ssub(n1, ix[0]), lambda j: smul(
                        h1.at(sadd(ix[0], j)), h1.at(j))), 0), 'f'))


# ------------------------------------------------------------------- run time
def rfilter(d, kind=None, n=None):
    n = int(d.rng.integers(0, 5)) if n is None else n
    z = np.exp(1j * d.rng.uniform(0, 3, n // 2))
    p = d.rng.uniform(.1, .8) * np.exp(1j * d.rng.uniform(0, 3, n // 2))
    z, p = [np.concatenate((q, q.conj(), [r] * (n % 2)))
            for q, r in ((z, .9), (p, -.4))]
    k = float(d.rng.uniform(.3, 2))
    kind = kind or ('zpk', 'nd')[int(d.rng.integers(2))]
    H = lambda f: k * np.prod([np.exp(2j * np.pi * f) - q for q in z]) / \
        np.prod([np.exp(2j * np.pi * f) - q for q in p])
    if kind == 'zpk':
        return (z, p, k), H
    return (np.atleast_1d(np.real(k * np.poly(z))),
            np.atleast_1d(np.real(np.poly(p)))), H


def rweight(d):
    a, b = d.rng.uniform(.2, 1, 2)
    return (lambda f: a + b * np.cos(2 * np.pi * f) ** 2), (
        lambda f: a + b * np.cos(2 * np.pi * f) ** 2)


def rany(d):
    if d.rng.random() < .5:
        return rweight(d)
    h, H = rfilter(d)
    return h, lambda f: abs(H(f)) ** 2


def simpson(g, a, b, n=2000):
    x = np.linspace(a, b, n + 1)
    y = np.array([g(t) for t in x])
    w = np.ones(n + 1)
    w[1:-1:2], w[2:-1:2] = 4, 2
    return np.sum(w * y) * (b - a) / n / 3


@PROP.dyn('quantization_noise_gain')
def d_gain(d):
    while d.more() and d.n < d.top(40):
        ntf, H = rfilter(d)
        w, wf = rany(d) if d.rng.random() < .8 else (None, lambda f: 1.)
        lo = float(d.rng.choice([0, .1]))
        hi = float(d.rng.choice([.5, .23]))
        avg = bool(d.rng.random() < .4)
        d.case(NTF=ntf, w=w, bounds=(lo, hi), avg=avg)
        v = simpson(lambda f: abs(H(f)) ** 2 * wf(f), lo, hi) * (
            1 / (hi - lo) if avg else 2)
        d.close(M.quantization_noise_gain(ntf, w, (lo, hi), avg), v,
                'noise gain', 1e-5, 1e-9)
        if (lo, hi) == (0, .5) and not avg:
            d.close(M.quantization_noise_gain(ntf, w), v,
                    'noise gain, defaults', 1e-5, 1e-9)
        d.close(M.quantization_noise_gain(
            ntf, w, (lo, hi), avg, quad_opts={'epsabs': 1e-8, 'limit': 200}),
            v, 'noise gain, options', 1e-5, 1e-7)


@PROP.dyn('mult_weightings')
def d_mult(d):
    while d.more() and d.n < d.top(200):
        ws = [rany(d) for _ in range(int(d.rng.integers(1, 5)))]
        g = W.mult_weightings(*[w[0] for w in ws])
        ff = d.rng.uniform(0, .5, int(d.rng.integers(1, 5)))
        d.case(ww=[w[0] for w in ws], f=ff)
        want = np.array([np.prod([w[1](f) for w in ws]) for f in ff])
        d.close(np.reshape(g(ff), -1), want, 'array', 1e-7, 1e-10)
        d.close(g(float(ff[0])), want[0], 'scalar', 1e-7, 1e-10)


@PROP.dyn('q0_weighting')
def d_q0(d):
    while d.more() and d.n < d.top(25):
        w, wf = rany(d)
        n = int(d.rng.integers(0, 6))
        d.case(P=n, w=w)
        want = [2 * simpson(lambda f: wf(f) * np.cos(2 * np.pi * f * k),
                            0, .5, 800) for k in range(n + 1)]
        d.close(W.q0_weighting(n, w), want, 'q0', 1e-5, 1e-6)
        d.close(W.q0_weighting(n, w, quad_opts={'limit': 60}), want,
                'q0 with options', 1e-5, 1e-6)


@PROP.dyn('legacy')
def d_legacy(d):
    while d.more() and d.n < d.top(40):
        ntf, N_ = rfilter(d, 'zpk')
        H, Hf = rfilter(d, 'zpk')
        d.case(NTF=ntf, H=H)
        v = 2 * simpson(lambda f: abs(N_(f) * Hf(f)) ** 2, 0, .5)
        d.close(L.quantization_noise_gain_by_conv(ntf, H, db=120), v,
                'by convolution', 1e-3, 1e-6)
        h = d.rng.standard_normal(int(d.rng.integers(1, 8)))
        v = 2 * simpson(lambda f: abs(N_(f)) ** 2 * abs(np.sum(h * np.exp(
            -2j * np.pi * f * np.arange(len(h))))) ** 2, 0, .5)
        d.close(L.quantization_noise_gain_by_conv(ntf, h, 'imp', db=120), v,
                'by convolution, FIR', 1e-3, 1e-6)
        n = int(d.rng.integers(0, len(h) + 4))
        d.close(L2.q0_from_filter_ir(n, h), [np.sum(
            h[k:] * h[:max(len(h) - k, 0)]) for k in range(n + 1)], 'q0',
            1e-8, 1e-9)
        d.raises(ValueError, L.quantization_noise_gain_by_conv, ntf, h, 'x')
