"""Fourier and correlation helpers.  Proved for vectors of any length, any
frequency, sampling frequency and time offset: the DTFTs are the defining sums,
the inverse DTFTs hand scipy's quad exactly the defining integrands over one
period (half a period, doubled, for hermitian spectra), the centred FFT pairs
its k-th value with the DTFT at its k-th frequency, and the raw correlations
are the defining sums.  scipy's fft (the discrete Fourier sum, periodic in its
index), fftshift and quad (the integral) are assumed contracts.  That the
inverse DTFT undoes the DTFT is then Fourier orthogonality; it is checked at
run time only."""
from .base import *
import scipy.integrate
from pydsm import ft as M
from pydsm import correlations as Q
from pydsm import utilities as U

PROP = Prop('C11')


def cexp(th):
    return Cx(scos(th), ssin(th))


def csum(n, f):
    return T.cx(ssum(0, n, f))


def ang(f, t):
    return smul(smul(smul(2, PI), f), t)


@PROP.unit('dtft')
def u_dtft(vc):
    n, f, fs, t0 = vc.int('n'), vc.real('f'), vc.real('fs'), vc.real('t0')
    h = [n >= 1, fs > 0]
    for kind in 'fci':
        x = vc.arr('x' + kind, (n,), kind)
        for kw, F_, t in (({}, 1, 0), ({'fs': fs}, fs, 0),
                          ({'fs': fs, 't0': t0}, fs, t0), ({'t0': t0}, 1, t0)):
            name = 'dtft(%s, %s)' % (kind, sorted(kw))
            for p in vc.run(lambda ctx: ctx.call(
                    ctx.call(M.dtft, (x,), kw), (f,)), h, name=name):
                if vc.returns(name, p):
                    vc.frame(name, p)
                    vc.equal(name, p, p.value, csum(n, lambda k: smul(
                        T._arith(x.at(k)), cexp(sneg(ang(
                            sdiv(f, F_), ssub(k, t)))))))
    for kind in 'fci':
        x = vc.arr('x' + kind, (n,), kind)
        re = lambda k: x.at(k).re if kind == 'c' else x.at(k)
        for kw, F_ in (({}, 1), ({'fs': fs}, fs)):
            name = 'dtft_hermitian(%s, %s)' % (kind, sorted(kw))
            for p in vc.run(lambda ctx: ctx.call(
                    ctx.call(M.dtft_hermitian, (x,), kw), (f,)), h,
                    name=name):
                if vc.returns(name, p):
                    vc.frame(name, p)
                    vc.equal(name, p, p.value, sadd(re(0), ssum(
                        0, ssub(n, 1), lambda k: smul(smul(2, re(
                            sadd(k, 1))), scos(ang(sdiv(f, F_),
                                                   sadd(k, 1)))))))


def spectrum(vc):
    fr, fi = vc.fn('Ff.re', dom=R), vc.fn('Ff.im', dom=R)

    def Ff(f):
        raise AssertionError
    at = lambda f: Cx(fr(T.real(f)), fi(T.real(f)))
    return Ff, at, {id(Ff): lambda ctx, f: at(f)}


def integral(lo, hi, f):
    v = T.fresh(R, 'fw')
    return T.mkint(lo, hi, v, f(v))


def checked(want):
    def chk(ctx, opts):
        ctx.oblige('the options given are passed to quad',
                   sameopts(opts, want))
    return chk


def sameopts(a, b):
    if sorted(a) != sorted(b):
        return False
    for k in a:
        if T.isscalar(a[k]) and T.isscalar(b[k]):
            if not T.same(a[k], b[k]):
                return False
        elif not (a[k] is b[k] or a[k] == b[k]):
            return False
    return True


@PROP.unit('idtft')
def u_idtft(vc):
    t, fs = vc.real('t'), vc.real('fs')
    n = vc.int('n')
    Ff, at, con = spectrum(vc)

    def full(tt, F_):
        g = lambda f: smul(at(smul(f, F_)), cexp(ang(f, tt)))
        return Cx(integral(F(-1, 2), F(1, 2), lambda f: g(f).re),
                  integral(F(-1, 2), F(1, 2), lambda f: g(f).im))

    def herm(tt, F_):
        return smul(2, integral(0, F(1, 2), lambda f: smul(
            at(smul(f, F_)).re, scos(ang(f, tt)))))
    eps = vc.real('epsabs')
    for fn, spec in ((M.idtft, full), (M.idtft_hermitian, herm)):
        dflt = {'epsabs': F(1, 10**12), 'epsrel': F(1, 10**9), 'limit': 100,
                'points': None}
        for kw, F_, want in (({}, 1, dflt), ({'fs': fs}, fs, dflt),
                             ({'fs': fs, 'quad_opts': {'epsabs': eps,
                                                       'limit': 7}}, fs,
                              dict(dflt, epsabs=eps, limit=7))):
            name = '%s(t, %s)' % (fn.__name__, sorted(kw))
            o = dict(contracts=con, quad_check=checked(want))
            for p in vc.call(fn, (Ff, t), kw, hyps=[fs > 0], name=name, **o):
                if vc.returns(name, p):
                    vc.equal(name, p, p.value, spec(t, F_))
            for kind in 'if':
                tt = vc.arr('tt' + kind, (n,), kind)
                nm = name + ' array ' + kind
                for p in vc.call(fn, (Ff, tt), kw, hyps=[fs > 0, n >= 1],
                                 name=nm, **o):
                    if vc.returns(nm, p):
                        vc.frame(nm, p)
                        w = spec(0, F_)
                        vc.equal(nm, p, p.value, Arr(
                            (n,), lambda ix: spec(tt.at(*ix), F_),
                            'c' if isinstance(w, Cx) else 'f'))
            tl = [vc.real('ta'), vc.real('tb'), 3]
            nm = name + ' list'
            for p in vc.call(fn, (Ff, tl), kw, hyps=[fs > 0], name=nm, **o):
                if vc.returns(nm, p):
                    vc.equal(nm, p, p.value, [spec(q, F_) for q in tl])
    # lemma: for a real spectrum-symmetric function the half integral is exact
    # (the hermitian integrand is even, the imaginary part odd): stated on the
    # integrands
    f, a, b = vc.real('f'), vc.real('a'), vc.real('b')
    vc.ob('lemma: folded integrands add up', [], seq(
        sadd(smul(Cx(a, b), cexp(ang(f, t))).re,
             smul(Cx(a, sneg(b)), cexp(sneg(ang(f, t)))).re),
        smul(2, smul(Cx(a, b), cexp(ang(f, t))).re)))


@PROP.unit('fft_centered')
def u_fft(vc):
    h1, h2, fs = vc.int('h1'), vc.int('h2'), vc.real('fs')
    for par, h, n, hy in (('even', h1, 2 * h1, [h1 >= 1]),
                          ('odd', h2, 2 * h2 + 1, [h2 >= 0])):
        for kind in 'fc':
            x = vc.arr('x' + kind, (n,), kind)
            for kw, F_ in (({}, 1), ({'fs': fs}, fs)):
                name = 'fft_centered(%s, %s, %s)' % (par, kind, sorted(kw))
                for p in vc.call(M.fft_centered, (x,), kw,
                                 hyps=hy + [fs > 0], name=name):
                    if not vc.returns(name, p):
                        continue
                    vc.frame(name, p)
                    if not vc.holds(name + ' is a pair', isinstance(
                            p.value, tuple) and len(p.value) == 2):
                        continue
                    ff, X = p.value
                    vc.equal(name + ' axis', p, ff, Arr(
                        (n,), lambda ix: sdiv(smul(ssub(ix[0], h), F_), n),
                        'f'))
                    vc.equal(name + ' is the DTFT there', p, X, Arr(
                        (n,), lambda ix: csum(n, lambda k: smul(
                            T._arith(x.at(k)), cexp(sneg(ang(sdiv(
                                ssub(ix[0], h), n), k))))), 'c'))


@PROP.unit('correlations')
def u_corr(vc):
    m, my, n = vc.int('m'), vc.int('my'), vc.int('N')
    for kind in 'fi':
        x, y = vc.arr('x' + kind, (m,), kind), vc.arr('y' + kind, (my,), kind)
        name = 'raw_acorr ' + kind
        for p in vc.call(Q.raw_acorr, (x, n), hyps=[0 <= n, n <= m],
                         name=name):
            if vc.returns(name, p):
                vc.frame(name, p)
                vc.equal(name, p, p.value, Arr((n + 1,), lambda ix: ssum(
                    0, ssub(m, ix[0]), lambda j: smul(
                        x.at(sadd(j, ix[0])), x.at(j))), kind))
        name = 'raw_xcorr ' + kind
        for p in vc.call(Q.raw_xcorr, (x, y, n),
                         hyps=[0 <= n, n <= m, my >= 0], name=name):
            if vc.returns(name, p):
                vc.frame(name, p)
                vc.equal(name, p, p.value, Arr((n + 1,), lambda ix: ssum(
                    0, T.smin(ssub(m, ix[0]), my), lambda j: smul(
                        x.at(sadd(j, ix[0])), y.at(j))), kind))


def acorr_model(ctx, x, N_):
    """the contract of raw_acorr, for callers"""
    x = N.asarr(ctx, x)
    m, rd = x.shape[0], x.reader()
    ctx.oblige('raw_acorr: 0 <= N <= len(x)', sand(sle(0, N_), sle(N_, m)))
    return Arr((sadd(N_, 1),), lambda ix: ssum(
        0, ssub(m, ix[0]), lambda j: smul(rd((sadd(j, ix[0]),)), rd((j,)))),
        x.kind)


# ------------------------------------------------------------------- run time
def randx(d, cplx=True):
    n = int(d.rng.integers(1, 12))
    x = d.rng.standard_normal(n)
    if cplx and d.rng.random() < .5:
        x = x + 1j * d.rng.standard_normal(n)
    return x


@PROP.dyn('dtft')
def d_dtft(d):
    while d.more() and d.n < d.top(400):
        x = randx(d)
        if d.rng.random() < .3:
            x = np.round(5 * x.real).astype(int)
        fs = float(d.rng.choice([1, 2, 48000., .5, 1e-3]))
        t0 = float(d.rng.choice([0, 1, 2.5, -3]))
        f = float(d.rng.uniform(-2, 2)) * fs
        x0 = x.copy()
        d.case(x=x, fs=fs, t0=t0, f=f)
        w = sum(x[k] * np.exp(-2j * np.pi * f / fs * (k - t0))
                for k in range(len(x)))
        d.close(M.dtft(x, fs=fs, t0=t0)(f), w, 'dtft', 1e-8, 1e-8)
        w = x[0].real + 2 * sum(
            x[k].real * np.cos(2 * np.pi * f / fs * k)
            for k in range(1, len(x)))
        d.close(M.dtft_hermitian(x, fs=fs)(f), w, 'dtft_hermitian',
                1e-8, 1e-8)
        d.expect(np.array_equal(x, x0), 'the argument is modified')


@PROP.dyn('idtft')
def d_idtft(d):
    while d.more() and d.n < d.top(120):
        x = randx(d)
        if d.n % 3 == 0:
            x = x.real
        fs = float(d.rng.choice([1, 2, 48000., .5]))
        tt = np.arange(-2, len(x) + 2)
        w = np.where((tt >= 0) & (tt < len(x)),
                     x[np.clip(tt, 0, len(x) - 1)], 0)
        d.case(x=x, fs=fs)
        d.close(M.idtft(M.dtft(x, fs=fs), tt, fs=fs), w,
                'idtft undoes dtft', 1e-6, 1e-7)
        k = int(d.rng.integers(0, len(tt)))
        d.close(M.idtft(M.dtft(x, fs=fs), int(tt[k]), fs=fs), w[k],
                'idtft at a single time', 1e-6, 1e-7)
        h = x.real
        wh = np.where(np.abs(tt) < len(x),
                      h[np.clip(np.abs(tt), 0, len(x) - 1)], 0)
        d.close(M.idtft_hermitian(M.dtft_hermitian(h, fs=fs), tt, fs=fs), wh,
                'idtft_hermitian undoes dtft_hermitian', 1e-6, 1e-7)
        d.close(M.idtft_hermitian(M.dtft_hermitian(h, fs=fs), 1, fs=fs),
                wh[3], 'idtft_hermitian at a single time', 1e-6, 1e-7)
        t = float(d.rng.uniform(-2, 3))
        z = np.exp(2j * np.pi * np.linspace(-.5, .5, 4001) * t)
        g = np.array([M.dtft(x)(q) for q in np.linspace(-.5, .5, 4001)]) * z
        d.close(M.idtft(M.dtft(x), [t]), [np.trapezoid(
            g, dx=1 / 4000) if hasattr(np, 'trapezoid') else np.trapz(
                g, dx=1 / 4000)], 'idtft at a fractional time', 1e-3, 1e-3)


@PROP.dyn('fft_centered')
def d_fft(d):
    while d.more() and d.n < d.top(300):
        x = randx(d)
        n = len(x)
        fs = float(d.rng.choice([1, 2, 48000., .5, 7]))
        d.case(x=x, fs=fs)
        ff, X = M.fft_centered(x, fs)
        d.close(ff, (np.arange(n) - n // 2) * fs / n, 'axis', 1e-9, 1e-12)
        k = np.arange(n)
        d.close(X, [sum(x * np.exp(-2j * np.pi * f / fs * k)) for f in ff],
                'value at its frequency', 1e-8, 1e-8)
        if fs == 1:
            d.close(M.fft_centered(x)[1], X, 'default fs')


@PROP.dyn('correlations')
def d_corr(d):
    while d.more() and d.n < d.top(400):
        x, y = randx(d, False), randx(d, False)
        if d.rng.random() < .3:
            x, y = np.round(4 * x), np.round(4 * y)
        n = int(d.rng.integers(0, len(x) + 1))
        d.case(x=x, y=y, N=n)
        d.close(Q.raw_acorr(x, n), [sum(
            x[i] * x[i - k] for i in range(k, len(x)))
            for k in range(n + 1)], 'raw_acorr', 1e-8, 1e-9)
        d.close(Q.raw_xcorr(x, y, n), [sum(
            x[i] * y[i - k] for i in range(k, min(len(x), len(y) + k)))
            for k in range(n + 1)], 'raw_xcorr', 1e-8, 1e-9)
