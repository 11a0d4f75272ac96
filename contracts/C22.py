"""C22: numeric helpers."""
from .base import *
from pydsm import utilities as U, relab
from pydsm.delsig import _rms as MR, _rmsGain as MG, _tf
import pydsm.delsig as D

PROP = Prop('C22')
EPS = F(1, 2 ** 52)


def shapes(vc, kind):
    n, m = vc.int('n'), vc.int('m')
    a = vc.arr('x1' + kind, (n,), kind)
    b = vc.arr('x2' + kind, (n, m), kind)
    x = vc.real('x') if kind == 'f' else Cx(vc.real('xr'), vc.real('xi'))
    return [('scalar', x, (), []), ('vector', a, (n,), [n >= 0]),
            ('matrix', b, (n, m), [n >= 0, m >= 0])]


def mag2(t):
    return sadd(smul(t.re, t.re), smul(t.im, t.im))


@PROP.unit('is_negligible')
def u_negl(vc):
    tol = vc.real('tol')
    for kind in 'fc':
        for nm, x, shp, dims in shapes(vc, kind):
            for args, tt in (((tol,), tol), ((), T.fromfloat(100*np.finfo(float).eps))):
                name = 'is_negligible(%s %s%s)' % (kind, nm,
                                                   ', tol' * len(args))
                for p in vc.call(U.is_negligible, (x,) + args,
                                 hyps=dims + [tol > 0], name=name):
                    if not vc.returns(name, p):
                        continue
                    vc.frame(name, p)
                    sp = lambda t: slt(sabs(t), tt)
                    w = sp(x) if shp == () else Arr(
                        shp, lambda ix, r=x.reader(): sp(r(ix)), 'b')
                    vc.equal(name + ' = |x| < tol', p, p.value, w)


@PROP.unit('chop')
def u_chop(vc):
    tol = vc.real('tol')

    def c1(t, tt):
        return ite(slt(sabs(t), tt), F(0), t)
    for kind in 'fc':
        for nm, x, shp, dims in shapes(vc, kind):
            for args, tt in (((tol,), tol), ((), T.fromfloat(100*np.finfo(float).eps))):
                name = 'chop(%s %s%s)' % (kind, nm, ', tol' * len(args))
                for p in vc.call(U.chop, (x,) + args,
                                 hyps=dims + [tol > 0], name=name):
                    if not vc.returns(name, p):
                        continue
                    vc.frame(name, p)
                    sp = (lambda t: c1(t, tt)) if kind == 'f' else (
                        lambda t: Cx(c1(t.re, tt), c1(t.im, tt)))
                    w = Arr((), lambda ix: sp(x), kind) if shp == () else \
                        Arr(shp, lambda ix, r=x.reader(): sp(r(ix)), kind)
                    if shp == () and not isarr(p.value):
                        w = sp(x)
                    vc.equal(name, p, p.value, w)


@PROP.unit('mdot')
def u_mdot(vc):
    class M:
        pass

    def dot(ctx, a, b, *k):
        return P.Opaque('dot', (a, b))

    def show(v):
        return v.name if not v.args else '(%s.%s)' % tuple(
            show(q) for q in v.args)
    for n in range(1, 7):
        ms = [P.Opaque('M%d' % j) for j in range(n)]
        want = ms[0]
        for q in ms[1:]:
            want = P.Opaque('dot', (want, q))
        for p in vc.call(U.mdot, tuple(ms), contracts={id(np.dot): dot},
                         name='mdot/%d' % n):
            if vc.returns('mdot', p):
                vc.holds('mdot of %d = %s' % (n, show(want)), isinstance(
                    p.value, P.Opaque) and show(p.value) == show(want),
                    'got %r' % (p.value,))


@PROP.unit('eps')
def u_eps(vc):
    x = vc.real('x')
    for p in vc.call(relab.eps, (x,), name='eps(x)'):
        if vc.returns('eps(x)', p):
            vc.equal('eps(x) = EPS |x|', p, p.value, smul(EPS, sabs(x)))
    for p in vc.call(relab.eps, (), name='eps()'):
        if vc.returns('eps()', p):
            vc.equal('eps() = EPS', p, p.value, EPS)
    for ty, v in ((float, EPS), (np.float32, None), (np.float64, EPS)):
        for p in vc.call(relab.eps, (ty,), name='eps(%s)' % ty.__name__):
            if vc.returns('eps(type)', p):
                w = v if v is not None else F(1, 2 ** 23)
                vc.equal('eps(%s)' % ty.__name__, p, p.value, w)
    for shp in ((0,), (1,), (3,), (2, 2)):
        a = vc.arr('a%d' % len(shp), shp)
        name = 'eps(array %s)' % (shp,)
        for p in vc.call(relab.eps, (a,), name=name):
            if vc.returns(name, p):
                vc.frame(name, p)
                vc.equal(name, p, p.value, Arr(
                    shp, lambda ix: smul(EPS, sabs(a.at(*ix))), 'f'))
    l = [vc.real('l%d' % j) for j in range(3)]
    for p in vc.call(relab.eps, (list(l),), name='eps(list)'):
        if vc.returns('eps(list)', p):
            vc.equal('eps(list)', p, p.value, [smul(EPS, sabs(t))
                                               for t in l])


@PROP.unit('rms')
def u_rms(vc):
    n = vc.int('n')
    for kind in 'fc':
        a = vc.arr('a' + kind, (n,), kind)
        for name, args in (('rms', ()), ('rms no_dc=False', (False,)),
                           ('rms no_dc', (True,))):
            name += {'f': '', 'c': ', complex'}[kind]
            for p in vc.call(MR.rms, (a,) + args, hyps=[n >= 1], name=name):
                if not vc.returns(name, p):
                    continue
                vc.frame(name, p)
                mean = sdiv(ssum(0, n, lambda j: a.at(j)), n) \
                    if args == (True,) else F(0)

                def sq(j):
                    t = ssub(a.at(j), mean)
                    return mag2(t) if kind == 'c' else spow(t, 2)
                tot = T.real(ssum(0, n, sq))
                # rms >= 0 and rms**2 = mean square
                pos = [T.lit(sge(tot, F(0)))]
                vc.equal(name + '^2 = mean square', p,
                         smul(p.value, p.value), sdiv(tot, n), extra=pos)
                vc.ob(name + ' >= 0', p.hyps + pos, sge(p.value, 0))


@PROP.unit('rmsGain')
def u_gain(vc):
    # |H(exp(jw))| by contract of evalTF: an arbitrary magnitude response
    G = z3.Function('Hmag', R, R)
    f1, f2, Nn = vc.real('f1'), vc.real('f2'), vc.int('N')
    H = ('zeros', 'poles', 'gain')

    def evaltf(ctx, tf, x):
        x = N.asarr(ctx, x)
        ctx.oblige('evalTF gets the transfer function', tf is H)
        # the argument must be on the unit circle: exp(j w)
        w = x.expj if hasattr(x, 'expj') else None
        return Arr(x.shape, lambda ix: Cx(G(T.nfexpr(T.real(_angle(
            x.at(*ix))))), F(0)), 'c')

    def _angle(c):
        # x = cos(t) + j sin(t): recover t
        t = c.re
        if T.isz(t) and T.ufname(t) == 'cos' and T.isz(c.im):
            u = t.arg(0)
            s = c.im
            neg = False
            for cand in (u, -u):
                if T.same(T.nfexpr(T.real(ssin(cand))), T.nfexpr(T.real(s))):
                    return cand
        if T.same(t, 1) and T.same(c.im, 0):
            return F(0)
        raise Unsupported('not on the unit circle: %s' % (c,))
    for name, args, nn, hy in (('rmsGain', (Nn,), Nn, [Nn >= 2]),
                               ('rmsGain default N', (), 100, [])):
        for p in vc.call(MG.rmsGain, (H, f1, f2) + args,
                         hyps=hy + [f1 >= 0, f2 > f1],
                         contracts={id(_tf.evalTF): evaltf}, name=name):
            if not vc.returns(name, p):
                continue

            def term(j):
                f = sadd(f1, sdiv(smul(j, ssub(f2, f1)), ssub(nn, 1)))
                g = G(T.nfexpr(T.real(smul(smul(2, PI), f))))
                return smul(g, g)
            tot = ssum(0, nn, term, None)
            pos = [T.lit(sge(T.real(tot), F(0)))]
            vc.equal(name + '^2 = mean of |H|^2 over N points', p,
                     smul(p.value, p.value), sdiv(tot, nn), extra=pos)
            vc.ob(name + ' >= 0', p.hyps + pos, sge(p.value, 0))


# ------------------------------------------------------------------- run time
def anyarr(d, cplx=True):
    r = d.rng
    shp = [(), (1,), (4,), (2, 3), (0,), (3, 1, 2)][r.integers(0, 6)]
    x = r.standard_normal(shp) * 10.0 ** r.integers(-18, 3, shp)
    if cplx and r.random() < .4:
        x = x + 1j * r.standard_normal(shp) * 10.0 ** r.integers(-18, 3, shp)
    if r.random() < .3:
        x = np.asarray(x).tolist()
    return x


@PROP.dyn('chop')
def d_chop(d):
    import copy
    e = np.finfo(float).eps
    while d.more() and d.n < d.top(600):
        x = anyarr(d)
        tol = [None, 1e-3, 1e-12, 10.][d.rng.integers(0, 4)]
        d.case(x=x, tol=tol)
        k = copy.deepcopy(x)
        y = U.chop(x) if tol is None else U.chop(x, tol)
        g = U.is_negligible(x) if tol is None else U.is_negligible(x, tol)
        t = 100 * e if tol is None else tol
        a = np.asarray(x)
        if np.iscomplexobj(a):
            w = np.where(np.abs(a.real) < t, 0, a.real) + 1j * np.where(
                np.abs(a.imag) < t, 0, a.imag)
        else:
            w = np.where(np.abs(a) < t, 0, a)
        d.close(y, w, 'chop', 0, 0)
        d.close(g, np.abs(a) < t, 'is_negligible', 0, 0)
        d.expect(np.array_equal(np.asarray(k), a), 'argument modified')
        if isinstance(x, np.ndarray):
            d.expect(not np.shares_memory(x, y), 'the result is not a copy')


@PROP.dyn('eps')
def d_eps(d):
    e = np.finfo(float).eps
    d.case(x='types')
    d.close(relab.eps(), e, 'eps()')
    d.close(relab.eps(np.float32), np.finfo(np.float32).eps, 'float32')
    d.close(relab.eps(np.dtype(float)), e, 'dtype')
    while d.more() and d.n < d.top(300):
        x = anyarr(d, False)
        d.case(x=x)
        d.close(relab.eps(x), e * np.abs(np.asarray(x)), 'eps', 1e-12, 0)
        y = np.asarray(x, dtype=np.float32)
        if y.ndim:
            d.close(relab.eps(y), np.finfo(np.float32).eps * np.abs(y),
                    'eps of float32', 1e-5, 0)


@PROP.dyn('mdot')
def d_mdot(d):
    while d.more() and d.n < d.top(200):
        r = d.rng
        n = r.integers(1, 7)
        dims = r.integers(1, 5, n + 1)
        ms = [r.standard_normal((dims[j], dims[j + 1])) for j in range(n)]
        d.case(ms=ms)
        w = ms[0]
        for m in ms[1:]:
            w = w @ m
        d.close(U.mdot(*ms), w, 'mdot', 1e-9, 1e-9)


@PROP.dyn('rms')
def d_rms(d):
    import math
    while d.more() and d.n < d.top(300):
        r = d.rng
        x = r.standard_normal(r.integers(1, 30)) * 3 + r.standard_normal()
        kind = r.integers(0, 5)
        if kind == 0:
            x = x + 1j * (r.standard_normal(len(x)) - 2)
        elif kind == 1:
            x = np.round(100 * x).astype(
                [np.int64, np.int32, np.int16][r.integers(0, 3)])
        elif kind == 2:
            x = x * 10. ** r.integers(-100, 100)
        f = x.tolist() if r.random() < .3 else x
        d.case(x=f)
        k = np.array(x)
        u = [complex(t) for t in x]
        m = sum(u) / len(u)
        ms = lambda u: math.sqrt(sum(t.real ** 2 + t.imag ** 2
                                     for t in u) / len(u))
        e = 1e-9 * max(map(abs, u))
        d.close(D.rms(f), ms(u), 'rms')
        d.close(D.rms(f, False), ms(u), 'rms')
        w = ms([t - m for t in u])
        d.close(D.rms(f, True), w, 'rms no dc', 1e-9, e)
        d.close(D.rms(x, no_dc=True), w, 'rms no dc', 1e-9, e)
        d.expect(np.array_equal(k, x), 'argument modified')


@PROP.dyn('rmsGain')
def d_gain(d):
    import cmath
    import math
    while d.more() and d.n < d.top(150):
        r = d.rng
        z = r.standard_normal(3) + 1j * r.standard_normal(3)
        p = .5 * np.exp(2j * np.pi * r.random(3))
        k = float(r.choice([1., .5, -2]))
        f1, f2 = sorted(r.random(2) / 2)
        Nn = int(r.choice([2, 3, 17, 100, 101]))
        d.case(z=z, p=p, k=k, f1=f1, f2=f2, N=Nn)
        acc = 0
        for j in range(Nn):
            e = cmath.exp(2j * math.pi * (f1 + (f2 - f1) * j / (Nn - 1)))
            h = k
            for q in z:
                h *= e - q
            for q in p:
                h /= e - q
            acc += abs(h) ** 2
        d.close(D.rmsGain((z, p, k), f1, f2, Nn), math.sqrt(acc / Nn),
                'rmsGain', 1e-8)
        if Nn == 100:
            d.close(D.rmsGain((z, p, k), f1, f2), math.sqrt(acc / Nn),
                    'rmsGain', 1e-8)
