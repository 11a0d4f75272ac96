"""Audio weightings: each function equals its published rational curve (proved
for every frequency >= 0, scalar and array of any length), and the zero/pole
forms have the same squared magnitude up to a constant, with all poles in the
open left half plane."""
from .base import *
from pydsm import audio_weightings as AW

PROP = Prop('C15')


def sq(x):
    return F(x) ** 2


def cs(f2, re, im):
    """|j f - (re + j im)|^2 |j f - (re - j im)|^2"""
    r, i = F(re), F(im)
    return sadd(spow(ssub(r * r + i * i, f2), 2), smul(4 * r * r, f2))


def prod(*xs):
    r = F(1)
    for x in xs:
        r = smul(r, x)
    return r


def rational(n, f):
    """squared magnitude (numerator, denominator), un-normalized"""
    s = smul(f, f)
    p = lambda x: sadd(s, sq(x))
    if n == 'a':
        return (smul(F(12200) ** 4, spow(s, 4)),
                prod(spow(p('20.6'), 2), p('107.7'), p('737.9'),
                     spow(p('12200'), 2)))
    if n == 'b':
        return (smul(F(12200) ** 4, spow(s, 3)),
                prod(spow(p('20.6'), 2), p('158.5'), spow(p('12200'), 2)))
    if n == 'c':
        return (smul(F(12200) ** 4, spow(s, 2)),
                prod(spow(p('20.6'), 2), spow(p('12200'), 2)))
    if n == 'd':
        return (prod(s, 1 / F('6.8966888496476E-5') ** 2,
                     cs(s, '519.8', '876.2')),
                prod(cs(s, 1712, 2628), p('282.7'), p(1160)))
    s = sdiv(s, 10 ** 6)
    p = lambda x: sadd(s, sq(x))
    return (prod(F('2.536e-5'), spow(s, 3), cs(s, '0.58', '1.03'),
                 spow(cs(s, '3.18', '8.75'), 3), F(10) ** 100),
            prod(spow(p('0.18'), 3), spow(p('1.63'), 2),
                 spow(cs(s, '2.51', '3.85'), 4),
                 spow(cs(s, '6.62', '14.29'), 20)))


def mk(nm):
    fn = getattr(AW, nm + '_weighting')

    def u_curve(vc):
        f, n = vc.real('f'), vc.int('n')
        a = vc.arr('fa', (n,))
        k = T.fresh(I, 'k')
        num0, den0 = rational(nm, F(1000))
        for arg, el, hy, tag in (
                (f, f, [f >= 0], 'scalar'),
                (a, a.at(k), [n >= 0, k >= 0, k < n, a.at(k) >= 0],
                 'array')):
            num, den = rational(nm, el)
            raw = sdiv(num, den)
            for normal in (None, True, False):
                ref = raw if normal is False or nm == 'd' else \
                    sdiv(raw, sdiv(num0, den0))
                for power in (None, True, False):
                    kw = {}
                    if normal is not None:
                        kw['normal'] = normal
                    if power is not None:
                        kw['power'] = power
                    name = '%s_weighting(%s, %s)' % (nm, tag, kw)
                    for p in vc.call(fn, (arg,), kw, hyps=hy, name=name):
                        if not vc.returns(name, p):
                            continue
                        vc.frame(name, p)
                        v = p.value
                        if tag == 'array':
                            if not vc.holds(name + ' is a vector', isarr(v)
                                            and v.ndim == 1):
                                continue
                            vc.ob(name + ' length', p.hyps,
                                  seq(v.shape[0], n))
                            v = v.at(k)
                        if power is False:
                            vc.equal(name + ': square is the power curve',
                                     p, smul(v, v), ref)
                            vc.ob(name + ' >= 0', p.hyps, sge(v, 0))
                        else:
                            vc.equal(name, p, v, ref)
        for power in (True, False):
            name = '%s_weighting(1000, power=%s)' % (nm, power)
            for p in vc.call(fn, (1000,), dict(power=power), name=name):
                if vc.returns(name, p):
                    if nm == 'd':
                        vc.ob(name + ' = 1', p.hyps, sand(
                            sgt(p.value, F('0.9999')),
                            slt(p.value, F('1.0001'))))
                    else:
                        vc.equal(name + ' = 1', p, p.value, F(1))

    def u_zpk(vc):
        f = vc.real('f')
        paths = vc.run(lambda ctx: ctx.global_(AW, nm + '_zpk'),
                       name=nm + '_zpk')
        for pth in paths:
            z, p, k = pth.value
            cr = lambda a: [T.cx(a.at(j)) for j in range(a.shape[0])]
            zs, ps = cr(z), cr(p)

            def mag2(x):
                w = smul(smul(2, PI), x)
                acc, den = smul(T.cx(k).re, T.cx(k).re), F(1)
                t = lambda q: sadd(smul(q.re, q.re),
                                   spow(ssub(w, q.im), 2))
                for q in zs:
                    acc = smul(acc, t(q))
                for q in ps:
                    den = smul(den, t(q))
                return acc, den
            for j, q in enumerate(ps):
                vc.ob('%s_zpk pole %d is stable' % (nm, j), [],
                      slt(q.re, 0))
            vc.ob('%s_zpk gain is positive' % nm, [], sgt(k, 0))
            n1, d1 = mag2(f)
            n0, d0 = mag2(F(1000))
            rn, rd = rational(nm, f)
            rn0, rd0 = rational(nm, F(1000))
            # n1/d1 : n0/d0 = rn/rd : rn0/rd0
            vc.ob('%s_zpk has the magnitude of %s_weighting' % (nm, nm),
                  [f > 0], T.seq(smul(sdiv(n1, n0), sdiv(rd, rd0)),
                                 smul(sdiv(rn, rn0), sdiv(d1, d0))),
                  formal=True)
            if nm in 'abc':
                vc.ob('%s_zpk times %s_weighting_gain is normalized' % (
                    nm, nm), [f > 0], T.seq(smul(n1, rd), smul(rn, d1)),
                    formal=True)
    PROP.unit(nm + '_weighting')(u_curve)
    PROP.unit(nm + '_zpk')(u_zpk)

    def d_curve(d):
        import math
        zpk = getattr(AW, nm + '_zpk')
        z, p, k = [np.asarray(t, dtype=complex) for t in zpk]
        d.case(zpk=nm)
        d.expect(np.all(p.real < 0), 'unstable pole')

        def lm(x):       # log magnitude of the zero/pole form
            s = 2j * math.pi * x
            return math.log(abs(k)) + sum(math.log(abs(s - q)) for q in z) \
                - sum(math.log(abs(s - q)) for q in p)

        def ref(x, normal):
            a, b = rational(nm, F(x))
            r = a / b
            if normal and nm != 'd':
                a, b = rational(nm, F(1000))
                r = r / (a / b)
            return float(r)
        while d.more() and d.n < d.top(250):
            x = float(np.exp(d.rng.uniform(0, np.log(3e4))))
            if d.rng.random() < .1:
                x = float(d.rng.choice([0., 1000., 20., 20000.]))
            d.case(fn=nm + '_weighting', f=x)
            for normal in (True, False):
                w = ref(x, normal)
                d.close(fn(x, normal), w, 'power curve', 1e-9, 0)
                d.close(fn(x, normal=normal, power=False), math.sqrt(w),
                        'amplitude curve', 1e-9, 0)
            d.close(fn(x), ref(x, True), 'defaults', 1e-9, 0)
            if x > 0:
                d.close(lm(x) - lm(1000.), .5 * math.log(
                    ref(x, True) / ref(1000, True)), 'zpk form', 1e-6, 1e-6)
            f = np.array([[x, 2 * x], [1000., x / 3]])
            g = f.copy()
            d.close(fn(f), [[ref(t, True) for t in q] for q in f],
                    'array of frequencies', 1e-9, 0)
            d.expect(np.array_equal(f, g), 'argument modified')
        d.case(f=1000)
        d.close(fn(1000), 1., 'normalized at 1 kHz', 1e-4)
        d.close(fn(1000., power=False), 1., 'normalized at 1 kHz', 1e-4)
        if nm in 'abcd':
            d.close(math.exp(lm(1000.)) * getattr(
                AW, nm + '_weighting_gain'), 1., 'gain constant', 1e-3)
        d.close(getattr(AW, nm + '_weighting_gain'), 1. if nm == 'd' else
                1 / (fn(1000, False, nm == 'f')), 'gain constant', 1e-9)
    PROP.dyn(nm + '_weighting')(d_curve)


for _n in 'abcdf':
    mk(_n)
