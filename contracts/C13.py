"""Optimized zeros and band edges.  For every tabled order and option the values
computed by ds_optzeros are proved to lie within 1e-5 of the roots of the monic
polynomial of least L2 norm (Legendre, or orthogonal for the weight x^4 when a
double zero is held at 0): the exact rational orthogonal polynomial changes sign
within 1e-5 of each value, in disjoint intervals, so all its roots are covered.
That this polynomial is the minimiser of the in-band noise (integral over the
normalized band of the squared product of the distances to the zeros) is the
classical least-norm property, checked here as stationarity in exact arithmetic
(orthogonality to all lower degrees).  Band edges are proved for all osr, f0."""
from .base import *
from pydsm.delsig import _ds as M
from pydsm.NTFdesign import psychoacoustic as Y

PROP = Prop('C13')
TOL = F(1, 10**5)


# ----------------------------------------------- exact orthogonal polynomials
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def inner(a, b, w):
    """integral over [-1, 1] of a b x^w"""
    return sum((c * F(2, i + w + 1) for i, c in enumerate(pmul(a, b))
                if (i + w) % 2 == 0), F(0))


def monic(n, w):
    """monic orthogonal polynomials of degree 0..n for the weight x^w"""
    ps = []
    for k in range(n + 1):
        p = [F(0)] * k + [F(1)]
        for q in ps:
            c = inner(p, q, w) / inner(q, q, w)
            p = [x - c * (q[i] if i < len(q) else 0)
                 for i, x in enumerate(p)]
        ps.append(p)
    return ps


def horner(p, x):
    r = F(0)
    for c in reversed(p):
        r = r * x + c
    return r


def best(n, opt):
    """polynomial whose roots are the minimisers, and its degree"""
    if opt == 1 or n % 2:
        return monic(n, 0)
    return pmul([F(0), F(0), F(1)], monic(n - 2, 4)[-1])


def target(n, opt):
    if opt == 1 or n % 2:
        return monic(n, 0)[-1], 0
    return monic(n - 2, 4)[-1], 2


def enclose(e):
    """rational enclosure of a closed term"""
    if not T.isz(e):
        return F(e), F(e)
    if z3.is_rational_value(e):
        q = F(e.numerator_as_long(), e.denominator_as_long())
        return q, q
    v = S.enclosure(e)
    lo, hi = float(v.a), float(v.b)
    return F(lo) - F(1, 10**12), F(hi) + F(1, 10**12)


def iszero(e):
    return not T.nf(T.real(e))


@PROP.unit('ds_optzeros')
def u_optzeros(vc):
    for n in range(1, 15):
        for opt in (None, 1, 2, 3):
            name = 'ds_optzeros(%d, %s)' % (n, opt)
            args = (n,) if opt is None else (n, opt)
            for p in vc.call(M.ds_optzeros, args, name=name):
                if not vc.returns(name, p):
                    continue
                v = p.value
                if not vc.holds(name + ' length', isarr(v) and v.shape ==
                                (n,), repr(v)):
                    continue
                z = [v.at(i) for i in range(n)]
                P_, held = target(n, opt or 1)
                for k, x in enumerate(z):
                    vc.ob('%s in [-1, 1] %d' % (name, k), p.hyps,
                          sand(sle(-1, x), sle(x, 1)))
                iv = sorted(enclose(x) for x in z)
                # symmetric: the multiset equals its negation
                left = list(range(n))
                ok = True
                for k, x in enumerate(z):
                    j = [q for q in left if iszero(sadd(z[q], x))]
                    ok = ok and bool(j)
                    if j:
                        left.remove(j[0])
                vc.holds(name + ' symmetric', ok, str(z))
                if held:
                    zz = [t for t in iv if t == (0, 0)]
                    vc.holds(name + ' zeros held at the centre', len(
                        zz) == held, str(z))
                    iv = [t for t in iv if t != (0, 0)]
                good = len(iv) == len(P_) - 1
                prev = F(-2)
                for lo, hi in iv:
                    a, b = lo - TOL, hi + TOL
                    s = horner(P_, a) * horner(P_, b) < 0
                    vc.holds('%s optimal zero near %.6f' % (name, float(lo)),
                             s and a > prev,
                             'the optimal polynomial has no (other) root '
                             'within 1e-5 of %.8f' % float(lo))
                    prev = b
                vc.holds(name + ' covers every optimal zero', good)
    for n in (0, 15, 16, 20, 101):
        for opt in (1, 2):
            for p in vc.call(M.ds_optzeros, (n, opt), name='unsupported'):
                vc.raises('ds_optzeros(%d, %d)' % (n, opt), p, ValueError)
    nn = vc.int('n')
    for p in vc.call(M.ds_optzeros, (nn, 1), hyps=[nn > 14],
                     name='any n > 14'):
        vc.raises('any n > 14', p, ValueError)
    # without optimization, for orders up to 40 (bounded in n)
    for n in range(0, 41):
        name = 'ds_optzeros(%d, 0)' % n
        for p in vc.call(M.ds_optzeros, (n, 0), name=name):
            if vc.returns(name, p):
                v = p.value
                vc.holds(name, isarr(v) and v.shape == (n,) and all(
                    iszero(v.at(i)) for i in range(n)), repr(v))
    # the least norm property of the exact polynomials used above
    for w, top in ((0, 14), (4, 12)):
        ps = monic(top, w)
        for k, p in enumerate(ps):
            vc.holds('lemma: weight x^%d degree %d is orthogonal to all lower '
                     'degrees (stationary)' % (w, k), all(inner(
                         p, [F(0)] * j + [F(1)], w) == 0 for j in range(k))
                     and p[-1] == 1)


@PROP.unit('ds_f1f2')
def u_f1f2(vc):
    osr, f0 = vc.real('osr'), vc.real('f0')
    for kw, cf, o, f in (({}, False, osr, f0),
                         ({'complex_flag': False}, False, osr, f0),
                         ({'complex_flag': True}, True, osr, f0)):
        name = 'ds_f1f2(%s)' % kw
        for p in vc.call(M.ds_f1f2, (osr, f0), kw, hyps=[osr > 0, f0 >= 0],
                         name=name):
            if not vc.returns(name, p):
                continue
            h = sdiv(1, smul(2, osr)) if cf else sdiv(1, smul(4, osr))
            band = sgt(f0, sdiv(1, smul(4, osr)))
            if cf:
                w = (ssub(f0, h), sadd(f0, h))
            else:
                w = (ite(band, ssub(f0, h), 0),
                     ite(band, sadd(f0, h), sdiv(1, smul(2, osr))))
            vc.equal(name, p, tuple(p.value), w)
    for p in vc.call(M.ds_f1f2, (), name='defaults'):
        if vc.returns('defaults', p):
            vc.equal('ds_f1f2()', p, tuple(p.value), (0, F(1, 128)))


@PROP.unit('dunn_optzeros')
def u_dunn(vc):
    for n in range(1, 9):
        name = 'dunn_optzeros(%d)' % n
        for p in vc.call(Y.dunn_optzeros, (n,), name=name):
            if not vc.returns(name, p):
                continue
            v = p.value
            if not vc.holds(name + ' length', isarr(v) and v.shape == (n,),
                            repr(v)):
                continue
            z = [F(v.at(i)) for i in range(n)]
            vc.holds(name + ' symmetric', sorted(z) == sorted(-x for x in z),
                     str(z))
            vc.holds(name + ' within the audio band', all(
                abs(x) <= 1 for x in z), str(z))
            vc.holds(name + ' distinct', len(set(z)) == n, str(z))
    n = vc.int('n')
    for p in vc.call(Y.dunn_optzeros, (n,), hyps=[z3.Or(n < 1, n > 8)],
                     name='unsupported order'):
        vc.raises('dunn_optzeros', p, ValueError)


# ------------------------------------------------------------------- run time
def noise(z):
    """exact integral over [0,1] of the squared product (z symmetric)"""
    p = np.poly1d(np.asarray(z), True)
    q = np.polyint(p * p)
    return (q(1.) - q(-1.)) / 2


@PROP.dyn('ds_optzeros')
def d_optzeros(d):
    for n in range(1, 15):
        for opt in (1, 2, 0):
            z = np.asarray(M.ds_optzeros(n, opt))
            d.case(n=n, opt=opt, z=z)
            d.expect(z.shape == (n,), 'number of zeros')
            d.close(np.sort(z), np.sort(-z), 'symmetry', 1e-12, 1e-14)
            d.expect(np.all(np.abs(z) <= 1), 'zeros out of band')
            if opt == 0:
                d.expect(np.all(z == 0), 'zeros not at dc')
                continue
            P_, held = target(n, opt)
            w = np.sort(np.concatenate((
                np.real(np.roots([float(c) for c in P_[::-1]])) if len(P_) > 1
                else [], [0.] * held)))
            d.close(np.sort(z), w, 'optimal zeros', 0, 2e-5)
    for n in (0, 15, 30):
        d.case(n=n)
        d.raises(ValueError, M.ds_optzeros, n, 1)
        d.raises(ValueError, M.ds_optzeros, n, 2)


@PROP.dyn('ds_f1f2')
def d_f1f2(d):
    while d.more() and d.n < d.top(500):
        osr = float(d.rng.uniform(.6, 300))
        f0 = float(d.rng.choice([0, d.rng.uniform(0, .5),
                                 d.rng.uniform(0, .6) / osr]))
        d.case(osr=osr, f0=f0)
        w = (0, .5 / osr) if f0 <= .25 / osr else (f0 - .25 / osr,
                                                   f0 + .25 / osr)
        d.close(M.ds_f1f2(osr, f0), w, 'band', 1e-9, 1e-12)
        d.close(M.ds_f1f2(osr, f0, True), (f0 - .5 / osr, f0 + .5 / osr),
                'quadrature band', 1e-9, 1e-12)


@PROP.dyn('dunn_optzeros')
def d_dunn(d):
    for n in range(1, 9):
        z = np.asarray(Y.dunn_optzeros(n))
        d.case(n=n, z=z)
        d.expect(z.shape == (n,), 'number of zeros')
        d.close(np.sort(z), np.sort(-z), 'symmetry', 1e-12, 1e-14)
        d.expect(np.all(np.abs(z) <= 1), 'zeros out of band')
    for n in (0, -1, 9, 20):
        d.case(n=n)
        d.raises(ValueError, Y.dunn_optzeros, n)
