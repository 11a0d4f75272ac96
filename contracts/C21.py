"""Impulse responses.  Proved for every filter (any number of zeros, poles or
coefficients) and every length: lfilter gets exactly the filter's coefficients
and a unit impulse of the requested (or guessed) length, and the guessed length
is zeros + 1 + ceil(db/20 ln 10 / min |log|p||).  scipy's lfilter (difference
equation, causal), zpk2tf and tf2zpk are assumed contracts; filters with poles
at the origin are proved for up to 3 poles."""
import math
from .base import *
import scipy.signal as ss
from pydsm import ir as M

PROP = Prop('C21')


def lfilter(ctx, b, a, x, axis=-1, zi=None):
    if axis != -1 or zi is not None:
        raise Unsupported('lfilter with other arguments')
    x = N.asarr(ctx, x)
    return P.Opaque('lfilter', (N.asarr(ctx, b), N.asarr(ctx, a), x.copy()))


def minlog(n, f):
    k = T.fresh(I, 'k')
    return T.mkbig(z3.Function('MIN!', I, z3.ArraySort(I, R), R), n, k,
                   T.real(f(k)))


def filters(vc):
    nz, np_, nb, na = [vc.int(c) for c in ('nz', 'np', 'nb', 'na')]
    z, p = vc.arr('z', (nz,), 'c'), vc.arr('p', (np_,), 'c')
    k = vc.real('k')
    b, a = vc.arr('b', (nb,)), vc.arr('a', (na,))
    B, A = vc.arr('B', (nz + 1,), 'c'), vc.arr('A', (np_ + 1,), 'c')
    hz = [nz >= 0, np_ >= 0]

    def zpk2tf(ctx, z_, p_, k_):
        ctx.oblige('zpk2tf gets the filter', z_ is z and p_ is p and k_ is k)
        return B, A

    def tf2zpk(ctx, b_, a_):
        ctx.oblige('tf2zpk gets the filter', b_ is b and a_ is a)
        return z, p, k
    con = {id(ss.zpk2tf): zpk2tf, id(ss.tf2zpk): tf2zpk,
           id(ss.lfilter): lfilter}
    re = lambda t: Arr(t.shape, lambda ix: t.at(*ix).re, 'f')
    return [('zpk', (z, p, k), re(B), re(A), hz, con),
            ('nd', (b, a), b, a, hz + [nb >= 1, na >= 1], con)], z, p


@PROP.unit('impulse_response')
def u_ir(vc):
    m, g = vc.int('m'), vc.int('g')
    fl, z, p = filters(vc)

    for nm, h, b, a, hy, con in fl:
        def guess(ctx, hh, db=80):
            ctx.oblige('guess_ir_length gets the filter', hh is h)
            ctx.oblige('guess_ir_length gets db', T.same(db, want_db[0]))
            return g
        con = dict(con)
        con[id(M.guess_ir_length)] = guess
        want_db = [80]
        for kw, n, db in (({'m': m}, m, 80), ({}, g, 80),
                          ({'db': vc.real('db')}, g, vc.real('db')),
                          ({'m': m, 'db': 3}, m, 3)):
            want_db[0] = db
            name = 'impulse_response(%s, %s)' % (nm, list(kw))
            for pt in vc.call(M.impulse_response, (h,), kw,
                              hyps=hy + [m >= 1, g >= 1], contracts=con,
                              name=name):
                if not vc.returns(name, pt):
                    continue
                vc.frame(name, pt)
                v = pt.value
                if not vc.holds(name + ' is a filter response', isinstance(
                        v, P.Opaque) and v.name == 'lfilter', repr(v)):
                    continue
                vc.equal(name + ' numerator', pt, v.args[0], b)
                vc.equal(name + ' denominator', pt, v.args[1], a)
                vc.equal(name + ' unit impulse', pt, v.args[2], Arr(
                    (n,), lambda ix: ite(seq(ix[0], 0), F(1), F(0)), 'f'))


@PROP.unit('guess_ir_length')
def u_guess(vc):
    fl, z, p = filters(vc)
    nz, n = z.shape[0], p.shape[0]
    j = z3.Int('j')

    def absl(c):
        r2 = sadd(smul(c.re, c.re), smul(c.im, c.im))
        return sabs(slog(ssqrt(r2)))
    pj = p.at(j)
    ok = z3.ForAll([j], T.lit(sgt(sadd(smul(pj.re, pj.re),
                                       smul(pj.im, pj.im)), 0)))
    db0 = vc.real('db')
    for nm, h, b, a, hy, con in fl:
        for kw, db in (({}, 80), ({'db': db0}, db0)):
            name = 'guess_ir_length(%s, %s)' % (nm, list(kw))
            mn = minlog(n, lambda i: absl(p.at(i)))
            for pt in vc.call(M.guess_ir_length, (h,), kw,
                              hyps=hy + [ok, n >= 1, T.lit(sgt(mn, 0)),
                                         db0 > 0],
                              contracts=con, name=name):
                if vc.returns(name, pt):
                    vc.frame(name, pt)
                    t = T.sceil(sdiv(smul(sdiv(db, 20), slog(F(10))), mn))
                    vc.equal(name, pt, pt.value, sadd(t, sadd(nz, 1)))
            for pt in vc.call(M.guess_ir_length, (h,), kw,
                              hyps=hy + [n == 0], contracts=con,
                              name=name + ' no poles'):
                if vc.returns(name, pt):
                    vc.equal(name + ' no poles', pt, pt.value, sadd(nz, 1))
    # poles at the origin have no decay time
    k = vc.real('k')
    c = [Cx(vc.real('cr%d' % i), vc.real('ci%d' % i)) for i in range(3)]
    for npz in (1, 2, 3):
        for nn in range(0, 3):
            ps = [Cx(F(0), F(0))] * npz + c[:nn]
            if len(ps) > 3:
                continue
            hyp = [T.lit(sgt(sadd(smul(q.re, q.re), smul(q.im, q.im)), 0))
                   for q in c[:nn]] + \
                [T.lit(sgt(absl(q), 0)) for q in c[:nn]]
            name = 'guess_ir_length, %d poles at 0 and %d others' % (npz, nn)
            for pt in vc.call(M.guess_ir_length, ((z, list(ps), k),),
                              hyps=[nz >= 0] + hyp, name=name):
                if vc.returns(name, pt):
                    if nn == 0:
                        t = 0
                    else:
                        w = absl(c[0])
                        for q in c[1:nn]:
                            w = T.smin(w, absl(q))
                        t = T.sceil(sdiv(smul(4, slog(F(10))), w))
                    vc.equal(name, pt, pt.value, sadd(t, sadd(nz, 1)))
    # lemma: the ceiling is the smallest number of samples with enough decay
    w, cc = vc.real('w'), vc.real('cc')
    t = T.sceil(sdiv(cc, w))
    vc.ob('lemma: decayed after t samples', [w > 0, cc > 0],
          sge(smul(t, w), cc))
    vc.ob('lemma: not yet after t-1', [w > 0, cc > 0],
          slt(smul(ssub(t, 1), w), cc))


# ------------------------------------------------------------------- run time
def series(z, p, k, n):
    b, a = np.array([1.]), np.array([1.])
    for q in z:
        b = np.convolve(b, [1, -q])
    for q in p:
        a = np.convolve(a, [1, -q])
    return tfseries((k * b).real, a.real, n)


def tfseries(b, a, n):
    y = []
    for i in range(n):
        v = b[i] if i < len(b) else 0.
        for j in range(1, min(i, len(a) - 1) + 1):
            v -= a[j] * y[i - j]
        y.append(v / a[0])
    return np.array(y)


def pairs(r, n, rad):
    out = []
    while len(out) < n:
        if n - len(out) >= 2 and r.random() < .7:
            q = rad * r.random() * np.exp(1j * np.pi * r.random())
            out += [q, np.conj(q)]
        else:
            out.append(complex(rad * r.uniform(-1, 1)))
    return np.array(out, dtype=complex)


@PROP.dyn('impulse_response')
def d_ir(d):
    while d.more() and d.n < d.top(400):
        r = d.rng
        n = int(r.integers(0, 5))
        z, p = pairs(r, n, 1.3), pairs(r, n, .93)
        if n and r.random() < .2:
            p[-1] = 0 if p[-1].imag == 0 else p[-1]
        k = float(r.choice([1., 2.5, -.3]))
        m = int(r.integers(1, 60))
        h = (z, p, k)
        if r.random() < .3:
            h = (z.tolist(), p.tolist(), k)
        d.case(h=h, m=m)
        w = series(z, p, k, 80)
        g = M.impulse_response(h, m)
        d.close(g, w[:m], 'impulse response', 1e-6, 1e-7)
        nb, na = int(r.integers(1, 5)), n + 1
        b = r.standard_normal(nb)
        a = np.atleast_1d(np.real(np.poly(p))) * 2.
        d.case(b=b, a=a, m=m)
        d.close(M.impulse_response((b, a), m=m), tfseries(b, a, m),
                'impulse response (nd)', 1e-6, 1e-7)
        b2 = np.concatenate((b, np.zeros(na)))[:na]
        db = float(r.choice([20, 80, 100]))
        if r.random() < .5 or b2[0] == 0:
            g, L = M.impulse_response((z, p, k), db=db), glen(z, p, db)
        else:
            g = M.impulse_response((b2, a), db=db)
            L = glen(np.roots(b2), np.roots(a), db)
        d.expect(abs(len(g) - L) <= 0 or edge(p, db), 'guessed length',
                 got=len(g), want=L)


def glen(z, p, db):
    p = [q for q in p if abs(q) > 0]
    t = 0
    if p:
        t = math.ceil(db / 20 * math.log(10) / min(abs(math.log(abs(q)))
                                                   for q in p))
    return len(z) + 1 + t


def edge(p, db):
    """ceil argument next to an integer"""
    p = [q for q in p if abs(q) > 0]
    if not p:
        return False
    t = db / 20 * math.log(10) / min(abs(math.log(abs(q))) for q in p)
    return abs(t - round(t)) < 1e-6 or any(abs(q) < 1e-6 for q in p)


@PROP.dyn('guess_ir_length')
def d_guess(d):
    while d.more() and d.n < d.top(600):
        r = d.rng
        z = pairs(r, int(r.integers(0, 5)), 1.)
        p = pairs(r, int(r.integers(0, 5)), .99)
        if len(p) and r.random() < .3:
            p = np.concatenate((p, np.zeros(r.integers(1, 3))))
        if r.random() < .1:
            p = np.zeros(len(p))
        db = float(r.choice([80, 10, 43.5, 160]))
        d.case(z=z, p=p, db=db)
        if edge(p, db):
            continue
        d.expect(M.guess_ir_length((z, p, 1.), db) == glen(z, p, db),
                 'guessed length', got=M.guess_ir_length((z, p, 1.), db),
                 want=glen(z, p, db))
        if db == 80:
            d.expect(M.guess_ir_length((z, p, 1.)) == glen(z, p, db),
                     'default db')
