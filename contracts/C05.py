"""C05: transfer function evaluation."""
from .base import *
from pydsm.delsig import _tf as M
import pydsm.delsig as D

PROP = Prop('C05')


def xs(vc):
    n, m = vc.int('nx'), vc.int('mx')
    a = vc.arr('xv', (n,), 'z')
    b = vc.arr('xm', (n, m), 'z')
    r = vc.arr('xr', (n,), 'f')
    return [('scalar', Rz(z3.Real('x!z')), [], ()),
            ('real scalar', z3.Real('xr0'), [], ()),
            ('vector', a, [n >= 0], (n,)), ('real vector', r, [n >= 0], (n,)),
            ('matrix', b, [n >= 0, m >= 0], (n, m))]


def product(rd, n, x):
    return sprod(0, n, lambda j: ssub(x, rd((j,))))


@PROP.unit('evalRPoly')
def u_rpoly(vc):
    nr = vc.int('nr')
    k = vc.real('k')
    for kind in 'zf':
        roots = vc.arr('roots', (nr,), kind)
        rd = roots.reader()
        for nm, x, dims, shp in xs(vc):
            for kk, args in ((1, ()), (k, (k,))):
                name = 'evalRPoly(%s,%s%s)' % (kind, nm, ',k' if args else '')
                for p in vc.call(M.evalRPoly, (roots, x) + args,
                                 hyps=dims + [nr >= 0], name=name):
                    if not vc.returns(name, p):
                        continue
                    vc.frame(name, p)

                    def spec(t):
                        return smul(kk, product(rd, nr, t))
                    w = spec(x) if not isarr(x) else Arr(
                        shp, lambda ix, rx=x.reader(): spec(rx(ix)), 'z')
                    vc.equal(name + '=k*prod(x-root)', p, p.value, w,
                             formal=True)


@PROP.unit('evalRPoly drops roots at infinity')
def u_inf(vc):
    a, b, k = [Rz(z3.Real(n)) for n in 'abk']
    x = Rz(z3.Real('x!z'))
    for roots, fin in (([a, Inf(1), b], [a, b]), ([Inf(1), a], [a]),
                       ([Inf(-1), Inf(1)], []), ([], []),
                       ([a, b, Inf(1), Inf(1)], [a, b])):
        name = 'roots %s' % (roots,)
        for p in vc.call(M.evalRPoly, (list(roots), x, k), name=name):
            if vc.returns(name, p):
                w = k
                for r in fin:
                    w = smul(w, ssub(x, r))
                vc.equal(name, p, p.value, w, formal=True)


def check_tf(vc, name, tf, x, dims, shp, spec, hyps):
    for p in vc.call(M.evalTF, (tf, x), hyps=dims + hyps, name=name,
                     zerodiv='ignore'):
        if not vc.returns(name, p):
            continue
        vc.frame(name, p)
        if shp == ():
            vc.equal(name, p, p.value, spec(x), formal=True)
            continue
        rx = x.reader()
        if isarr(p.value):
            vc.equal(name, p, p.value, Arr(shp, lambda ix: spec(rx(ix)), 'z'),
                     formal=True)
        else:
            n = shp[0] if len(shp) == 1 else smul(*shp)
            vc.ob(name + '/a scalar only for a single point', p.hyps,
                  seq(n, 1))
            z = tuple(0 for _ in shp)
            vc.equal(name + '/single point', p, p.value, spec(rx(z)),
                     formal=True)


@PROP.unit('evalTF zpk')
def u_zpk(vc):
    nz, np_ = vc.int('nz'), vc.int('np')
    k = vc.real('k')
    z, p = vc.arr('z', (nz,), 'z'), vc.arr('p', (np_,), 'z')
    for nm, x, dims, shp in xs(vc):
        check_tf(vc, 'evalTF(zpk,%s)' % nm, (z, p, k), x, dims, shp,
                 lambda t: sdiv(smul(k, product(z.reader(), nz, t)),
                                T.rz(product(p.reader(), np_, t))),
                 [nz >= 0, np_ >= 0])


def polyspec(c, t):
    acc = 0
    for a in c:
        acc = sadd(smul(acc, t), a)
    return acc


@PROP.unit('evalTF ba')
def u_ba(vc):
    nb, na = vc.int('nb'), vc.int('na')
    b, a = vc.arr('b', (nb,), 'f'), vc.arr('a', (na,), 'f')

    def pv(c, n, t):
        return ssum(0, n, lambda k: smul(c.at(k), N.powint(
            t, ssub(ssub(n, 1), k))))
    for nm, x, dims, shp in xs(vc):
        check_tf(vc, 'evalTF(ba,%s)' % nm, (b, a), x, dims, shp,
                 lambda t: sdiv(T.rz(pv(b, nb, t)), T.rz(pv(a, na, t))),
                 [nb >= 1, na >= 1])
    # explicit orders, lists
    for lb, la in ((1, 1), (2, 3), (4, 2), (3, 3)):
        cb = [z3.Real('b%d' % j) for j in range(lb)]
        ca = [z3.Real('a%d' % j) for j in range(la)]
        x = Rz(z3.Real('x!z'))
        check_tf(vc, 'evalTF(lists %d/%d)' % (lb, la), (cb, ca), x, [], (),
                 lambda t: sdiv(T.rz(polyspec(cb, t)), T.rz(polyspec(ca, t))),
                 [])


# ------------------------------------------------------------------- run time
def gen_points(d):
    r = d.rng
    shp = [(), (1,), (3,), (2, 2), (7,), (1, 1)][r.integers(0, 6)]
    kind = r.integers(0, 4)
    if kind == 0:
        x = r.standard_normal(shp)
    elif kind == 1:
        x = r.standard_normal(shp) + 1j * r.standard_normal(shp)
    elif kind == 2:
        x = np.exp(2j * np.pi * r.random(shp))
    else:
        x = np.asarray(r.integers(-3, 3, shp))
    if shp == ():
        return x.item() if hasattr(x, 'item') else x
    return x.tolist() if r.random() < .25 else x


def close(d, got, want, msg):
    d.close(got, want, msg, 1e-8, 1e-10)


@PROP.dyn('evalRPoly')
def d_rpoly(d):
    r = d.rng
    while d.more() and d.n < d.top(600):
        n = r.integers(0, 7)
        roots = r.standard_normal(n) + 1j * r.standard_normal(n) * (
            r.random() < .6)
        if r.random() < .3:
            roots = roots.real
        roots = list(roots)
        for _ in range(r.integers(0, 3)):
            if r.random() < .5:
                roots.insert(r.integers(0, len(roots) + 1), np.inf)
        x, k = gen_points(d), float(r.choice([1., -2.5, .3]))
        if isinstance(x, list) and not any(np.isfinite(roots)):
            x = np.asarray(x)
        form = np.asarray(roots) if r.random() < .5 else roots
        d.case(roots=form, x=x, k=k)
        xa = np.asarray(x)
        w = np.empty(xa.shape, dtype=complex)
        for ix in np.ndindex(*xa.shape):
            v = 1
            for q in roots:
                if np.isfinite(q):
                    v = v * (complex(xa[ix]) - q)
            w[ix] = v
        keep = (np.array(form), np.array(x))
        close(d, M.evalRPoly(form, x, k), k * w, 'evalRPoly')
        close(d, M.evalRPoly(form, x), w, 'evalRPoly, unit gain')
        d.expect(np.array_equal(keep[0], np.array(form)) and
                 np.array_equal(keep[1], np.array(x)), 'argument modified')


@PROP.dyn('evalTF')
def d_tf(d):
    r = d.rng
    while d.more() and d.n < d.top(600):
        x = gen_points(d)
        k = float(r.choice([1., -2.5, .3]))
        nz, npo = r.integers(0, 5), r.integers(0, 5)
        z = r.standard_normal(nz) + 1j * r.standard_normal(nz)
        p = 3 + r.standard_normal(npo) + 1j * (5 + r.standard_normal(npo))
        if r.random() < .3:
            z = z.real
        tf = (z, p, k)
        if r.random() < .3:
            tf = (z.tolist(), p.tolist(), k)
        xa = np.asarray(x)

        def ev(f):
            w = np.empty(xa.shape, dtype=complex)
            for ix in np.ndindex(*xa.shape):
                w[ix] = f(complex(xa[ix]))
            return w if w.size != 1 else w.item()

        def pr(rs, t):
            v = 1.
            for q in rs:
                v = v * (t - q)
            return v
        if isinstance(x, list) and (not len(z) or not len(p)):
            continue
        d.case(tf=tf, x=x)
        got = D.evalTF(tf, x)
        close(d, got, ev(lambda t: k * pr(z, t) / pr(p, t)), 'evalTF zpk')
        d.expect(np.isscalar(got) == (xa.size == 1),
                 'a scalar exactly for a single point')
        b = r.standard_normal(r.integers(1, 6))
        a = r.standard_normal(r.integers(1, 6))
        if r.random() < .2:
            b[0] = 0.
        tf2 = (b.tolist(), a) if r.random() < .3 else (b, a)
        d.case(tf=tf2, x=x)

        def pol(c, t):
            return sum(q * t ** (len(c) - 1 - j) for j, q in enumerate(c))
        den = ev(lambda t: pol(a, t))
        if np.min(np.abs(den)) < 1e-2:
            continue
        got = D.evalTF(tf2, x)
        d.close(got, ev(lambda t: pol(b, t) / pol(a, t)), 'evalTF ba', 1e-6,
                1e-8)
        d.expect(np.isscalar(got) == (xa.size == 1),
                 'a scalar exactly for a single point')
