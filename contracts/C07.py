"""C07: decibel conversions."""
from .base import *
from pydsm.delsig import _decibel as M
from pydsm import relab

PROP = Prop('C07')
LN10 = None


def cases(vc, name):
    """scalar, vector of symbolic length, matrix of symbolic size, list"""
    n, m = vc.int('n'), vc.int('m')
    dims = [n >= 0, m >= 0]
    x = vc.real('x')
    yield 'scalar', x, lambda *i: x, (), []
    a = vc.arr('x1', (n,))
    yield 'vector', a, a.reader(), (n,), dims
    b = vc.arr('x2', (n, m))
    yield 'matrix', b, b.reader(), (n, m), dims
    i1 = vc.arr('i1', (n,), 'i')
    yield 'int vector', i1, i1.reader(), (n,), dims
    l = [vc.real('l%d' % j) for j in range(3)]
    yield 'list', l, lambda ix: l[ix[0]], (3,), []


def elementwise(vc, fn, spec, extra=(), hyps=(), kinds=None):
    for nm, arg, rd, shp, dims in cases(vc, fn.__name__):
        if kinds and nm not in kinds:
            continue
        fx = arg.reader() if isarr(arg) else rd
        for p in vc.call(fn, (arg,) + tuple(extra), hyps=dims + list(hyps),
                         name='%s(%s)' % (fn.__name__, nm)):
            if not vc.returns(nm, p):
                continue
            vc.frame('%s(%s)' % (fn.__name__, nm), p)
            w = spec(fx(()) if nm != 'scalar' else arg) if shp == () else \
                Arr(shp, lambda ix: spec(fx(ix)), 'f')
            vc.equal('%s(%s)=spec' % (fn.__name__, nm), p, p.value, w)


def forward(k, v=False):
    def spec(x):
        ax = sabs(x)
        return ite(seq(x, 0), Inf(-1), smul(k, slog10(ax)))
    return spec


@PROP.unit('dbv')
def u_dbv(vc):
    elementwise(vc, M.dbv, forward(20))


@PROP.unit('dbp')
def u_dbp(vc):
    elementwise(vc, M.dbp, forward(10))


@PROP.unit('dbm')
def u_dbm(vc):
    R = vc.real('R')

    def spec(r):
        return lambda x: ite(seq(x, 0), Inf(-1), sadd(
            smul(10, slog10(sdiv(smul(x, x), r))), 30))
    elementwise(vc, M.dbm, spec(R), (R,), [R > 0])
    elementwise(vc, M.dbm, spec(F(50)))


@PROP.unit('undbv')
def u_undbv(vc):
    elementwise(vc, M.undbv, lambda x: spow(10, sdiv(x, 20)))


@PROP.unit('undbp')
def u_undbp(vc):
    elementwise(vc, M.undbp, lambda x: spow(10, sdiv(x, 10)))


@PROP.unit('undbm')
def u_undbm(vc):
    R = vc.real('R')

    def spec(r):
        return lambda x: ssqrt(smul(r, spow(10, sdiv(ssub(x, 30), 10))))
    elementwise(vc, M.undbm, spec(R), (R,), [R > 0])
    elementwise(vc, M.undbm, spec(F(50)))


def roundtrip(vc, name, f, g, x, want, hyps, args=()):
    for p in vc.run(lambda ctx: ctx.call(f, (ctx.call(g, (x,) + args),) +
                                         args), hyps, name=name):
        if vc.returns(name, p):
            vc.equal(name, p, p.value, want)


@PROP.unit('inverses')
def u_inv(vc):
    x, R = vc.real('x'), vc.real('R')
    for f, g, nm, a in ((M.dbv, M.undbv, 'v', ()), (M.dbp, M.undbp, 'p', ()),
                        (M.dbm, M.undbm, 'm', (R,))):
        roundtrip(vc, 'db%s(undb%s(x))=x' % (nm, nm), f, g, x, x, [R > 0], a)
        roundtrip(vc, 'undb%s(db%s(x))=x' % (nm, nm), g, f, x, x,
                  [R > 0, x > 0], a)


@PROP.unit('relab.db')
def u_db(vc):
    R = vc.real('R')
    pos = [R > 0]
    for nm, arg, rd, shp, dims in cases(vc, 'db'):
        fx = arg.reader() if isarr(arg) else (
            (lambda ix: arg) if nm == 'scalar' else rd)
        for st, r, sp in (
                ('power', (), lambda x: smul(10, slog10(x))),
                ('power', (R,), lambda x: smul(10, slog10(x))),
                ('voltage', (), lambda x: smul(10, slog10(smul(x, x)))),
                ('voltage', (R,), lambda x: smul(10, slog10(
                    sdiv(smul(x, x), R))))):
            if nm == 'list' and st == 'voltage' and False:
                continue
            nz = []
            k = z3.Int('kk')
            if isarr(arg):
                ks = [z3.Int('kk%d' % j) for j in range(len(shp))]
                nz = [z3.ForAll(ks, T.lit(sgt(T.real(T.lit(fx(tuple(ks)))),
                                              0)))]
            elif nm == 'scalar':
                nz = [arg > 0]
            else:
                nz = [e > 0 for e in arg]
            name = 'db(%s,%s%s)' % (nm, st, ',R' if r else '')
            for p in vc.call(relab.db, (arg, st) + r, hyps=dims + pos + nz,
                             name=name):
                if not vc.returns(name, p):
                    continue
                vc.frame(name, p)
                w = sp(arg) if nm == 'scalar' else Arr(
                    shp, lambda ix: sp(fx(ix)), 'f')
                vc.equal(name + '=spec', p, p.value, w)


# ------------------------------------------------------------------- run time
def gen(d):
    r = d.rng
    k = r.integers(0, 7)
    shp = [(), (1,), (4,), (2, 3), (0,), (2, 1, 3), (5,)][k]
    x = r.standard_normal(shp) * 10.0 ** r.integers(-6, 7, shp)
    if r.random() < .4:
        x = np.where(r.random(shp) < .4, 0., x)
    if r.random() < .2:
        x = np.round(x).astype(int) if r.random() < .5 else np.clip(
            np.round(x), -9, 9).astype(np.int64)
    elif r.random() < .3:
        # very small and very large values, the square in range
        x = x * 10. ** r.integers(-150, 140, np.shape(x))
    form = r.integers(0, 3)
    if form == 1:
        return np.asarray(x).tolist()
    if form == 2 and shp == ():
        return float(np.asarray(x))
    return x


def ref(f, x):
    a = np.asarray(x)
    out = np.empty(a.shape)
    for ix in np.ndindex(*a.shape):
        out[ix] = f(float(a[ix]))
    return out


def snap(x):
    import copy
    return copy.deepcopy(x)


@PROP.dyn('forward conversions')
def d_fwd(d):
    import math
    while d.more() and d.n < d.top(400):
        x = gen(d)
        R = float(d.rng.choice([1., 50., 75., 600., 0.3]))
        d.case(x=x, R=R)
        keep = snap(x)
        with np.errstate(all='ignore'):
            for f, g in ((M.dbv, lambda t: 20 * math.log10(abs(t))),
                         (M.dbp, lambda t: 10 * math.log10(abs(t))),
                         (M.dbm, lambda t: 10 * math.log10(t * t / 50) + 30),
                         (lambda t: M.dbm(t, R), lambda t: 10 * math.log10(
                             t * t / R) + 30)):
                y = f(x)
                w = ref(lambda t: -math.inf if t == 0 else g(t), x)
                d.close(y, w, 'forward conversion', 1e-9, 1e-9)
            d.expect(np.array_equal(np.asarray(keep), np.asarray(x)),
                     'argument modified')
            xa = np.abs(np.asarray(x, dtype=float)) + 1e-9
            for t, rr in (('power', 1), ('voltage', 1), ('voltage', R)):
                y = relab.db(xa, t, rr)
                w = ref((lambda u: 10 * math.log10(u)) if t == 'power' else (
                    lambda u: 10 * math.log10(u * u / rr)), xa)
                d.close(y, w, 'relab.db', 1e-9, 1e-9)
            if xa.ndim:
                l = (-xa).tolist()
                d.close(relab.db(l), ref(lambda u: 10 * math.log10(u * u), l),
                        'relab.db of a list', 1e-9, 1e-9)
            z = complex(*d.rng.standard_normal(2))
            d.close(relab.db(z), 20 * math.log10(abs(z)), 'relab.db(complex)')
            d.close(M.dbv(z), 20 * math.log10(abs(z)), 'dbv(complex)')


@PROP.dyn('inverse conversions')
def d_inv(d):
    while d.more() and d.n < d.top(400):
        x = gen(d)
        x = (np.clip(np.asarray(x, dtype=float), -200, 200)).tolist() \
            if isinstance(x, list) else np.clip(np.asarray(x) * 1., -200, 200)
        R = float(d.rng.choice([1., 50., 75., 600., 0.3]))
        d.case(x=x, R=R)
        keep = snap(x)
        a = np.asarray(x)
        d.close(M.undbv(x), ref(lambda t: 10.0 ** (t / 20), a), 'undbv')
        d.close(M.undbp(x), ref(lambda t: 10.0 ** (t / 10), a), 'undbp')
        d.close(M.undbm(x), ref(lambda t: (50 * 10.0 ** ((t - 30) / 10)) ** .5,
                                a), 'undbm')
        d.close(M.undbm(x, R), ref(
            lambda t: (R * 10.0 ** ((t - 30) / 10)) ** .5, a), 'undbm R')
        d.expect(np.array_equal(np.asarray(keep), a), 'argument modified')
        d.close(M.dbv(M.undbv(x)), a, 'dbv(undbv)', 1e-9, 1e-8)
        d.close(M.dbp(M.undbp(x)), a, 'dbp(undbp)', 1e-9, 1e-8)
        d.close(M.dbm(M.undbm(x, R), R), a, 'dbm(undbm)', 1e-9, 1e-8)
        p = np.abs(a) + 1e-6
        d.close(M.undbv(M.dbv(p)), p, 'undbv(dbv)', 1e-9)
        d.close(M.undbp(M.dbp(p)), p, 'undbp(dbp)', 1e-9)
        d.close(M.undbm(M.dbm(p, R), R), p, 'undbm(dbm)', 1e-9)
        d.close(M.undbm(M.dbm(p)), p, 'undbm(dbm), default R', 1e-9)
