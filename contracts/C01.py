"""Quantizer.  Proved for every real input, every level count n >= 1 and any
number of quantizers: the stand-alone quantizer and the quantization routine of
the two compiled backends (read from the .pxi file through the Cython front
end) return exactly quant(y, n); lemmas prove quant(y, n) to be the nearest
admissible level, ties upwards, saturated.  The simulators apply that routine to
every sample (C02)."""
from .base import *
from pyvc import pyx
from pyvc.terms import isz
import importlib
DS = importlib.import_module('pydsm.delsig._simulateDSM_scipy')
import pydsm.delsig as D
import pydsm.simulation as SIM

PROP = Prop('C01')
PYX = ('_simulateDSM_cblas', '_simulateDSM_scipy_blas')


def quant(y, n):
    """the specification: admissible level nearest to y, saturated"""
    y = T.real(y) if T.isscalar(y) else y
    raw = ite(seq(T.smod(n, 2), 0),
              sadd(smul(2, T.real(T.sfloor(sdiv(y, 2)))), 1),
              smul(2, T.real(T.sfloor(sdiv(sadd(y, 1), 2)))))
    L = T.real(ssub(n, 1))
    return ite(sgt(raw, L), L, ite(slt(raw, sneg(L)), sneg(L), raw))


def quant_contract(ctx, N_, y, ys, n, ns, v, vs):
    """contract of the C-level ds_quantize"""
    ctx.oblige('ds_quantize: N not negative', sge(N_, 0))
    ctx.oblige('ds_quantize: v overlaps neither y nor n',
               v.arr.buf is not y.arr.buf and v.arr.buf is not n.arr.buf)
    Y = pyx.reads(ctx, y, N_, ys, 'ds_quantize: y in bounds')
    n_ = pyx.reads(ctx, n, N_, ns, 'ds_quantize: n in bounds')
    pyx.vec_write(ctx, v, N_, vs, lambda r: quant(Y(r), n_(r)),
                  'ds_quantize: v in bounds')


@PROP.unit('lemma: quant is the nearest admissible level')
def u_lemma(vc):
    y, n, l = vc.real('y'), vc.int('n'), vc.int('l')
    q = vc.real('q')
    iv = vc.int('iv')
    h = [n >= 1, q == T.real(quant(y, n))]
    rl = T.real(l)
    adm = sand(sle(sneg(ssub(n, 1)), l), sle(l, ssub(n, 1)),
               sne(T.smod(l, 2), T.smod(n, 2)))
    vc.ob('magnitude at most n-1', h, sand(sle(q, T.real(n - 1)),
                                           sge(q, T.real(1 - n))))
    r = vc.int('r')
    ev = seq(T.smod(n, 2), 0)
    raw = ite(ev, sadd(smul(2, T.sfloor(sdiv(y, 2))), 1),
              smul(2, T.sfloor(sdiv(sadd(y, 1), 2))))
    wit = ite(sgt(raw, n - 1), n - 1, ite(slt(raw, 1 - n), 1 - n, raw))
    vc.ob('it is an integer', h, seq(q, T.real(wit)))
    vc.ob('of the parity of n - 1', h, sne(T.smod(wit, 2), T.smod(n, 2)))
    vc.ob('distance at most 1 inside the range',
          h + [y <= T.real(n), y >= T.real(-n)],
          sand(sle(q - y, 1), sle(y - q, 1)))
    vc.ob('two levels are at least 2 apart', [
        iv % 2 != n % 2, l % 2 != n % 2], sor(l == iv, l - iv >= 2,
                                              iv - l >= 2))
    # from the four facts above
    g = [q == T.real(iv), T.lit(sor(l == iv, l - iv >= 2, iv - l >= 2)),
         l >= 1 - n, l <= n - 1, n >= 1,
         T.lit(T.simplies(sand(y <= T.real(n), y >= T.real(-n)),
                          sand(sle(q - y, 1), sle(y - q, 1)))),
         T.lit(T.simplies(y >= T.real(n), q == T.real(n - 1))),
         T.lit(T.simplies(y < T.real(-n), q == T.real(1 - n)))]
    vc.ob('nearest admissible level', g, sle(sabs(y - q), sabs(y - rl)))
    vc.ob('inside the range, midway counts upwards', h + [
        y <= T.real(n), y >= T.real(-n), y < T.real(n)], q - y > -1)
    vc.ob('midway: the higher level', g + [
        l != iv, T.lit(T.simplies(sand(y < T.real(n), y >= T.real(-n)),
                                  q - y > -1)),
        T.lit(seq(sabs(y - q), sabs(y - rl)))], sge(q, rl))
    vc.ob('upper saturation', h + [y >= T.real(n)], q == T.real(n - 1))
    vc.ob('lower saturation', h + [y < T.real(-n)], q == T.real(1 - n))


def shapes(vc):
    """(name, y, n, element of the expected result, dims)"""
    k, m = vc.int('k'), vc.int('m')
    n0 = vc.int('n0')
    y0 = vc.real('y0')
    ya, yc, ym = vc.arr('ya', (k,)), vc.arr('yc', (k, 1)), vc.arr('ym', (k, m))
    yr = vc.arr('yr', (1, m))
    yi = vc.arr('yi', (k, 1), 'i')
    na = vc.arr('na', (k,), 'i')
    one = vc.arr('n1', (1,), 'i')
    pos = [k >= 1, m >= 1]
    lv = lambda a: [T.lit(z3.ForAll([z3.Int('q!')], z3.Implies(
        z3.And(z3.Int('q!') >= 0, z3.Int('q!') < k),
        T.lit(a.at(z3.Int('q!'))) >= 1)))]
    out = [
        ('scalar', y0, n0, None, [n0 >= 1]),
        ('vector, one level count', ya, n0, lambda ix: quant(ya.at(*ix), n0),
         [n0 >= 1, k >= 1]),
        ('row, one level count', yr, n0, lambda ix: quant(yr.at(*ix), n0),
         [n0 >= 1] + pos),
        ('column of one, vector of one level', vc.arr('y1', (1, 1)), one,
         lambda ix: quant(vc.arr('y1', (1, 1)).at(*ix), one.at(0)),
         [one.at(0) >= 1]),
        ('column, level vector', yc, na,
         lambda ix: quant(yc.at(*ix), na.at(ix[0])), pos + lv(na)),
        ('integer column, level vector', yi, na,
         lambda ix: quant(T.real(yi.at(*ix)), na.at(ix[0])), pos + lv(na)),
        ('vector, level vector', ya, na,
         lambda ix: quant(ya.at(*ix), na.at(ix[0])), pos + lv(na)),
        ('matrix of samples, level vector', ym, na,
         lambda ix: quant(ym.at(*ix), na.at(ix[0])), pos + lv(na)),
    ]
    n1, n2 = vc.int('n1'), vc.int('n2')
    y2 = vc.arr('y2', (2, 1))
    out.append(('column of two, list of levels', y2, [n1, n2],
                lambda ix: quant(y2.at(*ix), ite(seq(ix[0], 0), n1, n2)
                                 if isz(ix[0]) else (n1, n2)[ix[0]]),
                [n1 >= 1, n2 >= 1]))
    return out


@PROP.unit('ds_quantize')
def u_py(vc):
    for nm, y, n, want, hyps in shapes(vc):
        name = 'ds_quantize(%s)' % nm
        for p in vc.call(D.ds_quantize, (y, n), hyps=hyps, name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            w = quant(y, n) if want is None else Arr(y.shape, want, 'f')
            vc.equal(name + ' = quant', p, p.value, w)


@PROP.unit('aliases')
def u_alias(vc):
    for nm, f in (('pydsm.delsig.ds_quantize', D.ds_quantize),
                  ('pydsm.simulation.ds_quantize', SIM.ds_quantize)):
        vc.holds(nm + ' is the function under contract',
                 f is DS.ds_quantize, repr(f))


@PROP.unit('ds_quantize of the compiled backends')
def u_pxi(vc):
    N_, ky, kn, kv = [vc.int(t) for t in ('N', 'ky', 'kn', 'kv')]
    iy, in_, iv = [vc.int(t) for t in ('iy', 'in', 'iv')]
    dims = [N_ >= 0, ky >= 1, kn >= 1, kv >= 1, iy >= 0, iy < ky, in_ >= 0,
            in_ < kn, iv >= 0, iv < kv]
    for mod in PYX:
        f = pyx.module(mod).ds_quantize
        cell = {}
        n = vc.arr('n', (N_, kn), 'i')
        q = z3.Int('q!')
        lev = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N_),
                                        T.lit(n.at(q, in_)) >= 1))

        def build(ctx):
            y, n = vc.arr('y', (N_, ky)), vc.arr('n', (N_, kn), 'i')
            v = vc.arr('v', (N_, kv), owner=False)
            cell['v'], cell['y'], cell['n'] = v, y, n
            cell['old'] = v.reader()
            ctx.call(f, (N_, pyx.Ptr(y, iy, 'double*'), ky,
                         pyx.Ptr(n, in_, 'int*'), kn,
                         pyx.Ptr(v, iv, 'double*'), kv))
            return v
        name = mod + '.ds_quantize'
        for p in vc.run(build, hyps=dims + [lev], name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            y, n, old = cell['y'], cell['n'], cell['old']
            vc.equal(name + ' writes quant(y, n), nothing else', p, p.value,
                     Arr((N_, kv), lambda ix: ite(
                         seq(ix[1], iv), quant(y.at(ix[0], iy),
                                               n.at(ix[0], in_)),
                         old(ix)), 'f'))


# ------------------------------------------------------------------ run time
def oracle(y, n):
    lev = np.arange(-(n - 1), n, 2, dtype=float)
    d = np.abs(lev[:, None] - np.ravel(y)[None, :])
    j = lev.shape[0] - 1 - np.argmin(d[::-1], axis=0)
    return lev[j].reshape(np.shape(y))


def inputs(d, size, n):
    k = d.rng.integers(0, 5)
    if k == 0:
        return d.rng.uniform(-n - 3, n + 3, size)
    if k == 1:
        return d.rng.integers(-n - 3, n + 4, size).astype(float)
    if k == 2:
        return d.rng.choice([-1e9, -n - .5, -n, 1 - n, 0., -0., .5, 1., n - 1,
                             n, n + .5, 1e9], size)
    if k == 3:
        return d.rng.integers(-n - 2, n + 3, size) + d.rng.choice([-1, 1])*1e-9
    return d.rng.normal(size=size) * n


@PROP.dyn('ds_quantize')
def d_py(d):
    while d.more():
        n = int(d.rng.integers(1, 12))
        y = inputs(d, 7, n)
        d.case(y=y, n=n)
        d.close(D.ds_quantize(y, n), oracle(y, n), 'ds_quantize, one quantizer')
        v = D.ds_quantize(float(y[0]), n)
        d.expect(np.ndim(v) == 0 and v == oracle(y[:1], n)[0],
                 'ds_quantize, scalar', got=v)
        k = int(d.rng.integers(1, 5))
        ns = d.rng.integers(1, 10, k)
        y = np.array([inputs(d, 1, m) for m in ns])
        d.case(y=y, n=ns)
        w = np.array([oracle(a, m) for a, m in zip(y, ns)])
        y0 = y.copy()
        v = D.ds_quantize(y, ns if d.rng.integers(2) else list(ns))
        d.expect(np.array_equal(y, y0), 'argument modified')
        d.expect(np.shape(v) == np.shape(y), 'shape', got=np.shape(v))
        d.close(v, w, 'ds_quantize, several quantizers')


@PROP.dyn('ds_quantize of the compiled backends')
def d_sim(d):
    import warnings
    while d.more():
        k = int(d.rng.integers(1, 4))
        ns = d.rng.integers(1, 10, k)
        u = np.array([inputs(d, 9, m) for m in ns])
        ABCD = np.zeros((1 + k, 1 + 2 * k))
        ABCD[1:, 1:1 + k] = np.eye(k)
        for b in ('auto', 'scipy', 'scipy_blas', 'cblas'):
            d.case(u=u, nlev=ns, backend=b)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    v = D.simulateDSM(u, ABCD, ns, backend=b)[0]
                except RuntimeError:
                    if b == 'cblas':
                        continue
                    raise
            d.close(np.reshape(v, u.shape), np.array(
                [oracle(a, m) for a, m in zip(u, ns)]),
                'quantizer of backend ' + b)
