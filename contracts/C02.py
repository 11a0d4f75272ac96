"""State-space simulation.  For a modulator given as an ABCD matrix the three
simulators (the Python text of the scipy backend and the Cython text of the two
compiled ones) are executed symbolically for any number of states, inputs,
quantizers and samples; the sample loop is summarised by a ghost sequence X, M
(state, running maximum) whose initial value and step are proved, and all four
results are proved equal to the difference equations.  The quantizer is used
through its contract (C01); every array access of the compiled code carries a
bounds obligation."""
from .base import *
from .C01 import quant, quant_contract, DS, PYX
from pyvc import pyx
from pyvc.loops import Ghost
import itertools
import pydsm.delsig as D

PROP = Prop('C02')


class Mod:
    """the modulator of the specification"""
    def __init__(self, vc, u='matrix', x0='column', nlev='vector',
                 abcd='array'):
        self.vc = vc
        order, N = vc.int('order'), vc.int('N')
        nu = vc.int('nu') if u == 'matrix' else 1
        nq = vc.int('nq') if nlev == 'vector' else 1
        self.order, self.N, self.nu, self.nq = order, N, nu, nq
        self.hyps = [order >= 1, N >= 0] + [
            d >= 1 for d in (nu, nq) if T.isz(d)]
        self.u = {'matrix': lambda: vc.arr('u', (nu, N)),
                  'vector': lambda: vc.arr('u', (N,)),
                  'row': lambda: vc.arr('u', (1, N)),
                  'integers': lambda: vc.arr('u', (N,), 'i')}[u]
        uu = self.u()
        self.u_at = (lambda k, i: T.real(uu.at(i))) if uu.ndim == 1 else (
            lambda k, i: T.real(uu.at(k, i)))
        self.x0 = {'column': lambda: vc.arr('x0', (order, 1)),
                   'vector': lambda: vc.arr('x0', (order,)),
                   'row': lambda: vc.arr('x0', (1, order)),
                   'zero': lambda: 0}[x0]
        xx = self.x0()
        self.x0_at = {'column': lambda r: xx.at(r, 0),
                      'vector': lambda r: xx.at(r),
                      'row': lambda r: xx.at(0, r),
                      'zero': lambda r: 0}[x0]
        self.nlev = {'vector': lambda: vc.arr('nlev', (nq,), 'i'),
                     'one': lambda: vc.arr('nlev', (1,), 'i'),
                     'scalar': lambda: vc.int('nlev')}[nlev]
        nn = self.nlev()
        self.n_at = (lambda q: nn) if nlev == 'scalar' else (
            lambda q: nn.at(q))
        q = z3.Int('q!')
        self.hyps.append(
            z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T.lit(nq)), T.lit(
                nn.at(q)) >= 1)) if nlev != 'scalar' else nn >= 1)
        self.abcd = lambda: vc.arr('ABCD', (order + nq, order + nq + nu))
        self.X = z3.Function('X!', I, I, R)
        self.M = z3.Function('M!', I, I, R)

    def a(self, r, c):
        return self.abcd().at(r, c)

    def Xat(self, i, r):
        return self.X(T.lit(i), T.lit(r))

    def Y(self, i, q):
        o = self.order
        return sadd(
            ssum(0, o, lambda k: smul(self.a(sadd(o, q), k),
                                      self.Xat(i, k))),
            ssum(0, self.nu, lambda k: smul(self.a(sadd(o, q), sadd(o, k)),
                                            self.u_at(k, i))))

    def V(self, i, q):
        return quant(self.Y(i, q), self.n_at(q))

    def Xnext(self, i, r):
        o, nu = self.order, self.nu
        return sadd(sadd(
            ssum(0, o, lambda k: smul(self.a(r, k), self.Xat(i, k))),
            ssum(0, nu, lambda k: smul(self.a(r, sadd(o, k)),
                                       self.u_at(k, i)))),
            ssum(0, self.nq, lambda k: smul(
                self.a(r, sadd(sadd(o, nu), k)), self.V(i, k))))

    def final(self, F, init, r):
        return ite(sle(self.N, 0), T.real(init(r)), F(T.lit(self.N),
                                                      T.lit(r)))

    def Mnext(self, i, r):
        m, x = self.M(T.lit(i), T.lit(r)), sabs(self.Xnext(i, r))
        return ite(sgt(x, m), x, m)

    def ghosts(self):
        """X and M, whatever the layout of the array holding them"""
        out = []
        for ar, j in ((2, 0), (2, 1), (1, 0)):
            out += [Ghost('X', ar, lambda ix, j=j: self.x0_at(ix[j]),
                          lambda i, ix, j=j: self.X(T.lit(i), T.lit(ix[j])),
                          lambda i, ix, j=j: self.Xnext(i, ix[j])),
                    Ghost('M', ar, lambda ix, j=j: sabs(self.x0_at(ix[j])),
                          lambda i, ix, j=j: self.M(T.lit(i), T.lit(ix[j])),
                          lambda i, ix, j=j: self.Mnext(i, ix[j]))]
        return out


def ds_model(ctx, y, n):
    """contract of the stand-alone quantizer, one sample per quantizer"""
    y, n = N.asarr(ctx, y), N.asarr(ctx, n)
    if y.ndim != 2 or n.ndim != 1:
        raise T.Unsupported('ds_quantize contract: shape of the arguments')
    ctx.oblige('ds_quantize: one row per level count',
               seq(y.shape[0], n.shape[0]))
    q = T.fresh(I, 'q')
    ctx.oblige('ds_quantize: level counts positive', T.simplies(
        sand(sle(0, q), slt(q, n.shape[0])), sge(n.at(q), 1)))
    ry, rn = y.reader(), n.reader()
    return Arr(y.shape, lambda ix: quant(ry(ix), rn((ix[0],))), 'f')


def track_contract(ctx, n, m, ms, x, xs):
    """contract of track_vabsmax"""
    ctx.oblige('track_vabsmax: count not negative', sge(n, 0))
    ctx.oblige('track_vabsmax: no overlap', m.arr.buf is not x.arr.buf)
    Mx = pyx.reads(ctx, m, n, ms, 'track_vabsmax: maxima in bounds')
    Xs = pyx.reads(ctx, x, n, xs, 'track_vabsmax: values in bounds')
    pyx.vec_write(ctx, m, n, ms, lambda r: ite(
        sgt(sabs(Xs(r)), Mx(r)), sabs(Xs(r)), Mx(r)),
        'track_vabsmax: maxima in bounds')


@PROP.unit('running maximum of the compiled backends')
def u_track(vc):
    N_, km, kx, im, ix_ = [vc.int(t) for t in ('N', 'km', 'kx', 'im', 'ix')]
    dims = [N_ >= 0, km >= 1, kx >= 1, im >= 0, im < km, ix_ >= 0, ix_ < kx]
    for mod in PYX:
        f = pyx.module(mod).track_vabsmax

        def build(ctx):
            m = vc.arr('m', (N_, km), owner=False)
            x = vc.arr('x', (N_, kx))
            ctx.call(f, (N_, pyx.Ptr(m, im, 'double*'), km,
                         pyx.Ptr(x, ix_, 'double*'), kx))
            return m
        name = mod + '.track_vabsmax'
        for p in vc.run(build, hyps=dims, name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            m, x = vc.arr('m', (N_, km)), vc.arr('x', (N_, kx))
            vc.equal(name + ': the running maximum', p, p.value, Arr(
                (N_, km), lambda e: ite(
                    sand(seq(e[1], im), sgt(sabs(x.at(e[0], ix_)),
                                            m.at(*e))),
                    sabs(x.at(e[0], ix_)), m.at(*e)), 'f'))


def backends():
    out = [('scipy', DS.simulateDSM, {id(DS.ds_quantize): ds_model})]
    for m in PYX:
        mod = pyx.module(m)
        out.append((m, mod.simulateDSM,
                    {id(mod.ds_quantize): quant_contract,
                     id(mod.track_vabsmax): track_contract}))
    return out


def squeezed(p, rows, cols, f):
    """numpy.squeeze of the rows x cols matrix f, the sizes being decided on
    this path"""
    keep = []
    for d in (rows, cols):
        one = S.decide(p.hyps, seq(d, 1)) if T.isz(d) else d == 1
        if one is None:
            raise T.Unsupported('squeeze: undecided size')
        keep.append(not one)
    shape = [d for d, k in zip((rows, cols), keep) if k]

    def at(ix):
        ix = list(ix)
        return f(*[ix.pop(0) if k else 0 for k in keep])
    return Arr(shape, at, 'f')


FLAGS = list(itertools.product((False, True), repeat=3))


def simulate(vc, name, fn, contracts, m, flags):
    xn, xm, st_y = flags
    nm = '%s(%s)' % (name, ' '.join(t for f, t in zip(
        flags, ('xn', 'xmax', 'y')) if f))
    for p in vc.call(fn, lambda: (m.u(), m.abcd(), m.nlev(), m.x0()),
                     dict(store_xn=xn, store_xmax=xm, store_y=st_y),
                     hyps=m.hyps, name=nm, contracts=contracts,
                     ghosts=m.ghosts()):
        if not vc.returns(nm, p):
            continue
        vc.frame(nm, p)
        N_, o, nq = m.N, m.order, m.nq
        if not vc.holds(nm + ': four results', isinstance(p.value, tuple) and
                        len(p.value) == 4, repr(p.value)):
            continue
        v, x, xmax, y = p.value
        vc.equal(nm + ': v', p, v, squeezed(
            p, nq, N_, lambda q, i: m.V(i, q)))
        if xn:
            vc.equal(nm + ': the state after each sample', p, x, squeezed(
                p, o, N_, lambda r, i: m.Xnext(i, r)))
        else:
            vc.equal(nm + ': the final state', p, x, squeezed(
                p, o, 1, lambda r, i: m.final(m.X, m.x0_at, r)))
        if xm:
            vc.equal(nm + ': the largest state magnitudes', p, xmax, Arr(
                (o, 1), lambda ix: m.final(m.M, lambda r: sabs(
                    m.x0_at(r)), ix[0]), 'f'))
        else:
            vc.holds(nm + ': no maxima', isarr(xmax) and 0 in xmax.shape,
                     repr(xmax))
        if st_y:
            vc.equal(nm + ': the quantizer input', p, y, squeezed(
                p, nq, N_, lambda q, i: m.Y(i, q)))
        else:
            vc.holds(nm + ': no quantizer input', isarr(y) and 0 in y.shape,
                     repr(y))


def _units():
    for b in range(3):
        for fl in FLAGS:
            def f(vc, b=b, fl=fl):
                name, fn, con = backends()[b]
                simulate(vc, name, fn, con, Mod(vc), fl)
            PROP.unit('%s %s' % ((('scipy',) + PYX)[b], ''.join(
                '01'[x] for x in fl)))(f)


    for b in range(3):
        for j, (u, x0, nl) in enumerate(VARIANTS):
            def f(vc, b=b, u=u, x0=x0, nl=nl):
                name, fn, con = backends()[b]
                simulate(vc, name, fn, con, Mod(vc, u, x0, nl), (1, 1, 1))
            PROP.unit('%s: u %s, x0 %s, nlev %s' % (
                (('scipy',) + PYX)[b], u, x0, nl))(f)


VARIANTS = [('vector', 'zero', 'scalar'), ('integers', 'vector', 'scalar'),
            ('matrix', 'row', 'vector'), ('row', 'zero', 'vector')]
_units()


# ------------------------------------------------------------------ run time
def qref(y, n):
    n = int(n)
    r = 2 * np.floor(y / 2) + 1 if n % 2 == 0 else 2 * np.floor((y + 1) / 2)
    return max(min(r, n - 1), 1 - n)


def reference(u, abcd, nlev, x0):
    nq, nu = len(nlev), u.shape[0]
    o = abcd.shape[0] - nq
    x = x0.reshape(-1).copy()
    v, y, xs = [], [], []
    mx = np.abs(x)
    for i in range(u.shape[1]):
        yi = [sum(abcd[o + q, k] * x[k] for k in range(o)) +
              sum(abcd[o + q, o + k] * u[k, i] for k in range(nu))
              for q in range(nq)]
        vi = [qref(a, n) for a, n in zip(yi, nlev)]
        x = np.array([sum(abcd[r, k] * x[k] for k in range(o)) +
                      sum(abcd[r, o + k] * u[k, i] for k in range(nu)) +
                      sum(abcd[r, o + nu + k] * vi[k] for k in range(nq))
                      for r in range(o)])
        mx = np.maximum(mx, np.abs(x))
        v.append(vi)
        y.append(yi)
        xs.append(x)
    n = u.shape[1]
    return (np.array(v).reshape(n, nq).T, np.array(xs).reshape(n, o).T,
            x.reshape(-1, 1), mx.reshape(-1, 1),
            np.array(y).reshape(n, nq).T)


def pick(d, *a):
    return a[int(d.rng.integers(0, len(a)))]


@PROP.dyn('run-time comparison')
def d_main(d):
    import warnings
    warnings.simplefilter('ignore')
    from pydsm.delsig import _simulateDSM as FR
    bk = ['auto', 'scipy', 'scipy_blas'] + ['cblas'] * FR.HAS_CBLAS
    while d.more():
        o, nu, nq = [int(t) for t in d.rng.integers(1, 4, 3)]
        n = int(d.rng.integers(0, 9))
        if d.rng.integers(0, 3) == 0:
            nu = nq = 1
        # dyadic data: every sum is exact, so that the order of the additions
        # does not matter
        abcd = d.rng.integers(-3, 4, (o + nq, o + nq + nu)) / 2.
        u = d.rng.integers(-9, 10, (nu, n)) / 4.
        x0 = d.rng.integers(-4, 5, (o, 1)) / 2.
        nlev = d.rng.integers(1, 9, nq)
        kx = pick(d, 'zero', 'col', 'vec', 'row', 'list')
        if kx == 'zero':
            x0 = x0 * 0
        fl = [bool(t) for t in d.rng.integers(0, 2, 3)]
        b = pick(d, *bk)
        ax = {'zero': 0, 'col': x0, 'vec': x0[:, 0], 'row': x0.T,
              'list': [float(t) for t in x0[:, 0]]}[kx]
        an = pick(d, nlev, [int(t) for t in nlev])
        if nq == 1:
            an = pick(d, an, int(nlev[0]))
        au = pick(d, u, np.asfortranarray(u), u.tolist())
        if nu == 1:
            au = pick(d, au, u[0], u[0].tolist())
        aa = pick(d, abcd, np.asfortranarray(abcd), abcd.tolist())
        d.case(u=au, ABCD=aa, nlev=an, x0=ax, flags=fl, backend=b)
        w = reference(u, abcd, nlev, x0)
        g = D.simulateDSM(au, aa, an, ax, *fl, backend=b)
        d.expect(len(g) == 4, 'four results')
        d.close(g[0], w[0].squeeze(), 'output', 0, 0)
        d.close(g[1], (w[1] if fl[0] else w[2]).squeeze(), 'states', 0, 0)
        if fl[1]:
            d.close(g[2], w[3], 'maxima', 0, 0)
        else:
            d.expect(np.size(g[2]) == 0, 'maxima not asked for')
        if fl[2]:
            d.close(g[3], w[4].squeeze(), 'quantizer input', 0, 0)
        else:
            d.expect(np.size(g[3]) == 0, 'quantizer input not asked for')


@PROP.dyn('a single scalar sample')
def d_scalar(d):
    for b in ('scipy', 'scipy_blas'):
        d.case(backend=b)
        g = D.simulateDSM(.5, np.array([[1., 1, -1], [1, 0, 0]]), backend=b)
        d.close(g[0], np.array(1.), 'output', 0, 0)
