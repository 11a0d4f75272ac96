"""Array helpers: contracts on padl/padr/padt/padb, partitionABCD, shiftdim
and axisLabels.  Shapes and contents are symbolic; shiftdim is proved for
every number of dimensions up to 4 (all singleton patterns, symbolic sizes)
and every shift in -3..9."""
import itertools
from .base import *
from pydsm import relab
import pydsm.delsig as D
from pydsm.delsig import _padding as MP, _partitionABCD as MB
from pydsm.delsig import _axisLabels as ML

PROP = Prop('C09')
PADS = {'padl': (MP.padl, 1, True), 'padr': (MP.padr, 1, False),
        'padt': (MP.padt, 0, True), 'padb': (MP.padb, 0, False)}


@PROP.unit('padding')
def u_pad(vc):
    m, k, n = vc.int('m'), vc.int('k'), vc.int('n')
    val = vc.real('val')
    for nm, (fn, ax, front) in PADS.items():
        for kind in 'fci':
            for args, v in (((), F(0)), ((val,), val)):
                x = vc.arr('x' + kind, (m,), kind)
                name = '%s(%s vector%s)' % (nm, kind, ', val' * len(args))
                for p in vc.call(fn, (x, n) + args, hyps=[m >= 0, n >= m],
                                 name=name):
                    if not vc.returns(name, p):
                        continue
                    vc.frame(name, p)
                    off = ssub(n, m) if front else 0
                    w = Arr((n,), lambda ix: _sel(
                        sand(sge(ix[0], off), slt(ix[0], sadd(off, m))),
                        x.at(ssub(ix[0], off)), v),
                        'c' if kind == 'c' else 'f')
                    vc.equal(name, p, p.value, w)
                y = vc.arr('y' + kind, (m, k), kind)
                name = '%s(%s matrix%s)' % (nm, kind, ', val' * len(args))
                d = (m, k)[ax]
                for p in vc.call(fn, (y, n) + args,
                                 hyps=[m >= 0, k >= 0, n >= d], name=name):
                    if not vc.returns(name, p):
                        continue
                    vc.frame(name, p)
                    off = ssub(n, d) if front else 0

                    def el(ix):
                        q = list(ix)
                        q[ax] = ssub(ix[ax], off)
                        return _sel(sand(sge(ix[ax], off),
                                         slt(ix[ax], sadd(off, d))),
                                    y.at(*q), v)
                    w = Arr((m, n) if ax else (n, k), el,
                            'c' if kind == 'c' else 'f')
                    vc.equal(name, p, p.value, w)


def _sel(c, a, b):
    if isinstance(a, Cx):
        b = T.cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    return ite(c, a, b)


@PROP.unit('partitionABCD')
def u_part(vc):
    r, c, m = vc.int('r'), vc.int('c'), vc.int('m')
    for given in (True, False):
        a = vc.arr('ABCD', (r, c))
        name = 'partitionABCD(%s)' % ('m' if given else 'auto')
        n = ssub(c, m) if given else ssub(ite(r <= c, r, c), 1)
        hy = [r >= 1, c >= 1] + ([m >= 1, T.lit(sge(n, 0)),
                                  T.lit(sge(r, n))] if given else [])
        for p in vc.call(MB.partitionABCD, (a,) + ((m,) if given else ()),
                         hyps=hy, name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            q, l = ssub(r, n), ssub(c, n)
            want = (Arr((n, n), lambda ix: a.at(*ix), 'f'),
                    Arr((n, l), lambda ix: a.at(ix[0], sadd(ix[1], n)), 'f'),
                    Arr((q, n), lambda ix: a.at(sadd(ix[0], n), ix[1]), 'f'),
                    Arr((q, l), lambda ix: a.at(sadd(ix[0], n),
                                                sadd(ix[1], n)), 'f'))
            vc.equal(name, p, p.value, want)
            if not given:
                vc.ob(name + ': at least one input and one output', p.hyps,
                      sand(sge(l, 1), sge(q, 1)))
                vc.ob(name + ': no smaller number of inputs', p.hyps,
                      sor(seq(l, 1), seq(q, 1)))


def shift_spec(shape, n, big):
    """axes (of the source, None = new singleton) of the result, and n"""
    nd = len(shape)
    lead = next((i for i in range(nd) if big[i]), 0)
    if n is None:
        return list(range(lead, nd)), lead
    if n > 0:
        n = n % nd
        if n == 0:
            return list(range(nd)), 0
        if n <= lead:
            return list(range(n, nd)), n
        return list(range(n, nd)) + list(range(n)), n
    if n < 0:
        return [None] * -n + list(range(nd)), n
    return list(range(nd)), 0


@PROP.unit('shiftdim')
def u_shift(vc):
    dims = [vc.int('d%d' % j) for j in range(4)]
    for nd in (1, 2, 3, 4):
        for big in itertools.product((False, True), repeat=nd):
            shp = tuple(dims[j] if big[j] else 1 for j in range(nd))
            hy = [dims[j] >= 2 for j in range(nd) if big[j]]
            x = vc.arr('x%d' % nd, shp)
            for n in [None] + list(range(-3, 10 if nd < 4 else 6)):
                name = 'shiftdim(%s, %s)' % (
                    ['1n'[b] for b in big], n)
                ax, nn = shift_spec(shp, n, big)

                def el(ix):
                    q = [0] * nd
                    for j, t in zip(ix, ax):
                        if t is not None:
                            q[t] = j
                    return x.at(*q)
                w = Arr([1 if t is None else shp[t] for t in ax], el, 'f')
                for p in vc.call(relab.shiftdim, (x, n), hyps=hy, name=name):
                    if vc.returns(name, p):
                        vc.frame(name, p)
                        vc.equal(name, p, p.value, (w, nn))
                if nd == 2:
                    for p in vc.call(relab.shiftdim, (x, n),
                                     dict(nargout=1), hyps=hy, name=name):
                        if vc.returns(name, p):
                            vc.equal(name + ' nargout=1', p, p.value, w)


@PROP.unit('axisLabels')
def u_lab(vc):
    n, s0, st = vc.int('n'), vc.int('s0'), vc.int('st')
    x = vc.arr('x', (n,))
    for name, inc, start, step, hy in (
            ('incr', 3, 0, 3, []), ('incr 1', 1, 0, 1, []),
            ('(start, incr)', (2, 5), 2, 5, []),
            ('symbolic incr', (s0, st), s0, st, [st >= 1, s0 >= 0])):
        name = 'axisLabels(x, %s)' % name
        for p in vc.call(ML.axisLabels, (x, inc), hyps=[n >= 0] + hy,
                         name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            v = p.value
            if isinstance(v, SSeq):
                i = T.fresh(I, 'i')
                # the number of labels: i is a label iff start+i*step < n
                at = sadd(start, smul(i, step))
                vc.ob(name + ' count', p.hyps + [i >= 0],
                      T.lit(slt(i, v.n)) == T.lit(slt(at, n))
                      if isinstance(step, int) else True)
                e = v.fn(i)
                ok = isinstance(e, P.Opaque) and e.name == 'fmt' and \
                    e.args[0] == '%g'
                if vc.holds(name + ' is %g', ok, 'got %r' % (e,)):
                    t = x.at(at)
                    vc.equal(name + ' label', p.hyps + [
                        i >= 0, T.lit(slt(i, v.n)), T.lit(slt(at, n))],
                        e.args[1], ite(slt(sabs(t), F(1, 10 ** 6)), F(0), t))
            else:
                vc.holds(name + ' is a list', False, 'got %r' % (v,))
    for bad in ('a', (1,), (1, 2, 3), (1, F(1, 2)), None):
        name = 'axisLabels(x, %r)' % (bad,)
        for p in vc.call(ML.axisLabels, (x, bad), hyps=[n >= 0], name=name):
            vc.raises(name, p, TypeError)


# ------------------------------------------------------------------- run time
@PROP.dyn('padding')
def d_pad(d):
    while d.more() and d.n < d.top(600):
        r = d.rng
        two = r.random() < .6
        shp = tuple(r.integers(0, 5, 2)) if two else (int(r.integers(0, 6)),)
        x = r.standard_normal(shp)
        t = r.integers(0, 3)
        if t == 1:
            x = x + 1j * r.standard_normal(shp)
        elif t == 2:
            x = r.integers(-9, 9, shp)
        nm = ['padl', 'padr', 'padt', 'padb'][r.integers(0, 4)]
        fn, ax, front = getattr(D, nm), PADS[nm][1], PADS[nm][2]
        if not two:
            ax = 0
        n = int(shp[ax] + r.integers(0, 4))
        val = [None, 0, 2.5, -1, 3][r.integers(0, 5)]
        k = x.copy()
        d.case(fn=nm, x=x, n=n, val=val)
        y = fn(x, n) if val is None else fn(x, n, val)
        pad = [(0, 0)] * len(shp)
        pad[ax] = (n - shp[ax], 0) if front else (0, n - shp[ax])
        w = np.pad(x.astype(complex), pad, constant_values=val or 0)
        d.close(y, w, nm, 0, 0)
        d.expect(np.array_equal(k, x), 'argument modified')
        if x.size:
            d.expect(not np.shares_memory(x, y), 'result aliases argument')


@PROP.dyn('partitionABCD')
def d_part(d):
    while d.more() and d.n < d.top(400):
        r = d.rng
        sh = r.integers(1, 7, 2)
        x = r.standard_normal(tuple(sh))
        auto = r.random() < .4
        n = min(sh) - 1 if auto else int(r.integers(0, min(sh[0], sh[1] - 1)
                                                    + 1)) if sh[1] > 1 else 0
        m = None if auto else int(sh[1] - n)
        y = x.tolist() if r.random() < .3 else x
        k = x.copy()
        d.case(x=y, m=m)
        A, B, C, DD = D.partitionABCD(y, m)
        for g, w, s in ((A, x[:n, :n], 'A'), (B, x[:n, n:], 'B'),
                        (C, x[n:, :n], 'C'), (DD, x[n:, n:], 'D')):
            d.close(g, w, s, 0, 0)
        d.expect(np.array_equal(k, x), 'argument modified')


@PROP.dyn('shiftdim')
def d_shift(d):
    while d.more() and d.n < d.top(600):
        r = d.rng
        nd = int(r.integers(1, 6))
        shp = tuple(int(t) for t in r.choice([1, 1, 2, 3], nd))
        x = r.standard_normal(shp)
        n = None if r.random() < .3 else int(r.integers(-3, 9))
        ax, nn = shift_spec(shp, n, [t > 1 for t in shp])
        k = x.copy()
        d.case(x=x, n=n)
        y, g = relab.shiftdim(x.tolist() if r.random() < .3 else x, n)
        d.expect(g == nn, 'shift count', got=g, want=nn)
        src = [t for t in ax if t is not None]
        w = np.transpose(x, src + [t for t in range(nd) if t not in src])
        w = w.reshape([1 if t is None else shp[t] for t in ax])
        d.close(y, w, 'shiftdim', 0, 0)
        d.expect(np.array_equal(k, x), 'argument modified')
        z = relab.shiftdim(x, n, nargout=1)
        d.close(z, w, 'nargout=1', 0, 0)
        if n is None:
            d.close(relab.shiftdim(y, -g, 1), x, 'reverse shift', 0, 0)
        elif n > 0 and len(ax) == nd:
            d.close(relab.shiftdim(y, nd - g if g else 0, 1).reshape(shp),
                    x, 'reverse shift', 0, 0)


@PROP.dyn('axisLabels')
def d_lab(d):
    while d.more() and d.n < d.top(400):
        r = d.rng
        x = r.standard_normal(r.integers(0, 12)) * 10.0 ** r.integers(-9, 9)
        if r.random() < .3:
            x = np.arange(12) * 0.1 - .5
        s, st = int(r.integers(0, 4)), int(r.integers(1, 5))
        inc = st if r.random() < .5 else (s, st)
        if not isinstance(inc, int) and r.random() < .3:
            inc = list(inc)
        y = x.tolist() if r.random() < .3 else x
        k = x.copy()
        d.case(points=y, incr=inc)
        w = ['%g' % (0 if abs(t) < 1e-6 else t)
             for t in x[(0 if isinstance(inc, int) else s)::st]]
        d.expect(D.axisLabels(y, inc) == w, 'axisLabels', want=w,
                 got=D.axisLabels(y, inc))
        d.expect(np.array_equal(k, x), 'argument modified')
    d.case(points=[1, 2], incr=1.5)
    d.raises(TypeError, D.axisLabels, [1., 2.], 1.5)
    d.raises(TypeError, D.axisLabels, [1., 2.], (1, 2, 3))
    d.raises(TypeError, D.axisLabels, [1., 2.], (1, 2.))
