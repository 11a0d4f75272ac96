"""Argument checking of the simulators.  For arrays of any size and every number
of dimensions that matters, each of the three simulators (Python text of the
scipy backend, Cython text of the two compiled ones) is proved to return exactly
when the sizes match and to raise ValueError otherwise, with no call of the
quantizer; on the accepted paths every pointer access of the compiled code is
proved in bounds, no array of the caller is written and no result shares memory
with one.  The front end dispatches to the named backend or raises
RuntimeError."""
from .base import *
from .C01 import quant, quant_contract, DS, PYX
from .C02 import Mod, track_contract, pick, reference
from .C03 import Ntf, rand_ntf
from pyvc import pyx
from pyvc.loops import Ghost
import pydsm.delsig as D
from pydsm.delsig import _simulateDSM as FR

PROP = Prop('C04')
BACK = ('scipy',) + PYX
CALLED = 'quantizer called'


def noting(f):
    def g(ctx, *a):
        ctx.events.append((CALLED,))
        return f(ctx, *a)
    return g


def ds_any(ctx, y, n):
    """the quantizer, whatever the level counts"""
    y, n = N.asarr(ctx, y), N.asarr(ctx, n)
    ctx.oblige('ds_quantize: one row per level count',
               seq(y.shape[0], n.shape[0]))
    ry, rn = y.reader(), n.reader()
    return Arr(y.shape, lambda ix: quant(ry(ix), rn((ix[0],))), 'f')


def backend(b):
    if b == 'scipy':
        return DS.simulateDSM, {id(DS.ds_quantize): noting(ds_any)}
    m = pyx.module(b)
    return m.simulateDSM, {id(m.ds_quantize): noting(quant_contract),
                           id(m.track_vabsmax): track_contract}


class Args(Mod):
    """arguments of unconstrained sizes"""
    def __init__(self, vc, u=2, nlev=1, abcd=2, x0='zero', tup=None):
        self.vc = vc
        dims = ['nu', 'N', 'u3']
        i = vc.int
        nn = i('N')
        self.hyps = [nn >= 0]

        def arr(name, nd, kind='f'):
            sh = tuple(i('%s_%d' % (name, j)) for j in range(nd))
            self.hyps.extend(d >= 0 for d in sh)
            return lambda: vc.arr(name, sh, kind), sh
        one = u == 'row'
        if one:
            u = nlev = 2
        ua, us = arr('u', u)
        na, ns = arr('nlev', nlev, 'i')
        if one:
            n_ = us[1]
            us, ns, nlev = (1, n_), (1,), 1
            ua = lambda: vc.arr('u', us)
            na = lambda: vc.arr('nlev', ns, 'i')
        elif tup is not None and u == 2:
            self.hyps.append(T.lit(sor(sne(us[0], 1), sne(ns[0], 1))))
        if u == 0:
            self.u = lambda: vc.real('u')
            self.nu, self.N = 1, 1
            self.u_at = lambda k, j: vc.real('u')
        else:
            self.u = ua
            self.nu = 1 if u == 1 else us[0]
            self.N = us[-1]
            self.u_at = (lambda k, j: ua().at(j)) if u == 1 else (
                lambda k, j: ua().at(*([k, j] + [0] * (u - 2))))
        if nlev == 0:
            self.nlev = lambda: vc.int('nlev')
            self.nq = 1
            self.n_at = lambda q: vc.int('nlev')
        else:
            self.nlev = na
            self.nq = ns[0]
            self.n_at = lambda q: na().at(*([q] + [0] * (nlev - 1)))
        ok = [u <= 2, nlev <= 1, sge(self.nq, 1), sge(self.nu, 1)]
        if tup is None:
            if abcd == 2:
                # any number of rows and columns: `order` and `extra` may be
                # negative
                self.order, extra = i('order'), i('extra')
                rows = sadd(self.order, self.nq)
                cols = sadd(sadd(rows, self.nu), extra)
                self.hyps += [T.lit(sge(rows, 0)), T.lit(sge(cols, 0))]
                aa = lambda: vc.arr('abcd', (rows, cols))
                ok += [seq(extra, 0)]
            else:
                aa, _ = arr('abcd', abcd)
                self.order = 1
                ok += [False]
            self.abcd = self.arg2 = aa
        else:
            nz, np_ = i('nz'), i('np')
            self.hyps += [nz >= 0, np_ >= 0]
            dz, dp = tup
            za = lambda: vc.arr('z', (nz,) + (1,) * (dz - 1) if dz else (),
                                'c')
            pa = lambda: vc.arr('p', (np_,) + (1,) * (dp - 1) if dp else (),
                                'c')
            self.z, self.p = za, pa
            self.arg2 = lambda: (za(), pa(), 1)
            self.order = nz
            ok += [dz == 1, dp == 1, seq(nz, np_), seq(self.nu, 1),
                   seq(self.nq, 1)]
        ok.append(sge(self.order, 1))
        if x0 == 'zero':
            self.x0, self.x0_at = lambda: 0, lambda r: 0
        elif x0 == 'scalar':
            self.x0, self.x0_at = lambda: vc.real('x0'), lambda r: 0
            ok.append(seq(vc.real('x0'), 0))
        elif x0 in ('column', 'row'):
            m = i('m')
            self.hyps.append(m >= 0)
            sh = (m, 1) if x0 == 'column' else (1, m)
            self.x0 = xa = lambda: vc.arr('x0', sh)
            self.x0_at = (lambda r: xa().at(r, 0)) if x0 == 'column' else (
                lambda r: xa().at(0, r))
            ok.append(seq(m, self.order))
        else:
            xa, xs = arr('x0', x0)
            self.x0 = xa
            self.x0_at = {1: lambda r: xa().at(r)}.get(x0, lambda r: 0)
            if x0 == 2:
                # entries in a number different from the order
                self.hyps.append(T.lit(sne(smul(*xs), self.order)))
                ok += [False]
            else:
                ok += [x0 == 1 and seq(xs[0], self.order)]
        self.ok = sand(*ok)
        self.X = z3.Function('X!', I, I, R)
        self.M = z3.Function('M!', I, I, R)


class NtfArgs(Args, Ntf):
    """modulator given by zeros and poles of unconstrained numbers"""
    Y, Xnext = Ntf.Y, Ntf.Xnext

    def __init__(self, vc, tup, **k):
        Args.__init__(self, vc, tup=tup, **k)
        if tup == (1, 1):
            self.realise(vc, 1)


def check(vc, b, m, flags=(True, True, True), nm=''):
    fn, con = backend(b)
    if isinstance(m, NtfArgs):
        con = {**con, **m.contracts()}
    name = '%s(%s)' % (b, nm)
    seen = set()
    for p in vc.call(fn, lambda: (m.u(), m.arg2(), m.nlev(), m.x0()),
                     dict(zip(('store_xn', 'store_xmax', 'store_y'), flags)),
                     hyps=m.hyps, name=name, contracts=con,
                     ghosts=m.ghosts()):
        if not p.returned and not S.feasible(p.hyps, 5000):
            continue
        vc.frame(name, p)
        if p.returned:
            seen.add('accepted')
            vc.ob(name + ': only matching sizes are accepted', p.hyps, m.ok)
            rs = p.value if isinstance(p.value, tuple) else (p.value,)
            sh = [j for j, r in enumerate(rs) if not isarr(r) or
                  r.buf.owner is not None]
            vc.holds(name + ': results own their memory', not sh,
                     'results %s' % sh)
        else:
            seen.add('rejected')
            vc.raises(name, p, ValueError)
            vc.ob(name + ': matching sizes are not rejected', p.hyps,
                  snot(m.ok))
            vc.holds(name + ': rejected before the first sample', not any(
                e[0] == CALLED for e in flat_events(p.events)))
    return seen


CASES = [
    ('u 2-D', dict(u=2), (True, True, True)),
    ('nothing stored', dict(u=2), (False, False, False)),
    ('u 1-D', dict(u=1), (True, True, True)),
    ('u scalar', dict(u=0), (True, True, True)),
    ('u 3-D', dict(u=3), (True, True, True)),
    ('nlev scalar', dict(nlev=0), (True, True, True)),
    ('nlev 2-D', dict(nlev=2), (True, True, True)),
    ('specification 1-D', dict(abcd=1), (True, True, True)),
    ('specification 3-D', dict(abcd=3), (True, True, True)),
    ('x0 scalar', dict(x0='scalar', u=1, nlev=0), (True, True, True)),
    ('x0 0-D', dict(x0=0, u=1, nlev=0), (True, True, True)),
    ('x0 1-D', dict(x0=1), (False, True, False)),
    ('x0 1-D kept', dict(x0=1), (True, False, True)),
    ('x0 column', dict(x0='column', u=1), (False, True, False)),
    ('x0 row', dict(x0='row', u=1, nlev=0), (False, False, False)),
    ('x0 matrix of another size', dict(x0=2, u=1, nlev=0), (0, 0, 0)),
    ('x0 3-D', dict(x0=3, u=1, nlev=0), (True, True, True)),
]


def _units():
    for b in BACK:
        for nm, kw, fl in CASES:
            def f(vc, b=b, kw=kw, fl=fl, nm=nm):
                check(vc, b, Args(vc, **kw), fl, nm)
            PROP.unit('%s: %s' % (b, nm))(f)


TUPLES = [
    ('zeros and poles', dict(tup=(1, 1), u=1, nlev=0), (True, True, True)),
    ('zeros and poles, matrices', dict(tup=(1, 1), u=2, nlev=1),
     (False, True, False)),
    ('zeros and poles, one row', dict(tup=(1, 1), u='row'),
     (False, True, False)),
    ('zeros scalar', dict(tup=(0, 1), u=1, nlev=0), (True, True, True)),
    ('zeros 2-D', dict(tup=(2, 1), u=1, nlev=0), (True, True, True)),
    ('poles scalar', dict(tup=(1, 0), u=1, nlev=0), (True, True, True)),
    ('poles 2-D', dict(tup=(1, 2), u=1, nlev=0), (True, True, True)),
    ('zeros and poles, x0 1-D', dict(tup=(1, 1), u=1, nlev=0, x0=1),
     (True, False, False)),
]


def _tuples():
    for b in BACK:
        for nm, kw, fl in TUPLES:
            def f(vc, b=b, kw=kw, fl=fl, nm=nm):
                check(vc, b, NtfArgs(vc, **kw), fl, nm)
            PROP.unit('%s: %s' % (b, nm))(f)


_units()
_tuples()


NAMES = {'auto': '_simulateDSM_scipy_blas', 'scipy': '_simulateDSM_scipy',
         'scipy_blas': '_simulateDSM_scipy_blas',
         'cblas': '_simulateDSM_cblas'}


@PROP.unit('dispatch to the backends')
def u_front(vc):
    """every argument reaches the simulator that was named, in its place;
    other names raise RuntimeError and nothing is simulated"""
    fn = FR.simulateDSM
    vals = dict(u=P.Opaque('u', ()), arg2=P.Opaque('arg2', ()),
                nlev=P.Opaque('nlev', ()), x0=P.Opaque('x0', ()),
                store_xn=P.Opaque('xn', ()), store_xmax=P.Opaque('xm', ()),
                store_y=P.Opaque('y', ()))
    order = list(vals)
    dflt = dict(nlev=2, x0=0, store_xn=False, store_xmax=False,
                store_y=False)

    def sim(tag):
        def g(ctx, *a, **k):
            d = dict(dflt)
            d.update(zip(order, a))
            d.update(k)
            ctx.events.append(('simulated', tag, d))
            return P.Opaque('results', ())
        return g
    con = {}
    for nm in sorted(set(NAMES.values())):
        if nm == '_simulateDSM_cblas' and not FR.HAS_CBLAS:
            continue
        con[id(getattr(FR, nm))] = sim(nm)
    for given in (None, 'auto', 'scipy', 'scipy_blas', 'cblas', 'other', '',
                  7):
        for table in ('auto', 'scipy', 'scipy_blas'):
            for cb in (True, False):
                if cb and not FR.HAS_CBLAS:
                    continue
                for full in (True, False):
                    _dispatch(vc, fn, given, table, cb, full, vals, dflt,
                              con)


def _dispatch(vc, fn, given, table, cb, full, vals, dflt, con):
    name = 'backend %r, default %r%s%s' % (
        given, table, '' if cb else ', no cblas', '' if full else
        ', other defaults')
    args = dict(vals) if full else {k: vals[k] for k in ('u', 'arg2')}
    want = dict(dflt)
    want.update(args)

    def build(ctx):
        ctx.modvals[('fattr', id(fn), 'default_options')] = {
            'backend': table}
        ctx.modvals[(FR.__name__, 'HAS_CBLAS')] = cb
        k = {} if given is None else {'backend': given}
        a = list(args.values())
        return ctx.call(fn, tuple(a), k)
    b = table if given is None else given
    ok = b in NAMES and (cb or b != 'cblas')
    for p in vc.run(build, name=name, contracts=con):
        ev = [e for e in flat_events(p.events) if e[0] == 'simulated']
        if not ok:
            vc.raises(name, p, RuntimeError)
            vc.holds(name + ': nothing simulated', not ev)
            continue
        if not vc.returns(name, p):
            continue
        if vc.holds(name + ': one simulation', len(ev) == 1, repr(ev)):
            vc.holds(name + ': by the named backend', ev[0][1] == NAMES[b],
                     ev[0][1])
            for k in want:
                vc.holds('%s: argument %s' % (name, k),
                         ev[0][2].get(k) is want[k] or
                         ev[0][2].get(k) == want[k], repr(ev[0][2].get(k)))
        vc.holds(name + ': the results are handed on', isinstance(
            p.value, P.Opaque) and p.value.name == 'results', repr(p.value))


# ------------------------------------------------------------------ run time
def _frozen(x):
    if isinstance(x, (list, tuple)):
        return (type(x), [_frozen(t) for t in x])
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    return x


def _arrays(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for t in x for a in _arrays(t)]
    return []


@PROP.dyn('sizes accepted and rejected')
def d_sizes(d):
    import warnings
    warnings.simplefilter('ignore')
    bk = ['auto', 'scipy', 'scipy_blas'] + ['cblas'] * FR.HAS_CBLAS
    while d.more():
        o, nu, nq = [int(t) for t in d.rng.integers(1, 4, 3)]
        n = int(d.rng.integers(0, 6))
        ntf = d.rng.integers(0, 3) == 0
        if ntf:
            nu = nq = 1
        o2, nu2, nq2 = o, nu, nq
        w = pick(d, '', '', 'o', 'u', 'q', 'ndim')
        if w == 'o':
            o2 = int(d.rng.integers(0, 4))
        elif w == 'u':
            nu2 = int(d.rng.integers(0, 4))
        elif w == 'q':
            nq2 = int(d.rng.integers(0, 4))
        u = d.rng.integers(-9, 10, (nu2, n)) / 4.
        nlev = d.rng.integers(2, 9, nq2)
        x0 = d.rng.integers(-3, 4, o) / 2.
        spec = d.rng.integers(-2, 3, (o2 + nq, o2 + nq + nu)) / 2.
        if ntf:
            z, p = rand_ntf(d, o2) if o2 else (np.zeros(0), np.zeros(0))
            if d.rng.integers(0, 4) == 0:
                p = p[:-1]
            spec = (z, p, 1.)
        if w == 'ndim':
            k = int(d.rng.integers(0, 4))
            if k == 0:
                u = u[None]
            elif k == 1:
                nlev = nlev[None]
            elif k == 2:
                x0 = x0[None, None]
            elif ntf:
                spec = (spec[0][None], spec[1], 1.)
            else:
                spec = pick(d, spec[None], spec[0], 3., 'abc')
        else:
            x0 = pick(d, x0, x0[None], x0[:, None], list(x0))
        if ntf:
            ok = w != 'ndim' and nu2 == nq2 == 1 and len(spec[0]) == len(
                spec[1]) == o
        else:
            # number of states implied by the matrix
            oo = spec.shape[0] - nq2 if getattr(spec, 'ndim', 0) == 2 else 0
            ok = w != 'ndim' and oo == o and nu2 >= 1 and nq2 >= 1 and \
                spec.shape[1] == spec.shape[0] + nu2
        b = pick(d, *bk)
        if d.rng.integers(0, 2) and isinstance(spec, np.ndarray):
            spec = pick(d, np.asfortranarray(spec), spec.tolist())
        if nu2 == 1 and u.ndim == 2:
            u = pick(d, u, u[0])
        if nq2 == 1 and nlev.ndim == 1:
            nlev = pick(d, nlev, list(nlev))
        if nq2 == 1 and nlev is not None and d.rng.integers(0, 4) == 0 and (
                np.ndim(nlev) == 1):
            nlev = int(nlev[0])
        fl = [bool(t) for t in d.rng.integers(0, 2, 3)]
        d.case(u=u, spec=spec, nlev=nlev, x0=x0, flags=fl, backend=b)
        args = (u, spec, nlev, x0)
        was = [_frozen(a) for a in args]
        if ntf and ok and np.allclose(np.sort_complex(spec[0]),
                                      np.sort_complex(spec[1])):
            continue
        try:
            g = D.simulateDSM(*args, *fl, backend=b)
        except ValueError:
            d.expect(not ok, 'matching sizes rejected')
            g = ()
        except Exception as e:
            d.expect(False, 'raised %s: %s' % (type(e).__name__, e))
        else:
            d.expect(ok, 'sizes do not match, no ValueError')
        d.expect(was == [_frozen(a) for a in args], 'argument modified')
        d.expect(not any(np.shares_memory(r, a) for r in g
                         for x in args for a in _arrays(x)),
                 'a result shares memory with an argument')


@PROP.dyn('other malformed arguments')
def d_other(d):
    import warnings
    warnings.simplefilter('ignore')
    bk = ['auto', 'scipy', 'scipy_blas'] + ['cblas'] * FR.HAS_CBLAS
    H = (np.ones(2), np.zeros(2), 1)
    ab = np.array([[1., 1, -1], [1, 0, 0]])
    for b in bk:
        for u, s, n, x in [
                ('abc', ab, 2, 0), (['a'], ab, 2, 0), (np.zeros(3), ab, 'a',
                                                       0),
                (np.zeros(3), 'a', 2, 0), (np.zeros(3), ab, 2, 'a'),
                (np.zeros(3), ab, 2, 1), (np.zeros(3), ab, 2, [1, 2]),
                (np.zeros(3), ab, [], 0), (np.zeros(3), ab, [2, 2], 0),
                (np.zeros((2, 3)), H, 2, 0), (np.zeros(3), H, [2, 2], 0),
                (np.zeros(3), (np.ones(2), np.zeros(1), 1), 2, 0),
                (np.zeros(3), (1., 0., 1), 2, 0),
                (np.zeros(3), (np.ones(0), np.zeros(0), 1), 2, 0),
                (np.zeros(3), ab[:1], 2, 0), (np.zeros(3), ab[:, :2], 2, 0),
                (np.zeros(3), None, 2, 0), (None, ab[:, :1], 2, 0),
                (np.zeros(3), np.zeros((0, 1)), 2, 0),
                (np.zeros(3), H, 2, np.zeros((3, 1)))]:
            d.case(u=u, spec=s, nlev=n, x0=x, backend=b)
            d.raises(ValueError, D.simulateDSM, u, s, n, x, backend=b)
    for b in ('blas', '', 'SCIPY', None):
        d.case(backend=b)
        d.raises(RuntimeError, D.simulateDSM, np.zeros(3), H, 2, backend=b)
    while d.more():
        break
