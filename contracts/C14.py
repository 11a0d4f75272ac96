"""CLANS.  dsclansNTF is proved, for every order, parameter vector, radius and zeros,
to give order poles: rmax (1 + s)/(1 - s) for s = -x_0^2 (odd orders) and for the two
roots of each s^2 + 2 zeta wn s + wn^2, zeta = x_i^2, wn = x_(i+1)^2; lemmas over
these forms give magnitude <= rmax and conjugate (or real) pairs; gain one and the
zeros passed.  The objective is proved to be |NTF| at exp(i pi/osr), the constraint
nq + 1 - sum |h| over 100 samples or more, and clans to minimise that objective under
that constraint for the zeros of synthesizeNTF(order, osr, opt, 1 + nq, 0), with the
options merged from the defaults (left unaltered), and to return the NTF of the
minimiser.  Proved over the reals; the numpy roots of a monic real quadratic and
scipy's minimize enter by contract.  That the starting point is finite and that a
design the optimizer calls successful meets the constraint is tested at run
time."""
import warnings
import scipy.optimize
from .base import *
from pydsm import relab, ir
from pyvc import loops as LP, rules as L
from .C26 import subterms
from pydsm.delsig import _clans as MC, _dsclansNTF as MD, _tf
from pydsm.delsig import clans, synthesizeNTF

PROP = Prop('C14')
PROP.assume('numpy.roots((1, b, c)): two values with sum -b and product c')
PROP.assume('scipy.optimize.minimize (SLSQP): its result x is a real vector; when it '
            'reports success the constraint holds to tolerance (run time)')
PROP.assume('evalTF, impulse_response, cplxpair, synthesizeNTF: by their contracts '
            '(C03, C04, C06, C12)')
RR = [z3.Function('root.' + q, R, R, I, R) for q in ('re', 'im')]


def roots(ctx, p):
    """the two roots of z^2 + b z + c, real or conjugate"""
    p = N.asarr(ctx, p) if not isarr(p) else p
    if p.ndim != 1 or not T.same(p.shape[0], 3):
        raise Unsupported('np.roots of this polynomial')
    rd = p.reader()
    a, b, c = [rd((k,)) for k in range(3)]
    ctx.oblige('np.roots: monic and real', sand(
        seq(T.real(a), 1), not T.iscx(b), not T.iscx(c)))
    b, c = [T.lit(T.real(T.nfexpr(T.real(q)))) for q in (b, c)]
    v = [Cx(RR[0](b, c, z3.IntVal(k)), RR[1](b, c, z3.IntVal(k)))
         for k in range(2)]
    ctx.assume(sand(
        seq(sadd(v[0].re, v[1].re), ssub(0, b)), seq(sadd(v[0].im, v[1].im), 0),
        seq(T.smul(v[0], v[1]).re, c), seq(T.smul(v[0], v[1]).im, 0)))
    return N.mkarr((2,), lambda ix: pick2(ix[0], v), 'c')


def pick2(k, v):
    if isinstance(k, int):
        return v[k]
    return Cx(T.ite(seq(k, 0), v[0].re, v[1].re),
              T.ite(seq(k, 0), v[0].im, v[1].im))


@PROP.unit('dsclansNTF')
def u_ntf(vc):
    n, rmax = vc.int('order'), vc.real('rmax')
    x, Hz = vc.arr('x', (n,), 'f'), vc.arr('Hz', (n,), 'c')
    name = 'dsclansNTF'
    for p in vc.call(MD.dsclansNTF, (x, n, rmax, Hz), hyps=[
            n >= 1, rmax > 0], name=name, contracts={id(np.roots): roots}):
        if not vc.returns(name, p):
            continue
        vc.frame(name, p)
        v = p.value
        ok = isinstance(v, tuple) and len(v) == 3 and isarr(v[1]) and \
            v[1].ndim == 1
        vc.holds(name + ': (zeros, poles, gain)', ok)
        if not ok:
            continue
        vc.equal(name + ': the given zeros', p, v[0], Hz)
        vc.ob(name + ': gain 1', p.ctx.facts(), seq(v[2], 1))
        vc.ob(name + ': order poles', p.ctx.facts(), seq(v[1].shape[0], n))
        poles(vc, p, name, v[1], x, n, rmax)


def poles(vc, p, name, arr, x, n, rmax):
    """each pole is rmax (1 + s)/(1 - s): s = - x_0^2, or a root of
    s^2 + 2 zeta wn s + wn^2, zeta = x_i^2, wn = x_(i+1)^2"""
    rd, odd, h = arr.reader(), n % 2, vc.int('pair')
    X = x.reader()
    facts = p.ctx.facts()
    v = T.cx(rd((z3.IntVal(0),)))
    x0 = T.real(X((0,)))
    vc.ob(name + ': real pole', facts + [odd == 1], sand(
        seq(v.re, sdiv(smul(rmax, ssub(1, smul(x0, x0))), sadd(1, smul(
            x0, x0)))), seq(v.im, 0)))
    facts = facts + [h >= 0, odd + 2 * h + 1 < n]
    if not S.feasible(facts, 5000):
        return
    zeta, wn = [T.real(X((odd + 2 * h + q,))) for q in (0, 1)]
    b = 2 * zeta * zeta * wn * wn
    c = wn * wn * wn * wn
    S4 = [z3.Real(q) for q in ('s0.re', 's0.im', 's1.re', 's1.im')]
    for e in (0, 1):
        v = T.cx(rd((odd + 2 * h + e,)))
        v = [LP.settle(T.real(q), facts) for q in (v.re, v.im)]
        sub, ok = [], True
        for t in subterms(v):
            if t.num_args() != 3 or not (t.decl().eq(RR[0]) or
                                         t.decl().eq(RR[1])):
                continue
            ok = ok and S.prove(facts, sand(
                seq(t.arg(0), b), seq(t.arg(1), c)), 10000).ok
            k = S.decide(facts, T.lit(seq(t.arg(2), 0)))
            ok = ok and k is not None
            sub.append((t, S4[(0 if k else 2) + (
                1 if t.decl().eq(RR[1]) else 0)]))
        vc.holds(name + ': roots of s^2 + 2 zeta wn s + wn^2', ok)
        if not ok:
            return
        re, im = [z3.substitute(q, *sub) for q in v]
        sr, si = S4[2 * e:2 * e + 2]
        d = (1 - sr) * (1 - sr) + si * si
        vc.ob(name + ': pole %d of a pair (real part)' % e, [d > 0], seq(
            re, rmax * (1 - sr * sr - si * si) / d))
        vc.ob(name + ': pole %d of a pair (imaginary part)' % e, [d > 0], seq(
            im, rmax * 2 * si / d))


@PROP.unit('the poles are within the radius and conjugate')
def u_disc(vc):
    r, x = vc.real('rmax'), vc.real('x')
    vc.ob('real pole: magnitude at most rmax', [r > 0], z3.And(
        r * (1 - x * x) <= r * (1 + x * x), -r * (1 + x * x) <= r * (
            1 - x * x), 1 + x * x > 0))
    z, w = vc.real('zeta'), vc.real('wn')
    a, b, c, d = [vc.real(q) for q in ('s0.re', 's0.im', 's1.re', 's1.im')]
    B, C = vc.real('b'), vc.real('c')
    roots_ = [a + c == -B, b + d == 0, a * c - b * d == C, a * d + b * c == 0]
    vc.ob('coefficients are not negative', [B == 2 * z * z * w * w,
                                            C == w * w * w * w],
          z3.And(B >= 0, C >= 0))
    vc.ob('roots: real or conjugate', roots_, z3.Or(z3.And(
        b == 0, d == 0), z3.And(a == c, b == -d)))
    vc.ob('roots: real part at most 0', roots_ + [B >= 0, C >= 0, z3.Or(z3.And(
        b == 0, d == 0), z3.And(a == c, b == -d))], z3.And(a <= 0, c <= 0))
    # |1 + s|^2 <= |1 - s|^2 > 0
    vc.ob('magnitude at most rmax', [a <= 0], z3.And(
        (1 + a) * (1 + a) + b * b <= (1 - a) * (1 - a) + b * b,
        (1 - a) * (1 - a) + b * b > 0))
    D = vc.real('D')
    pr, pi_ = vc.real('p.re'), vc.real('p.im')
    n2, q = vc.real('n2'), vc.real('q')
    vc.ob('|p|^2 |1 - s|^2 = rmax^2 |1 + s|^2', [
        D == (1 - a) * (1 - a) + b * b, D > 0, pr * D == r * (
            1 - a * a - b * b), pi_ * D == r * 2 * b],
        (pr * pr + pi_ * pi_) * D * D == r * r * D * (
            (1 + a) * (1 + a) + b * b))
    vc.ob('|p| <= rmax', [D > 0, q >= 0, q <= D, n2 * D == r * r * q],
          n2 <= r * r)
    # conjugate roots give conjugate poles, real ones real poles
    for tag, hy, goal in (
            ('real', [b == 0], lambda D0, D1: r * 2 * b / D0 == 0),
            ('conjugate', [c == a, d == -b], lambda D0, D1: z3.And(
                r * (1 - a * a - b * b) / D0 == r * (1 - c * c - d * d) / D1,
                r * 2 * b / D0 == -(r * 2 * d / D1)))):
        D0, D1 = (1 - a) * (1 - a) + b * b, (1 - c) * (1 - c) + d * d
        vc.ob('poles: ' + tag, hy + [D0 > 0, D1 > 0], goal(D0, D1))


class Token:
    """contract of dsclansNTF: an NTF for the parameters given"""
    def __init__(self):
        self.args = None

    def __call__(self, ctx, x, order, rmax, Hz):
        if not hasattr(ctx, 'ntf'):
            ctx.ntf = []
        t = P.Opaque('clans.ntf%d' % len(ctx.ntf), ())
        ctx.ntf.append((t, (x, order, rmax, Hz)))
        return t


@PROP.unit('objective and constraint')
def u_obj(vc):
    n, osr, nq, rmax = vc.int('order'), vc.real('osr'), vc.real('nq'), \
        vc.real('rmax')
    x, Hz = vc.arr('x', (n,), 'f'), vc.arr('Hz', (n,), 'c')
    G = vc.cx('G') if hasattr(vc, 'cx') else Cx(vc.real('G.re'), vc.real('G.im'))
    m = vc.int('m')
    h = vc.arr('h', (m,), 'f')
    tok = Token()

    def evaltf(ctx, tf, z):
        ctx.oblige('evalTF: the NTF of the parameters', len(
            ctx.ntf) == 1 and tf is ctx.ntf[0][0])
        z, e = T.cx(z), T.sexp(Cx(0, sdiv(T.PI, osr)))
        ctx.oblige('evalTF: at the band edge', sand(seq(z.re, e.re),
                                                    seq(z.im, e.im)))
        return G

    def imp(ctx, tf, m=None, db=80):
        ctx.oblige('impulse_response: the NTF of the parameters', len(
            ctx.ntf) == 1 and tf is ctx.ntf[0][0])
        ctx.oblige('impulse_response: 100 samples or more', m is not None and
                   sge(m, 100))
        return h
    for fn, name in ((MC._dsclansObj6a, 'objective'),
                     (MC._dsclansObj6b, 'constraint')):
        for p in vc.call(fn, (x, n, osr, nq, rmax, Hz), hyps=[
                n >= 1, osr > 1, rmax > 0, m >= 0], name=name, contracts={
                    id(MD.dsclansNTF): tok, id(_tf.evalTF): evaltf,
                    id(ir.impulse_response): imp}):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            ok = len(p.ctx.ntf) == 1
            vc.holds(name + ': one NTF', ok)
            if not ok:
                continue
            a = p.ctx.ntf[0][1]
            vc.equal(name + ': of the parameters', p, a[0], x)
            vc.equal(name + ': the zeros', p, a[3], Hz)
            vc.ob(name + ': order and radius', p.ctx.facts(), sand(
                seq(a[1], n), seq(a[2], rmax)))
            if fn is MC._dsclansObj6a:
                vc.equal(name + ': the magnitude', p, p.value, T.sabs(G))
            else:
                vc.equal(name + ': nq + 1 - sum |h|', p, p.value, ssub(sadd(
                    nq, 1), T.ssum(0, m, lambda k: T.sabs(h.reader()((k,))))))


def np_sqrt(ctx, x):
    """a real number (that the starting point is finite is tested)"""
    if isarr(x) and x.ndim:
        raise Unsupported('np.sqrt of an array')
    return T.fresh(R, 'sqrt')


def np_poly(ctx, s):
    """coefficients of the monic polynomial with two given roots"""
    s = N.asarr(ctx, s)
    if not T.same(s.shape[0], 2):
        raise Unsupported('np.poly of another number of roots')
    a, b = [T.cx(s.reader()((k,))) for k in range(2)]
    c = [F(1), T.smul(F(-1), sadd(a, b)), smul(a, b)]
    return N.mkarr((3,), lambda ix: c[ix[0]], 'c')


@PROP.unit('clans')
def u_clans(vc):
    n, osr, nq, rmax = vc.int('order'), vc.real('osr'), vc.real('nq'), \
        vc.real('rmax')
    Hz, Hp = vc.arr('Hz', (n,), 'c'), vc.arr('Hp', (n,), 'c')
    best = vc.arr('best', (n,), 'f')
    tok = Token()
    for opt in (0, 1, 2, 3):
        for given in ({}, {'slsqp_opts': {'maxiter': 7}}, {
                'show_progress': True}):
            one_clans(vc, n, osr, nq, rmax, opt, Hz, Hp, best, tok, given)


def one_clans(vc, n, osr, nq, rmax, opt, Hz, Hp, best, tok, given):
    name = 'clans(opt %d, %s)' % (opt, sorted(given))
    dflt = {'show_progress': False, 'slsqp_opts': {
        'maxiter': 100, 'ftol': vc.real('dflt.ftol')}}

    def synth(ctx, order=3, osr_=64, opt_=0, H=1.5, f0=0., **kw):
        ctx.oblige('synthesizeNTF: the same order, osr and option, gain '
                   '1 + nq, low-pass', sand(
                       seq(order, n), seq(osr_, osr), seq(opt_, opt),
                       seq(H, sadd(1, nq)), seq(f0, 0)) if not kw else False)
        return (Hz, Hp, F(1))

    def pair(ctx, x, tol=None, dim=None):
        v = [T.cx(q.reader()((vc.int('jj'),))) for q in (x, Hp)]
        ctx.oblige('cplxpair: of the poles', sand(
            seq(x.shape[0], n), seq(v[0].re, v[1].re),
            seq(v[0].im, v[1].im)))
        return vc.arr('Hp.paired', (n,), 'c')

    def minimize(ctx, fun, x0, args=(), method=None, constraints=None,
                 options=None, **kw):
        fn = lambda f: getattr(f, 'pyfn', getattr(f, 'fn', f))
        ctx.oblige('minimize: the objective', fn(fun) is MC._dsclansObj6a)
        ctx.oblige('minimize: SLSQP', method == 'SLSQP' and not kw)
        x0 = N.asarr(ctx, x0)
        ctx.oblige('minimize: a starting point of order real values',
                   seq(x0.shape[0], n) if x0.kind == 'f' else False)
        c = constraints
        if isinstance(c, (list, tuple)) and len(c) == 1:
            c = c[0]
        ok = isinstance(c, dict) and c.get('type') == 'ineq' and fn(
            c.get('fun')) is MC._dsclansObj6b
        ctx.oblige('minimize: the constraint, not negative', ok)
        for tag, a in (('objective', args), ('constraint', c.get(
                'args', ()) if ok else ())):
            good = isinstance(a, tuple) and len(a) == 5 and isarr(a[4])
            ctx.oblige('minimize: arguments of the ' + tag, good)
            if good:
                v = [T.cx(q.reader()((vc.int('jj'),))) for q in (a[4], Hz)]
                ctx.oblige('minimize: arguments of the ' + tag, sand(
                    seq(a[0], n), seq(a[1], osr), seq(a[2], nq),
                    seq(a[3], rmax), seq(a[4].shape[0], n),
                    seq(v[0].re, v[1].re), seq(v[0].im, v[1].im)))
        want = dict(dflt['slsqp_opts'], disp=given.get(
            'show_progress', False))
        want.update(given.get('slsqp_opts', {}))
        ctx.oblige('minimize: options', isinstance(options, dict) and set(
            options) == set(want) and all(
                (options[q] is want[q] if T.isz(want[q]) else
                 options[q] == want[q]) for q in want))
        ctx.events.append(('minimized',))
        return {'x': best}

    tab = ('fattr', id(clans), 'default_options')

    def build(ctx):
        ctx.modvals[tab] = {q: dict(t) if isinstance(t, dict) else t
                            for q, t in dflt.items()}
        return ctx.call(clans, (n, osr, nq, rmax, opt), {
            q: dict(t) if isinstance(t, dict) else t
            for q, t in given.items()})
    for p in vc.run(build, [n >= 1, osr > 1, rmax > 0, nq > 0], {
            id(synthesizeNTF): synth, id(relab.cplxpair): pair,
            id(MD.dsclansNTF): tok, id(scipy.optimize.minimize): minimize,
            id(np.sqrt): np_sqrt, id(np.poly): np_poly}, name,
            **{'for': L.forget}):
        if p.kind == 'end':
            continue
        if not vc.returns(name, p):
            continue
        vc.frame(name, p)
        t = p.ctx.modvals[tab]
        vc.holds(name + ': default options not altered', set(t) == set(
            dflt) and all(t[q] == dflt[q] if not isinstance(
                t[q], dict) else set(t[q]) == set(dflt[q]) and all(
                    t[q][s] is dflt[q][s] for s in t[q]) for q in t))
        ok = len(getattr(p.ctx, 'ntf', ())) >= 1 and \
            p.value is p.ctx.ntf[-1][0]
        vc.holds(name + ': the NTF of the minimiser', ok)
        if not ok:
            continue
        a = p.ctx.ntf[-1][1]
        vc.equal(name + ': of the minimiser', p, a[0], best)
        vc.equal(name + ': the zeros', p, a[3], Hz)
        vc.ob(name + ': order and radius', p.ctx.facts(), sand(
            seq(a[1], n), seq(a[2], rmax)))


@PROP.dyn('dsclansNTF')
def d_ntf(d):
    while d.more() and d.n < d.top(3000):
        n = int(d.rng.integers(1, 12))
        r = float(d.rng.choice([.95, 1, .5, d.rng.uniform(.01, 1.2)]))
        x = d.rng.normal(size=n) * 10 ** d.rng.uniform(-2, 1.2)
        x[d.rng.random(n) < .1] = 0
        Hz = np.exp(1j * d.rng.uniform(-1, 1, n))
        keep = x.copy(), Hz.copy()
        d.case(x=x, order=n, rmax=r, Hz=Hz)
        z, p, k = MD.dsclansNTF(x, n, r, Hz)
        d.expect(k == 1 and np.array_equal(z, keep[1]), 'zeros, gain')
        d.expect(np.array_equal(x, keep[0]) and np.array_equal(Hz, keep[1]),
                 'arguments unchanged')
        d.expect(p.shape == (n,), 'order poles')
        d.expect(np.all(np.abs(p) <= r * (1 + 1e-6)), 'within the radius')
        t = list(np.conj(p))
        for v in p:
            i = int(np.argmin([abs(q - v) for q in t]))
            d.expect(abs(t.pop(i) - v) < 1e-5, 'conjugate pairs')
        want = [r * (1 - x[0] ** 2) / (1 + x[0] ** 2)] if n % 2 else []
        for i in range(n % 2, n, 2):
            ze, w = x[i] ** 2, x[i + 1] ** 2
            q = np.sqrt(complex(ze * ze - 1))
            for s in (w * (q - ze), -w * (q + ze)):
                want.append(r * (1 + s) / (1 - s))
        for v in want:
            d.expect(np.min(np.abs(p - v)) < 1e-4, 'poles of the parameters')


@PROP.dyn('clans')
def d_clans(d):
    res, real = [], MC.minimize
    own = real is scipy.optimize.minimize

    def mini(f, x0, *a, **k):
        r = real(f, x0, *a, **k)
        res.append((np.array(x0), r))
        return r
    while d.more() and d.n < d.top(160):
        n = int(d.rng.integers(1, 7))
        osr = float(d.rng.choice([8, 16, 32, 64, 128]))
        nq = int(d.rng.choice([1, 2, 3, 5, 7, 15, 31, 100]))
        r = float(d.rng.choice([.95, .99, .9, .8, .5, .3]))
        opt = int(d.rng.integers(0, 4))
        kw = {} if d.rng.random() < .6 else {'slsqp_opts': {'maxiter': 150}}
        dflt = {k: dict(v) if isinstance(v, dict) else v
                for k, v in clans.default_options.items()}
        d.case(order=n, osr=osr, nq=nq, rmax=r, opt=opt, **kw)
        del res[:]
        if own:
            MC.minimize = mini
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                z, p, k = clans(n, osr, nq, r, opt, **kw)
                z0 = synthesizeNTF(n, osr, opt, 1 + nq, 0)[0]
        finally:
            MC.minimize = real
        d.expect(clans.default_options == dflt, 'default options not altered')
        d.close(z, z0, 'zeros of the Schreier design', atol=1e-12)
        d.expect(k == 1 and p.shape == (n,), 'order poles, gain 1')
        d.expect(bool(np.all(np.abs(p) <= r * (1 + 1e-6))),
                 'poles within the radius')
        t = list(np.conj(p))
        for v in p:
            i = int(np.argmin([abs(q - v) for q in t]))
            d.expect(abs(t.pop(i) - v) < 1e-5, 'conjugate pairs')
        h = ir.impulse_response((z, p, 1), m=100)
        if res:
            d.expect(bool(np.all(np.isfinite(res[-1][0]))),
                     'finite starting point')
        if not res or res[-1][1].success:
            d.expect(np.sum(np.abs(h)) <= (nq + 1) * (1 + 1e-3) or not res,
                     'constraint met')
        if res:
            x0, q = res[-1]
            g = np.sum(np.abs(ir.impulse_response(MD.dsclansNTF(
                x0, n, r, z0), m=100)))
            if g <= nq + 1 and q.success:
                e = np.exp(1j * np.pi / osr)
                mag = [abs(_tf.evalTF(MD.dsclansNTF(v, n, r, z0), e))
                       for v in (x0, q.x)]
                d.expect(mag[1] <= mag[0] * (1 + 1e-3) + 1e-5,
                         'no worse than the starting point')


@PROP.dyn('objective and constraint')
def d_obj(d):
    while d.more() and d.n < d.top(300):
        n = int(d.rng.integers(1, 9))
        r, osr = float(d.rng.uniform(.3, .97)), float(d.rng.uniform(2, 200))
        nq = float(d.rng.choice([1, 5, 15, 31]))
        x = d.rng.normal(size=n)
        a = d.rng.uniform(0, .3, n // 2)
        z = np.concatenate((np.exp(1j * a), np.exp(-1j * a), [1.] * (n % 2)))
        d.case(x=x, order=n, osr=osr, nq=nq, rmax=r, Hz=z)
        p = MD.dsclansNTF(x, n, r, z)[1]
        e = np.exp(1j * np.pi / osr)
        d.close(MC._dsclansObj6a(x, n, osr, nq, r, z), abs(
            np.prod(e - z) / np.prod(e - p)), 'magnitude at the band edge',
            rtol=1e-7, atol=1e-9)
        b, a = np.poly(z).real, np.poly(p).real
        h = np.zeros(100)
        for t in range(100):
            h[t] = (b[t] if t <= n else 0) - sum(
                a[q] * h[t - q] for q in range(1, min(n, t) + 1))
        d.close(MC._dsclansObj6b(x, n, osr, nq, r, z), nq + 1 - np.sum(
            np.abs(h)), 'constraint', rtol=1e-6, atol=1e-5)
