"""ISO 226: the tables and formulas of sections 4.1 and 4.2 are proved for
every loudness / pressure level, at all 29 frequencies, with and without the
20 kHz extension; monotonicity and mutual inversion are lemmas over these
formulas (with 10**x strictly increasing as the only analytic axiom).
Mutual inversion and the 1 kHz identity are stated up to the standard's own
rounding of its constants (0.2 phon).
The interpolation is the assumed contract of InterpolatedUnivariateSpline
(passes through its data points): proved is that it gets exactly the table."""
import math
from .base import *
from pydsm import iso226 as M
from scipy.interpolate import InterpolatedUnivariateSpline

PROP = Prop('C16')

# ISO 226:2003 table 1
FR = '''20 25 31.5 40 50 63 80 100 125 160 200 250 315 400 500 630 800 1000 1250
1600 2000 2500 3150 4000 5000 6300 8000 10000 12500'''.split()
AL = '''0.532 0.506 0.480 0.455 0.432 0.409 0.387 0.367 0.349 0.330 0.315 0.301
0.288 0.276 0.267 0.259 0.253 0.250 0.246 0.244 0.243 0.243 0.243 0.242 0.242
0.245 0.254 0.271 0.301'''.split()
LU = '''-31.6 -27.2 -23.0 -19.1 -15.9 -13.0 -10.3 -8.1 -6.2 -4.5 -3.1 -2.0 -1.1
-0.4 0.0 0.3 0.5 0.0 -2.7 -4.1 -1.0 1.7 2.5 1.2 -2.1 -7.1 -11.2 -10.7 -3.1
'''.split()
TF = '''78.5 68.7 59.5 51.1 44.0 37.5 31.5 26.5 22.1 17.9 14.4 11.4 8.6 6.2 4.4
3.0 2.2 2.4 3.5 1.7 -1.3 -4.2 -6.0 -5.4 -1.5 6.0 12.6 13.9 12.3'''.split()
FR, AL, LU, TF = [[F(t) for t in q] for q in (FR, AL, LU, TF)]


def p10(x):
    return spow(F(10), x)


def A_f(L, j):
    return sadd(smul(F('4.47E-3'), ssub(p10(smul(F('0.025'), L)),
                                        F('1.15'))), thr(j))


def thr(j):
    return spow(smul(F('0.4'), p10((TF[j] + LU[j]) / 10 - 9)), AL[j])


def L_p(L, j):
    return sadd(ssub(smul(10 / AL[j], slog10(A_f(L, j))), LU[j]), F(94))


def B_f(L, j):
    return sadd(ssub(spow(smul(F('0.4'), p10(ssub(sdiv(sadd(L, LU[j]), 10),
                                                  9))), AL[j]), thr(j)),
                F('0.005135'))


def L_N(L, j):
    return sadd(smul(40, slog10(B_f(L, j))), F(94))


def ext(v, hfe):
    return v + [v[0]] if hfe else v


HF = (((), False), ((False,), False), ((True,), True))


@PROP.unit('tables')
def u_tab(vc):
    for fn, tab in ((M.tabled_f, FR), (M.tabled_alpha_f, AL),
                    (M.tabled_L_U, LU), (M.tabled_T_f, TF)):
        for args, hfe in HF:
            name = '%s%s' % (fn.__name__, args)
            for p in vc.call(fn, args, name=name):
                if not vc.returns(name, p):
                    continue
                w = list(tab)
                if hfe:
                    w = w + ([F(20000)] if fn is M.tabled_f else [tab[0]])
                vc.equal(name, p, p.value, w)
                # the caller gets its own array
                g = p.ctx.global_(M, 'tbl_' + fn.__name__[7:])
                vc.holds(name + ': not the module table',
                         isarr(p.value) and p.value.buf is not g.buf,
                         'returns the module table itself')


def domain(L, f, j):
    """the argument of the logarithm is positive"""
    return sgt(f(L, j), 0)


@PROP.unit('formulas')
def u_form(vc):
    L = vc.real('L')
    for fn, sp, arg in ((M.tabled_A_f, A_f, None), (M.tabled_L_p, L_p, A_f),
                        (M.tabled_B_f, B_f, None), (M.tabled_L_N, L_N, B_f)):
        for args, hfe in HF:
            name = '%s(L%s)' % (fn.__name__, ', %s' % args if args else '')
            hy = [] if arg is None else [T.lit(sgt(arg(L, j), 0))
                                         for j in range(29)]
            for p in vc.call(fn, (L,) + args, hyps=hy, name=name):
                if vc.returns(name, p):
                    vc.equal(name, p, p.value, ext(
                        [sp(L, j) for j in range(29)], hfe))


@PROP.unit('contour')
def u_cont(vc):
    L = vc.real('L')
    tabs = {}

    def tlp(ctx, x, hfe=False):
        r = P.Opaque('L_p', (x, hfe))
        return r

    def tf(ctx, hfe=False):
        return P.Opaque('f', (hfe,))
    con = {id(M.tabled_L_p): tlp, id(M.tabled_f): tf}
    for kw in ({}, {'hfe': True}, {'hfe': False}):
        name = 'iso226_spl_contour(L, %s)' % kw
        h = kw.get('hfe', False)
        for p in vc.call(M.iso226_spl_contour, (L,), kw,
                         hyps=[L >= 0, L <= 90], contracts=con, name=name):
            if vc.returns(name, p):
                f, s = p.value
                vc.holds(name, f.name == 'f' and f.args == (h,) and
                         s.name == 'L_p' and T.same(s.args[0], L) and
                         s.args[1] == h, 'got %r' % (p.value,))
        for hy, t in (([L < 0], '<0'), ([L > 90], '>90')):
            n2 = name + t
            for p in vc.call(M.iso226_spl_contour, (L,), kw, hyps=hy,
                             contracts=con, name=n2):
                vc.raises(n2, p, ValueError)
            for p in vc.call(M.iso226_spl_itpl, (L,), kw, hyps=hy,
                             contracts=con, name=n2):
                vc.raises('itpl' + n2, p, ValueError)
    for p in vc.call(M.iso226_spl_contour, (), contracts=con,
                     name='default level'):
        if vc.returns('default level', p):
            vc.equal('default level is 40 phon', p, p.value[1].args[0],
                     F(40))

    def spline(ctx, x, y, w=None, bbox=None, k=3, **kk):
        return P.Opaque('spline', (x, y, k, w, bbox, tuple(kk)))
    con[id(InterpolatedUnivariateSpline)] = spline
    for kw in ({}, {'hfe': True}, {'k': 2}, {'hfe': False, 'k': 1}):
        name = 'iso226_spl_itpl(L, %s)' % kw
        for p in vc.call(M.iso226_spl_itpl, (L,), kw,
                         hyps=[L >= 0, L <= 90], contracts=con, name=name):
            if vc.returns(name, p):
                v = p.value
                h = kw.get('hfe', False)
                ok = isinstance(v, P.Opaque) and v.name == 'spline' and \
                    v.args[0].name == 'f' and v.args[0].args == (h,) and \
                    v.args[1].name == 'L_p' and v.args[1].args[1] == h and \
                    T.same(v.args[1].args[0], L) and \
                    v.args[2] == kw.get('k', 3) and v.args[3] is None and \
                    v.args[4] is None and v.args[5] == ()
                vc.holds(name + ' interpolates the table', ok,
                         'got %r' % (v,))


@PROP.unit('lemmas')
def u_lem(vc):
    """over the contracts above (formulas), not over the code"""
    # 10**x strictly increasing and log10 strictly increasing, abstractly
    E = z3.Function('E10', R, R)
    Lg = z3.Function('Lg10', R, R)
    x, y, a, t, u = [vc.real(c) for c in 'xyatu']
    mono = [z3.ForAll([x, y], z3.Implies(x < y, E(x) < E(y))),
            z3.ForAll([x, y], z3.Implies(z3.And(0 < x, x < y),
                                         Lg(x) < Lg(y)))]
    l1, l2 = vc.real('l1'), vc.real('l2')
    for j in range(29):
        A = lambda l: z3.RealVal('0.00447') * (E(z3.RealVal('0.025') * l) -
                                               z3.RealVal('1.15')) + t
        P_ = lambda l: z3.RealVal(str(10 / AL[j])) * Lg(A(l)) - \
            z3.RealVal(str(LU[j])) + 94
        vc.ob('higher loudness, higher pressure at %s Hz' % FR[j],
              mono + [l1 < l2, A(l1) > 0], P_(l1) < P_(l2))
    # inversion: with X = 10**(0.025 L) in [1, 10**2.25] and
    # A = 0.00447 (X - 1.15) + thr, substituting L_p in B_f gives
    # (0.4 10**(log10(A)/alpha + 0.4))**alpha = K A,
    # K = (0.4 10**0.4)**alpha, hence B = K A - thr + 0.005135 and
    # L_N = L + 40 log10(B 10**2.35 / X).  The relative residual is bounded
    # for every X by linear arithmetic (K, thr, 10**-2.35 enclosed in
    # rational intervals).
    X = vc.real('X')
    for j in range(29):
        K, th, c = vc.real('K'), vc.real('thr'), vc.real('c')
        enc = []
        for v, val in ((K, (.4 * 10 ** .4) ** float(AL[j])),
                       (th, (.4 * 10 ** (float(TF[j] + LU[j]) / 10 - 9)) **
                        float(AL[j])), (c, 10 ** -2.35)):
            q = F(repr(val))
            enc += [v >= T.lit(q - F(1, 10 ** 12)),
                    v <= T.lit(q + F(1, 10 ** 12))]
        A = T.lit(F('0.00447')) * (X - T.lit(F('1.15'))) + th
        B = K * A - th + T.lit(F('0.005135'))
        e = T.lit(F(REL))
        vc.ob('tabled_L_N inverts tabled_L_p at %s Hz' % FR[j],
              enc + [X >= 1, X <= T.lit(F('177.83'))],
              z3.And(B - c * X <= e * c * X, c * X - B <= e * c * X))


REL = '0.01'       # of the argument of 40 log10, i.e. 0.17 phon


# ------------------------------------------------------------------- run time
def fL_p(L, j):
    A = 4.47e-3 * (10 ** (.025 * L) - 1.15) + (0.4 * 10 ** (float(
        TF[j] + LU[j]) / 10 - 9)) ** float(AL[j])
    return 10 / float(AL[j]) * math.log10(A) - float(LU[j]) + 94


def fL_N(Lp, j):
    B = (.4 * 10 ** ((Lp + float(LU[j])) / 10 - 9)) ** float(AL[j]) - (
        .4 * 10 ** (float(TF[j] + LU[j]) / 10 - 9)) ** float(AL[j]) + .005135
    return 40 * math.log10(B) + 94


@PROP.dyn('tables')
def d_tab(d):
    for rnd in range(2):
        for fn, tab in ((M.tabled_f, FR), (M.tabled_alpha_f, AL),
                        (M.tabled_L_U, LU), (M.tabled_T_f, TF)):
            for hfe in (None, False, True):
                d.case(fn=fn.__name__, hfe=hfe, round=rnd)
                g = fn() if hfe is None else fn(hfe)
                w = [float(t) for t in tab]
                if hfe:
                    w.append(20000. if fn is M.tabled_f else w[0])
                d.close(g, w, fn.__name__, 1e-12)
                g += 1000      # a caller playing with the result
    for hfe in (False, True):
        d.case(fn='iso226_spl_contour', hfe=hfe)
        f, s = M.iso226_spl_contour(40, hfe)
        f0, s0 = f.copy(), s.copy()
        f *= 2
        s *= 2
        f, s = M.iso226_spl_contour(40, hfe)
        d.close(f, f0, 'frequencies corrupted through a result')
        d.close(s, s0, 'levels corrupted through a result')


@PROP.dyn('formulas')
def d_form(d):
    while d.more() and d.n < d.top(200):
        L = float(d.rng.choice([0, 90, 40, d.rng.uniform(0, 90)]))
        d.case(L=L)
        w = [fL_p(L, j) for j in range(29)]
        d.close(M.tabled_L_p(L), w, 'L_p', 1e-9, 1e-9)
        d.close(M.tabled_L_p(L, True), w + w[:1], 'L_p hfe', 1e-9, 1e-9)
        q = [fL_N(L + 80, j) for j in range(29)]
        d.close(M.tabled_L_N(L + 80), q, 'L_N', 1e-9, 1e-9)
        d.close(M.tabled_L_N(L + 80, hfe=True), q + q[:1], 'L_N hfe', 1e-9,
                1e-9)
        for j in range(29):
            d.close(M.tabled_L_N(w[j])[j], L, 'inversion at %s Hz' % FR[j],
                    0, .2)
        d.expect(np.all(M.tabled_L_p(L + .5) > M.tabled_L_p(L)),
                 'monotonicity')
        d.close(M.tabled_L_p(L)[17], L, '1 kHz level', 0, .1)
        f, s = M.iso226_spl_contour(L)
        d.close(f, [float(t) for t in FR], 'contour frequencies')
        d.close(s, w, 'contour levels', 1e-9, 1e-9)
        f, s = M.iso226_spl_contour(L, True)
        d.close(f, [float(t) for t in FR] + [20000.], 'hfe frequencies')
        d.close(s, w + w[:1], 'hfe levels', 1e-9, 1e-9)


@PROP.dyn('contour')
def d_cont(d):
    for L in (-1e-9, -5, 90.0001, 200, np.inf):
        d.case(L=L)
        d.raises(ValueError, M.iso226_spl_contour, L)
        d.raises(ValueError, M.iso226_spl_contour, L, True)
        d.raises(ValueError, M.iso226_spl_itpl, L)
    d.case(L='default')
    d.close(M.iso226_spl_contour()[1], [fL_p(40, j) for j in range(29)],
            'default level', 1e-9)
    while d.more() and d.n < d.top(60):
        L = float(d.rng.uniform(0, 90))
        hfe = bool(d.rng.integers(0, 2))
        k = int(d.rng.integers(1, 6))
        d.case(L=L, hfe=hfe, k=k)
        s = M.iso226_spl_itpl(L, hfe, k)
        f = [float(t) for t in FR] + [20000.] * hfe
        w = [fL_p(L, j) for j in range(29)]
        d.close(s(f), w + w[:1] * hfe, 'interpolation through the table',
                1e-6, 1e-6)
        g = InterpolatedUnivariateSpline(f, w + w[:1] * hfe, k=k)
        x = np.linspace(20, f[-1], 200)
        d.close(s(x), g(x), 'interpolation order', 1e-6, 1e-6)
        d.close(M.iso226_spl_itpl(L)(f[:29]), w, 'defaults', 1e-6, 1e-6)
