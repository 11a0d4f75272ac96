"""FIR and hybrid NTF designs as semidefinite programs.  For each of the six
modeller functions it is proved, for every order, weighting matrix, peak gain,
band list and options, that the program handed to the modelling package is the
one of the statement: the objective (the norm of Qs [1; b], or the maximum of the
in-band gains), the bounded-real inequality for the peak gain, the (generalised)
KYP inequality of each band with its own centre and ratio, and the zeros at band
centre; nothing else constrains it.  A generic band stands for all of them.  The
result is the monic impulse response made of the solver's values, and the front
ends are proved to give every modeller the same data (the square root of the
Toeplitz matrix of q0, the companion matrix of the preassigned poles), to pass the
options, to return (roots, poles padded with zeros, 1) and to raise ValueError for
unknown modellers, too many poles and inconsistent bands.  Expressions are compared
as polynomials in noncommuting matrices of symbolic size.  That the inequalities
mean a peak gain (bounded-real and generalised KYP lemmas) and that the solver
solves them is not proved: run-time designs check gains, zeros and optimality
across modellers."""
from .base import *
from . import convex as K
from .convex import Mat, Sym, padd, pmul, stack, tomat
from pydsm.NTFdesign.minmax import (_fir_minmax as FM, _fir_minmax_cvxpy as M1,
                                    _fir_minmax_cvxpy_tdr as M2,
                                    _fir_minmax_picos as M3)
from pydsm.NTFdesign.weighting import (
    _fir_weighting as FW, _fir_weighting_cvxpy as W1,
    _fir_weighting_cvxpy_tdr as W2, _fir_weighting_picos as W3)
from pydsm import cvxpy_tdr

PROP = Prop('C17')
PROP.assume('cvxpy, picos, cvxopt: an expression denotes the matrix it is written as; '
            'a solved problem leaves optimal values in its variables')
PROP.assume('pydsm.cvxpy_tdr: by the contracts of its expressions (C18)')
PROP.assume('bounded-real lemma and generalised KYP lemma (a solution of the matrix '
            'inequality exists iff the gain bound holds on the band)')
PROP.assume('numpy.linalg.eigh: Q = V diag(d) V^T for a symmetric Q; numpy.roots: the '
            'roots of the polynomial; numpy.poly: contract of C26')


def cell(ctx, r, c, p):
    return Mat(ctx, [r], [c], [[p]], 'spec')


def sym(s, tr=False):
    return {((s, tr and not s.symmetric),): 1}


def consts(ctx, n, A=None):
    """A (upper shift, or the given one), B (last unit vector)"""
    if A is None:
        A = N.mkarr((n, n), lambda ix: ite(seq(ix[1], sadd(ix[0], 1)), 1, 0),
                    'f')
    B = N.mkarr((n, 1), lambda ix: ite(seq(ix[0], ssub(n, 1)), 1, 0), 'f')
    a, b = K.named(ctx, 'A', A), K.named(ctx, 'B', B)
    j = N.mkarr((n, n), lambda ix: ite(seq(sadd(ix[0], ix[1]), ssub(n, 1)), 1,
                                       0), 'f')
    return a, b, K.named(ctx, 'J', j, True)


def mul(*ps):
    r = {(): 1}
    for p in ps:
        r = pmul(r, p)
    return r


def lin(*tp):
    r = {}
    for k, p in tp:
        r = padd(r, K.pscale(p, k))
    return r


def grid(ctx, sizes, cells):
    return Mat(ctx, sizes, sizes, cells, 'spec')


def neg(m, ctx):
    return m.h_unary(ctx, 'USub')


# ------------------------------------------------------------------ weighting
def tr(p):
    return {K.mt(m): c for m, c in p.items()}


OPTS = [dict(show_progress=False, cvxpy_opts={'solver': 'cvxopt', 'abstol': F(
    1, 10)}, cvxpy_tdr_opts={'maxiters': 7, 'abstol': F(1, 3)},
    picos_opts={'maxiters': 9, 'abstol': F(1, 5), 'reltol': F(1, 7),
                'feastol': F(1, 9)}),
        dict(show_progress=True, cvxpy_opts={'solver': 'scs', 'eps': F(1, 8)},
             cvxpy_tdr_opts={}, picos_opts={'abstol': F(1, 5), 'reltol': F(
                 1, 7), 'feastol': F(1, 9), 'max_iterations': 3}),
        dict(show_progress=False, cvxpy_opts={'solver': 'OTHER'},
             cvxpy_tdr_opts={'a': 1}, picos_opts={
                 'abstol': F(2, 5), 'reltol': F(2, 7), 'feastol': F(2, 9)})]


def table(o):
    """default options as the verifier sees them"""
    return {k: table(v) if isinstance(v, dict) else T.fromfloat(v)
            if isinstance(v, float) else v for k, v in o.items()}


def copyopts(o):
    return {k: dict(v) if isinstance(v, dict) else v for k, v in o.items()}


def check_options(vc, name, prog, api, o):
    import cvxpy
    show = o['show_progress']
    if api == 'cvxpy':
        want = dict(o['cvxpy_opts'], verbose=show)
        want['solver'] = {'cvxopt': cvxpy.CVXOPT, 'scs': cvxpy.SCS}.get(
            want['solver'], want['solver'])
        vc.holds(name + ': solver and options', not prog['args'] and
                 prog['kw'] == want, '%r' % (prog['kw'],))
    elif api == 'picos':
        w = dict(o['picos_opts'])
        want = dict(verbosity=1 if show else 0, abs_ipm_opt_tol=w['abstol'],
                    rel_ipm_opt_tol=w['reltol'])
        if 'maxiters' in w:
            want['max_iterations'] = w['maxiters']
        if 'max_iterations' in w:
            want['max_iterations'] = w['max_iterations']
        vc.holds(name + ': options', not prog['args'] and prog['kw'] == want,
                 '%r' % (prog['kw'],))
        vc.holds(name + ': solver', prog['made'] in ({}, {
            'solver': 'cvxopt'}), '%r' % (prog['made'],))
    else:
        vc.holds(name + ': options', prog['options'] == dict(
            o['cvxpy_tdr_opts']), '%r' % (prog['options'],))
        q = list(prog['args'][:1]) + [v for k, v in prog['kw'].items()
                                      if k == 'quiet']
        vc.holds(name + ': quiet', q == [not show], '%r' % (q,))


def program(vc, name, p):
    ps = K.state(p.ctx)['programs']
    vc.holds(name + ': one program is solved', len(ps) == 1, '%d' % len(ps))
    return ps[0] if len(ps) == 1 else None


def objective(vc, name, ctx, prog, want):
    """the objective is want, directly or as the bound t in want <= t"""
    vc.holds(name + ': minimised', prog['sense'] == 'min', '%r' % (
        prog['sense'],))
    e, cons = tomat(ctx, prog['obj'], 'spec'), list(prog['cons'])
    facts = ctx.facts()
    p = e.cells[0][0]
    if e.plain and list(p.values()) == [1] and list(p)[0] and list(
            p)[0][0][0] in K.state(ctx)['vars']:
        t = list(p)[0][0][0]
        k = [c for c in cons if isinstance(c, K.Con) and any(
            t is f[0] for r in c.m.cells for q in r for m in q for f in m)]
        vc.holds(name + ': the objective bounds one expression', len(k) == 1
                 and k[0].kind == 'le')
        if len(k) != 1:
            return cons
        e = K.add(ctx, k[0].m, e)
        cons.remove(k[0])
    K.msame(vc, name + ': objective', facts, e, want)
    return cons


def variables(ctx):
    return K.state(ctx)['vars']


def vec(ctx, vs, n):
    """the vector of coefficients and the symmetric n x n variables"""
    v = [s for s in vs if not s.symmetric and any(
        T.same(s.shape[q], n) and T.same(s.shape[1 - q], 1) for q in (0, 1))]
    m = [s for s in vs if s.symmetric and T.same(s.shape[0], n) and T.same(
        s.shape[1], n)]
    return v, m


def row(s):
    """s as a row"""
    return sym(s, not T.same(s.shape[0], 1))


def weighting(fn, api):
    def unit(vc):
        n, H = vc.int('order'), vc.real('H_inf')
        Qs = vc.arr('Qs', (n + 1, n + 1))
        A, C = vc.arr('A', (n, n)), vc.arr('C', (1, n))
        q = Qs.at(0, 0)
        for k, o in enumerate(OPTS):
            name = '%s weighting[%d]' % (api, k)
            box = []

            def build(ctx):
                s = {}
                s['A'], s['B'], s['J'] = consts(ctx, n, A)
                s['Qs'] = K.named(ctx, 'Qs', Qs)
                s['C'] = K.named(ctx, 'C', C)
                ctx.modvals['spec'] = s
                return ctx.call(fn, (Qs, A, C, H), copyopts(o))
            for p in vc.run(build, [n >= 1, H > 0], K.models(), name):
                if not vc.returns(name, p):
                    continue
                ctx = p.ctx
                vc.frame(name, p)
                prog = program(vc, name, p)
                if prog is None:
                    continue
                check_options(vc, name, prog, api, o)
                s = ctx.modvals['spec']
                br, X = vec(ctx, variables(ctx), n)
                vc.holds(name + ': one vector and one symmetric matrix',
                         len(br) == 1 and len(X) == 1)
                if len(br) != 1 or len(X) != 1:
                    continue
                b, X = tr(row(br[0])), sym(X[0])
                val = br[0].value
                tall = not T.same(br[0].shape[0], 1)
                vc.equal(name + ': result [1, b]', p, p.value, N.mkarr(
                    (n + 1,), lambda ix: ite(seq(ix[0], 0), 1, (
                        val(T.lit(ssub(ix[0], 1)), T.lit(0)) if tall else
                        val(T.lit(0), T.lit(ssub(ix[0], 1))))), 'f')
                    if val is not None else None)
                one = Mat(ctx, [1, n], [1], [[{(): 1}], [b]], 'spec')
                want = K.norm(ctx, K.matmul(ctx, cell(
                    ctx, n + 1, n + 1, sym(s['Qs'])), one))
                cons = objective(vc, name, ctx, prog, want)
                a, at = sym(s['A']), sym(s['A'], True)
                B, bt = sym(s['B']), sym(s['B'], True)
                c = padd(sym(s['C']), mul(tr(b), sym(s['J'])))
                one = {(): 1}
                lmi = grid(ctx, [n, 1, 1], [
                    [lin((1, mul(at, X, a)), (-1, X)), mul(at, X, B), tr(c)],
                    [mul(bt, X, a), lin((1, mul(bt, X, B)), (ssub(0, smul(
                        H, H)), one)), one],
                    [c, one, lin((-1, one))]])
                K.consame(vc, name, ctx, cons, [
                    ('peak gain (bounded real inequality)', K.Con(
                        'psd', neg(lmi, ctx))),
                    ('X >= 0', K.Con('psd', cell(ctx, n, n, X)))])
    return unit


for _f, _api in ((W1, 'cvxpy'), (W2, 'tdr'), (W3, 'picos')):
    PROP.unit('weighting, %s' % _api)(weighting(_f.ntf_fir_from_digested,
                                                _api))


# --------------------------------------------------------------------- minmax
def band_spec(ctx, s, n, c, gg, P_, Q, k, f0, osr, zf):
    """[(label, constraint)] of band k; c: row of coefficients"""
    a, at = sym(s['A']), sym(s['A'], True)
    B, bt = sym(s['B']), sym(s['B'], True)
    Pm, Qm = sym(P_), sym(Q)
    one = {(): 1}
    Om = sdiv(PI, osr)
    w0 = smul(smul(2, f0), PI)
    co, si, cO = scos(w0), ssin(w0), scos(Om)
    centre = ctx.decide(seq(f0, 0))
    g = pmul(K.unit_(ctx, k, gg.shape[0], True), sym(gg)) if T.same(
        gg.shape[1], 1) else pmul(sym(gg), K.unit_(ctx, k, gg.shape[1], False))
    if centre is True:
        co, si = 1, 0
    M1 = lin((1, mul(at, Pm, a)), (co, mul(Qm, a)), (co, mul(at, Qm)),
             (-1, Pm), (smul(-2, cO), Qm))
    M2 = lin((1, mul(at, Pm, B)), (co, mul(Qm, B)))
    M3 = lin((1, mul(bt, Pm, B)), (-1, g))
    M1i = lin((si, mul(at, Qm)), (ssub(0, si), mul(Qm, a)))
    M21i = lin((ssub(0, si), mul(Qm, B)))
    M22i = lin((si, mul(bt, Qm)))
    r = [[M1, M2, tr(c)], [tr(M2), M3, one], [c, one, lin((-1, one))]]
    if centre is True:
        m = grid(ctx, [n, 1, 1], r)
    else:
        i = [[M1i, M21i, {}], [M22i, {}, {}], [{}, {}, {}]]
        m = grid(ctx, [n, 1, 1] * 2, [u + v for u, v in zip(r, i)] + [
            [K.pscale(q, -1) for q in v] + u for u, v in zip(r, i)])
    res = [('band gain (KYP inequality)', K.Con('psd', neg(m, ctx))),
           ('Q >= 0', K.Con('psd', cell(ctx, n, n, Qm)))]
    if zf and centre is True:
        res.append(('zero at band centre', K.Con('eq', cell(ctx, 1, 1, lin(
            (1, mul(c, tr(K.ones(ctx, 1, n)))), (1, one))))))
    elif zf:
        v = [K.const(ctx, N.mkarr((n, 1), (lambda f: lambda ix: f(smul(
            w0, ix[0])))(f), 'f'), 'spec').cells[0][0] for f in (scos, ssin)]
        res.append(('zero at band centre', K.Con('eq', Mat(ctx, [1], [1, 1], [[
            lin((1, mul(c, x)), (f(smul(w0, n)), one))
            for f, x in zip((scos, ssin), v)]], 'spec'))))
    return res


def roles(ctx, n, nb):
    """row of coefficients, the in-band gains"""
    vs = variables(ctx)
    c, ms = vec(ctx, vs, n)
    gg = [s for s in vs if not s.symmetric and s not in c and any(
        T.same(s.shape[q], nb) for q in (0, 1))]
    return c, gg, ms


def minmax(fn, api):
    def unit(vc):
        n, nb = vc.int('order'), vc.int('bands')
        Hv = vc.real('H_inf')
        f0s, osrs = vc.arr('f0', (nb,)), vc.arr('osr', (nb,))
        for k, (o, zf, H) in enumerate([
                (OPTS[0], False, Hv), (OPTS[1], True, Hv),
                (OPTS[2], True, Inf(1))]):
            name = '%s minmax[%d]' % (api, k)
            seen = []

            def band(ctx, i, cons, new):
                s = ctx.modvals['spec']
                c, gg, _ = roles(ctx, n, nb)
                nm = name + ' band'
                vc.holds(nm + ': one vector, gains', len(c) == 1 and len(
                    gg) == 1)
                ms = [x for x in new if x.symmetric]
                vc.holds(nm + ': P and Q', len(ms) == 2 and len(new) == 2 and
                         all(T.same(x.shape[0], n) for x in ms))
                if len(c) != 1 or len(gg) != 1 or len(ms) != 2:
                    return
                f0 = f0s.at(i)
                centre = ctx.decide(seq(f0, 0))
                vc.holds(nm + ': case of the band centre', centre is not None)
                seen.append(centre)

                def spec(u, v):
                    return band_spec(ctx, s, n, row(c[0]), gg[0], u, v, i, f0,
                                     osrs.at(i), zf)
                # which of the two plays P: the assignment closest to the code
                best = min((spec(*q) for q in (ms, ms[::-1])), key=lambda w:
                           sum(min([K.distance(g.m, x.m) for g in cons
                                    if isinstance(g, K.Con) and g.kind ==
                                    x.kind] or [99]) for _, x in w))
                # implied (PSD=True) constraints of this band only
                others = [x for x in variables(ctx) if x not in new]
                keep = [getattr(x, 'positive', False) for x in others]
                for x in others:
                    x.positive = False
                K.consame(vc, nm, ctx, cons, best)
                for x, q in zip(others, keep):
                    x.positive = q

            def build(ctx):
                s = {}
                s['A'], s['B'], s['J'] = consts(ctx, n)
                ctx.modvals['spec'] = s
                return ctx.call(fn, (n, osrs, H, f0s, zf), copyopts(o))
            for p in vc.run(build, [n >= 1, nb >= 1, Hv > 0, vc_pos(osrs, nb)],
                            K.models(), name, **{'for': K.bands_hook(band)}):
                if not vc.returns(name, p):
                    continue
                ctx = p.ctx
                vc.frame(name, p)
                prog = program(vc, name, p)
                if prog is None:
                    continue
                check_options(vc, name, prog, api, o)
                s = ctx.modvals['spec']
                c, gg, ms = roles(ctx, n, nb)
                vc.holds(name + ': one vector, gains', len(c) == 1 and len(
                    gg) == 1)
                if len(c) != 1 or len(gg) != 1:
                    continue
                cc = row(c[0])
                val = c[0].value
                tall = not T.same(c[0].shape[0], 1)
                j = lambda ix: ssub(n, ix[0])
                vc.equal(name + ': result [1, reversed c]', p, p.value,
                         N.mkarr((n + 1,), lambda ix: ite(seq(ix[0], 0), 1, (
                             val(T.lit(j(ix)), T.lit(0)) if tall else
                             val(T.lit(0), T.lit(j(ix))))), 'f')
                         if val is not None else None)
                cons = objective(vc, name, ctx, prog, K.node(
                    ctx, 'max', cell(ctx, *gg[0].shape, sym(gg[0]))))
                mk = [q for q in cons if isinstance(q, K.Marker)]
                vc.holds(name + ': the constraints of all the bands', len(
                    mk) == 1)
                for q in mk[:1]:
                    vc.ob(name + ': every band', ctx.facts(), sand(seq(
                        q.loop[0], 0), seq(q.loop[1], nb)))
                cons = [q for q in cons if not isinstance(q, K.Marker)]
                want = []
                if H is Hv:
                    vc.holds(name + ': one matrix', len(ms) == 1)
                    if len(ms) != 1:
                        continue
                    X = sym(ms[0])
                    a, at = sym(s['A']), sym(s['A'], True)
                    B, bt = sym(s['B']), sym(s['B'], True)
                    one = {(): 1}
                    lmi = grid(ctx, [n, 1, 1], [
                        [lin((1, mul(at, X, a)), (-1, X)), mul(at, X, B),
                         tr(cc)],
                        [mul(bt, X, a), lin((1, mul(bt, X, B)), (ssub(0, smul(
                            H, H)), one)), one],
                        [cc, one, lin((-1, one))]])
                    want = [('peak gain (bounded real inequality)', K.Con(
                        'psd', neg(lmi, ctx))),
                        ('R >= 0', K.Con('psd', cell(ctx, n, n, X)))]
                else:
                    vc.holds(name + ': no other matrix', not ms)
                K.consame(vc, name, ctx, cons, want)
            vc.holds(name + ': bands at 0 and elsewhere', set(seen) == {
                True, False}, repr(seen))
    return unit


def vc_pos(a, n):
    i = z3.Int('i!')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), a.at(i) > 0))


for _f, _api in ((M1, 'cvxpy'), (M2, 'tdr'), (M3, 'picos')):
    PROP.unit('minmax, %s' % _api)(minmax(_f.ntf_fir_from_digested, _api))


# ----------------------------------------------------------------- front ends
BACK = {('w', 'cvxpy'): W1, ('w', 'cvxpy_old'): W2, ('w', 'picos'): W3,
        ('m', 'cvxpy'): M1, ('m', 'cvxpy_old'): M2, ('m', 'picos'): M3}


def backends(kind, order):
    """contract of the modellers: record the call, give a monic impulse
    response"""
    res = {}
    for (k, nm), mod in BACK.items():
        if k != kind:
            continue

        def c(ctx, *args, _nm=nm, **kw):
            import inspect as ins
            f = BACK[kind, _nm].ntf_fir_from_digested
            names = list(ins.signature(f).parameters)[:-1]
            d = dict(zip(names, args))
            o = {}
            for q, v in kw.items():
                (d if q in names else o)[q] = copyopts({q: v})[q]
            ir = z3.Function('designed', I, R)
            a = N.mkarr((sadd(order, 1),), lambda ix: ite(
                seq(ix[0], 0), 1, ir(T.lit(ix[0]))), 'f')
            ctx.modvals.setdefault('calls', []).append((_nm, d, o, a))
            return a
        res[id(mod.ntf_fir_from_digested)] = c
    return res


def c_roots(ctx, a):
    b = N.mkarr((ssub(a.shape[0], 1),), lambda ix: Cx(z3.Real('?'), 0), 'c')
    b.roots_of = a
    return b


def c_toeplitz(ctx, c, r=None):
    if r is not None or not isarr(c) or c.ndim != 1:
        raise Unsupported('toeplitz')
    if not T.same(c.shape[0], c.shape[0]):
        raise Unsupported('toeplitz')
    rd = c.reader()
    n = c.shape[0]
    return N.mkarr((n, n), lambda ix: rd((T.ite(sge(ix[0], ix[1]), ssub(
        ix[0], ix[1]), ssub(ix[1], ix[0])),)), c.kind)


EV = z3.Function('eigenvalue', I, R)
EM = z3.Function('eigenvectors', I, I, R)
MX = z3.Real('greatest.eigenvalue')


def c_eigh(ctx, Q, *a, **k):
    if a or k:
        raise Unsupported('eigh options')
    ctx.modvals.setdefault('eigh', []).append(Q)
    n = Q.shape[0]
    d = N.mkarr((n,), lambda ix: EV(T.lit(ix[0])), 'f')
    d.eigen = True
    return (d, N.mkarr((n, n), lambda ix: EM(*[T.lit(q) for q in ix]), 'f'))


def c_max(ctx, x, *a, **k):
    if a or k or not (isarr(x) and x.ndim == 1):
        raise Unsupported('max')
    i = T.fresh(I, 'e')
    if not T.same(x.at(i), EV(i)):
        raise Unsupported('max of something else than the eigenvalues')
    return MX


FRONT = {id(np.roots): c_roots, id(np.linalg.eigh): c_eigh,
         id(np.max): c_max, id(np.amax): c_max,
         id(FW.la.toeplitz): c_toeplitz}

USER = [dict(), dict(modeler='cvxpy'), dict(modeler='picos'),
        dict(modeler='cvxpy', cvxpy_opts={'solver': 'scs'}, show_progress=False,
             scs_opts={'eps': F(1, 3)}),
        dict(modeler='cvxpy', cvxpy_opts={'override_kktsolver': False},
             cvxopt_opts={'maxiters': 55}),
        dict(modeler='picos', cvxopt_opts={'abstol': F(1, 9)},
             show_progress=False),
        dict(modeler='cvxpy_old', cvxopt_opts={'maxiters': 44})]


def expected(defaults, user):
    """(modeller, options it must receive)"""
    g = lambda k: dict(defaults[k], **user.get(k, {})) if isinstance(
        defaults[k], dict) else user.get(k, defaults[k])
    m = g('modeler')
    res = dict(show_progress=g('show_progress'), cvxpy_opts={},
               cvxpy_tdr_opts={}, picos_opts={})
    if m == 'cvxpy':
        o = g('cvxpy_opts')
        kkt = o.pop('override_kktsolver')
        if o['solver'] == 'cvxopt':
            res['cvxpy_opts'] = g('cvxopt_opts')
            if kkt:
                res['cvxpy_opts']['kktsolver'] = 'chol'
        elif o['solver'] == 'scs':
            res['cvxpy_opts'] = g('scs_opts')
        res['cvxpy_opts'].update(o)
    else:
        res['picos_opts' if m == 'picos' else 'cvxpy_tdr_opts'] = g(
            'cvxopt_opts')
    return m, res


def front_result(vc, name, p, poles, order):
    """(roots of the modeller's answer, poles, 1); the call it made"""
    calls = p.ctx.modvals.get('calls', [])
    vc.holds(name + ': one design', len(calls) == 1, repr(len(calls)))
    v = p.value
    ok = isinstance(v, tuple) and len(v) == 3 and len(calls) == 1
    vc.holds(name + ': (zeros, poles, gain)', ok)
    if not ok:
        return None
    vc.holds(name + ': zeros are the roots of the designed response',
             getattr(v[0], 'roots_of', None) is calls[0][3])
    vc.equal(name + ': poles', p, v[1], poles)
    vc.ob(name + ': gain one', p.ctx.facts(), seq(v[2], 1))
    return calls[0]


def check_call(vc, name, p, call, defaults, user):
    m, o = expected(defaults, user)
    vc.holds(name + ': modeller', call[0] == m, '%s for %s' % (call[0], m))
    vc.holds(name + ': its options', call[2] == o, '%r, not %r' % (
        call[2], o))


def check_root(vc, name, p, call, order, q0n, clip):
    """Qs is the symmetric square root of the Toeplitz matrix of q0n"""
    Q = p.ctx.modvals.get('eigh', [])
    vc.holds(name + ': one decomposition', len(Q) == 1)
    if len(Q) != 1:
        return
    n1 = sadd(order, 1)
    vc.equal(name + ': Toeplitz matrix of q0', p, Q[0], N.mkarr(
        (n1, n1), lambda ix: q0n(sabs(ssub(ix[0], ix[1]))), 'f'))

    def root(k):
        e = EV(T.lit(k))
        if not clip:
            return ssqrt(e)
        e = sdiv(e, MX)
        return ite(slt(e, 0), 0, ssqrt(e))
    i, j = z3.Ints('row col')
    Qs = call[1]['Qs']
    vc.holds(name + ': Qs is a matrix', isarr(Qs) and Qs.ndim == 2)
    facts = p.ctx.facts() + [i >= 0, j >= 0, i <= order, j <= order]
    vc.ob(name + ': Qs = V sqrt(D) V^T', facts, seq(Qs.at(i, j), T.ssum(
        0, n1, lambda k: smul(smul(EM(i, T.lit(k)), root(k)), EM(
            j, T.lit(k))))))


def normalized(q0, normalize):
    rd = q0.reader()
    if isinstance(normalize, str):
        return lambda k: sdiv(rd((k,)), rd((0,)))
    if normalize is None:
        return lambda k: rd((k,))
    return lambda k: smul(rd((k,)), normalize)


@PROP.unit('ntf_fir_from_q0')
def u_q0(vc):
    n = vc.int('order')
    q0, H, g = vc.arr('q0', (n + 1,)), vc.real('H_inf'), vc.real('norm')
    df = table(FW.ntf_fir_from_q0.default_options)
    runs = [(u, 'auto') for u in USER] + [
        ({}, None), ({}, g), (dict(fix_pos=False), 'auto')]
    for k, (u, nz) in enumerate(runs):
        name = 'ntf_fir_from_q0[%d]' % k
        con = dict(FRONT)
        con.update(backends('w', n))
        for p in vc.call(FW.ntf_fir_from_q0, (q0, H, nz), kwargs=lambda:
                         copyopts(u), contracts=con, hyps=[
                n >= 1, q0.at(0) > 0, H > 0, MX > 0], name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            call = front_result(vc, name, p, N.mkarr((n,), lambda ix: 0, 'f'),
                                n)
            if call is None:
                continue
            check_call(vc, name, p, call, df, u)
            check_root(vc, name, p, call, n, normalized(q0, nz),
                       u.get('fix_pos', True))
            vc.ob(name + ': peak gain', p.ctx.facts(), seq(
                call[1]['H_inf'], H))
            vc.equal(name + ': A', p, call[1]['A'], N.mkarr((n, n), lambda ix:
                     ite(seq(ix[1], sadd(ix[0], 1)), 1, 0), 'f'))
            vc.equal(name + ': C', p, call[1]['C'], N.mkarr(
                (1, n), lambda ix: 0, 'f'))
    for p in vc.call(FW.ntf_fir_from_q0, (q0, H), kwargs={'modeler': 'other'},
                     contracts=FRONT, hyps=[n >= 1], name='unknown modeller'):
        vc.raises('unknown modeller', p, ValueError)


QF = z3.Function('q0.value', I, R)
PC = [z3.Function('poly.' + q, I, R) for q in ('re', 'im')]


def c_q0(ctx, P_, w, **options):
    ctx.modvals.setdefault('q0', []).append((P_, w, options))
    a = N.mkarr((sadd(P_, 1),), lambda ix: QF(T.lit(ix[0])), 'f')
    ctx.assume(QF(0) > 0)
    return a


def c_mult(ctx, *ww):
    ctx.modvals.setdefault('mult', []).append(ww)
    return P.Opaque('product of weightings', (len(ctx.modvals['mult']),))


def c_poly(ctx, z):
    z = N.asarr(ctx, z)
    ctx.modvals.setdefault('poly', []).append(z)
    return N.mkarr((sadd(z.shape[0], 1),), lambda ix: Cx(
        PC[0](T.lit(ix[0])), PC[1](T.lit(ix[0]))), 'c')


def quad_want(defaults, user):
    return {'quad_opts': dict(defaults['quad_opts'], **user.get(
        'quad_opts', {}))}


def check_q0(vc, name, p, n, w, df, user):
    q = p.ctx.modvals.get('q0', [])
    vc.holds(name + ': one set of correlation coefficients', len(q) == 1)
    if len(q) != 1:
        return
    vc.ob(name + ': order + 1 coefficients', p.ctx.facts(), seq(q[0][0], n))
    vc.holds(name + ': of the weighting', q[0][1] is w or isinstance(
        q[0][1], P.Opaque) and isinstance(w, P.Opaque) and (
            q[0][1].name, q[0][1].args) == (w.name, w.args))
    vc.holds(name + ': integration options', q[0][2] == quad_want(df, user),
             repr(q[0][2]))


@PROP.unit('ntf_hybrid_weighting')
def u_hybrid(vc):
    n, m = vc.int('order'), vc.int('poles')
    H, g = vc.real('H_inf'), vc.real('norm')
    ps = vc.arr('p', (m,), 'c')
    w = P.Opaque('weighting')
    df = table(FW.ntf_hybrid_weighting.default_options)
    q0 = N.mkarr((n + 1,), lambda ix: QF(T.lit(ix[0])), 'f')
    runs = [(u, 'auto', 1) for u in USER] + [
        ({}, None, 1), ({}, g, 1), (dict(fix_pos=False, quad_opts={
            'limit': 33}), 'auto', 1), ({}, 'auto', 0)]
    con = dict(FRONT)
    con.update(backends('w', n))
    con.update({id(FW.q0_weighting): c_q0, id(FW.mult_weightings): c_mult,
                id(np.poly): c_poly})
    for k, (u, nz, some) in enumerate(runs):
        name = 'ntf_hybrid_weighting[%d]' % k
        for p in vc.call(FW.ntf_hybrid_weighting, (n, w, H, ps, nz),
                         kwargs=lambda: copyopts(u), contracts=con, hyps=[
                n >= 1, H > 0, MX > 0, m <= n, m > 0 if some else m == 0],
                name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            pad = N.mkarr((n,), lambda ix: T.cx(pick(slt(ix[0], m), ps.at(
                ix[0]), Cx(0, 0))), 'c')
            call = front_result(vc, name, p, pad, n)
            if call is None:
                continue
            check_call(vc, name, p, call, df, u)
            mw = p.ctx.modvals.get('mult', [])
            if some:
                ok = len(mw) == 1 and len(mw[0]) == 2 and mw[0][0] is w and \
                    isinstance(mw[0][1], tuple) and len(mw[0][1]) == 3
                vc.holds(name + ': weighting times the all-pole response', ok)
                if not ok:
                    continue
                z, pp, kk = mw[0][1]
                vc.equal(name + ': no zeros in it', p, N.asarr(
                    p.ctx, z), N.mkarr((0,), lambda ix: 0, 'f'))
                vc.equal(name + ': the given poles', p, pp, ps)
                vc.ob(name + ': gain one in it', p.ctx.facts(), seq(kk, 1))
                ww = P.Opaque('product of weightings', (1,))
            else:
                ww = w
                vc.holds(name + ': the weighting itself', not mw)
            check_q0(vc, name, p, n, ww, df, u)
            check_root(vc, name, p, call, n, normalized(q0, nz), u.get(
                'fix_pos', True))
            vc.ob(name + ': peak gain', p.ctx.facts(), seq(
                call[1]['H_inf'], H))
            py = p.ctx.modvals.get('poly', [])
            vc.holds(name + ': one denominator', len(py) == 1)
            if len(py) != 1:
                continue
            vc.equal(name + ': its roots', p, py[0], pad)
            ar = lambda j: sneg(PC[0](T.lit(ssub(n, j))))
            vc.equal(name + ': companion matrix', p, call[1]['A'], N.mkarr(
                (n, n), lambda ix: ite(seq(ix[0], ssub(n, 1)), ar(ix[1]), ite(
                    seq(ix[1], sadd(ix[0], 1)), 1, 0)), 'f'))
            vc.equal(name + ': C', p, call[1]['C'], N.mkarr(
                (1, n), lambda ix: ar(ix[1]), 'f'))
    for p in vc.call(FW.ntf_hybrid_weighting, (n, w, H, ps), contracts=con,
                     hyps=[n >= 1, m > n, MX > 0], name='too many poles'):
        vc.raises('too many poles', p, ValueError)
    for p in vc.call(FW.ntf_hybrid_weighting, (n, w, H, ps), kwargs=dict(
            modeler='other'), contracts=con, hyps=[n >= 1, m <= n, m >= 0],
            name='unknown modeller'):
        vc.raises('unknown modeller', p, ValueError)


def pick(c, a, b):
    a, b = T.cx(a), T.cx(b)
    return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))


@PROP.unit('ntf_fir_weighting')
def u_firw(vc):
    n, H, g = vc.int('order'), vc.real('H_inf'), vc.real('norm')
    w = P.Opaque('weighting')
    df = table(FW.ntf_fir_weighting.default_options)
    con = {id(FW.q0_weighting): c_q0}

    def c_from_q0(ctx, *a, **k):
        import inspect as ins
        b = ins.signature(FW.ntf_fir_from_q0).bind(*a, **k)
        b.apply_defaults()
        ctx.modvals.setdefault('from_q0', []).append((
            dict(b.arguments), copyopts(b.arguments['options'])))
        return P.Opaque('design')
    con[id(FW.ntf_fir_from_q0)] = c_from_q0
    dq = table(FW.ntf_fir_from_q0.default_options)
    for k, (u, nz) in enumerate([(u, 'auto') for u in USER] + [
            ({}, None), ({}, g), (dict(fix_pos=False, quad_opts={
                'limit': 33}), 'auto')]):
        name = 'ntf_fir_weighting[%d]' % k
        for p in vc.call(FW.ntf_fir_weighting, (n, w, H, nz), kwargs=lambda:
                         copyopts(u), contracts=con, hyps=[n >= 1, H > 0],
                         name=name):
            if not vc.returns(name, p):
                continue
            check_q0(vc, name, p, n, w, df, u)
            c = p.ctx.modvals.get('from_q0', [])
            ok = len(c) == 1 and isinstance(p.value, P.Opaque) and \
                p.value.name == 'design'
            vc.holds(name + ': the design from the coefficients', ok)
            if not ok:
                continue
            a, o = c[0]
            vc.equal(name + ': coefficients', p, a['q0'], N.mkarr(
                (n + 1,), lambda ix: QF(T.lit(ix[0])), 'f'))
            vc.ob(name + ': peak gain', p.ctx.facts(), seq(a['H_inf'], H))
            vc.holds(name + ': normalisation', a['normalize'] is nz or
                     isinstance(nz, str) and a['normalize'] == nz)
            vc.holds(name + ': options', expected(dq, o) == expected(df, u)
                     and o.get('fix_pos', dq['fix_pos']) == u.get(
                         'fix_pos', df['fix_pos']), '%r' % (o,))
    for p in vc.call(FW.ntf_fir_weighting, (n, w, H), kwargs=dict(
            modeler='other'), contracts=con, hyps=[n >= 1],
            name='unknown modeller'):
        vc.raises('unknown modeller', p, ValueError)


@PROP.unit('ntf_fir_minmax')
def u_minmax(vc):
    n, nb = vc.int('order'), vc.int('bands')
    H, f, r = vc.real('H_inf'), vc.real('f0'), vc.real('osr')
    fa, ra = vc.arr('f0s', (nb,)), vc.arr('osrs', (nb,))
    df = table(FM.ntf_fir_minmax.default_options)
    con = dict(FRONT)
    con.update(backends('m', n))
    zf = z3.Bool('zf')
    runs = [(u, f, r) for u in USER] + [
        ({}, fa, r), ({}, fa, ra), (dict(modeler='picos'), fa, ra)]
    for k, (u, f0, osr) in enumerate(runs):
        name = 'ntf_fir_minmax[%d]' % k
        for p in vc.call(FM.ntf_fir_minmax, (n, osr, H, f0, zf), kwargs=lambda:
                         copyopts(u), contracts=con, hyps=[
                n >= 1, nb >= 1, H > 0], name=name):
            if not vc.returns(name, p):
                continue
            vc.frame(name, p)
            call = front_result(vc, name, p, N.mkarr((n,), lambda ix: 0, 'f'),
                                n)
            if call is None:
                continue
            check_call(vc, name, p, call, df, u)
            a = call[1]
            facts = p.ctx.facts()
            vc.ob(name + ': order', facts, seq(a['order'], n))
            vc.ob(name + ': peak gain', facts, seq(a['H_inf'], H))
            vc.holds(name + ': zf', a['zf'] is zf)
            k_ = nb if isarr(f0) else 1
            vc.equal(name + ': band centres', p, N.asarr(
                p.ctx, a['f0s']), N.mkarr((k_,), lambda ix: fa.at(
                    ix[0]) if isarr(f0) else f, 'f'))
            vc.equal(name + ': ratios', p, N.asarr(
                p.ctx, a['osrs']), N.mkarr((k_,), lambda ix: ra.at(
                    ix[0]) if isarr(osr) else r, 'f'))
    mr = vc.int('ratios')
    rb = vc.arr('osrs', (mr,))
    for p in vc.call(FM.ntf_fir_minmax, (n, rb, H, fa), contracts=con, hyps=[
            n >= 1, nb >= 1, mr >= 0, mr != nb], name='inconsistent bands'):
        vc.raises('inconsistent bands', p, ValueError)
    for p in vc.call(FM.ntf_fir_minmax, (n, r, H, f), kwargs=dict(
            modeler='other'), contracts=con, hyps=[n >= 1],
            name='unknown modeller'):
        vc.raises('unknown modeller', p, ValueError)


@PROP.unit('superseded names')
def u_old(vc):
    for old, new in ((FW.q0_from_noise_weighting, FW.q0_weighting),
                     (FW.synthesize_ntf_from_q0, FW.ntf_fir_from_q0),
                     (FW.synthesize_ntf_from_noise_weighting,
                      FW.ntf_fir_weighting),
                     (FM.synthesize_ntf_minmax, FM.ntf_fir_minmax)):
        import inspect as ins
        names = [q for q in ins.signature(old).parameters][:-1]
        args = [P.Opaque('argument ' + q) for q in names]

        def c(ctx, *a, **k):
            b = ins.signature(new).bind(*a, **k)
            ctx.modvals['new'] = dict(b.arguments)
            return P.Opaque('result')
        name = old.__name__
        for p in vc.call(old, args, kwargs={'opt': 5}, contracts={
                id(new): c}, name=name):
            if not vc.returns(name, p):
                continue
            got = list(p.ctx.modvals.get('new', {}).values())
            vc.holds(name + ': same arguments', len(got) == len(args) + 1 and
                     all(x is y for x, y in zip(got, args)) and
                     got[-1] == {'opt': 5}, repr(got))
            vc.holds(name + ': same result', isinstance(p.value, P.Opaque)
                     and p.value.name == 'result')


# ------------------------------------------------------------------- run time
def gain(ntf, f):
    z = np.exp(2j * np.pi * np.asarray(f, float))
    num, den = np.ones_like(z), np.ones_like(z)
    for r in np.asarray(ntf[0]):
        num = num * (z - r)
    for r in np.asarray(ntf[1]):
        den = den * (z - r)
    return np.abs(ntf[2] * num / den)


GRID = np.linspace(0, 0.5, 2001)


def design(fn, *a, **k):
    """None when the solver gives up"""
    import warnings
    import cvxpy
    import picos
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(*a, show_progress=False, **k)
    except (cvxpy.SolverError, picos.SolutionFailure, ArithmeticError,
            np.linalg.LinAlgError):
        return None
    except (IndexError, AttributeError):
        # cvxpy leaves None in the variables when there is no solution
        if k.get('modeler') != 'cvxpy':
            raise
        return None


def shape_ok(d, ntf, order, poles, H):
    z, p, k = ntf
    d.expect(len(z) == order, '%d zeros' % len(z))
    want = np.zeros(order, complex)
    want[:len(poles)] = poles
    d.close(np.asarray(p), want, 'poles')
    d.expect(k == 1, 'gain %r' % (k,))
    pk = gain(ntf, GRID).max()
    d.expect(pk <= H * (1 + 2e-3), 'peak gain %g over %g' % (pk, H))
    d.n += 1


MODS = ('cvxpy_old', 'picos', 'cvxpy')


@PROP.dyn('designs: shape, peak gain and optimality in the three modellers')
def d_weighting(d):
    first = True
    while d.more() or first:
        order = 1 if first else int(d.rng.integers(1, 6))
        lo = float(d.rng.uniform(0, .3))
        hi = lo + float(d.rng.uniform(.05, .2))
        H = float(d.rng.uniform(1.3, 2.5))
        k = 0 if first else int(d.rng.integers(0, min(order, 3) + 1))
        poles = []
        while len(poles) < k:
            if k - len(poles) > 1 and d.rng.random() < .5:
                q = .7 * d.rng.random() * np.exp(1j * d.rng.uniform(.1, 3))
                poles += [q, np.conj(q)]
            else:
                poles.append(float(d.rng.uniform(-.6, .6)))
        first = False
        d.case(order=order, band=(lo, hi), H_inf=H, poles=str(poles))
        w = lambda f: 1. * ((f >= lo) & (f <= hi)) + 1e-3
        w.__name__ = 'w'
        cost = {}
        for m in MODS:
            for nm, fn, a in ((('hybrid', FW.ntf_hybrid_weighting, (
                    order, w, H, poles)),) if k else (('hybrid', (
                        FW.ntf_hybrid_weighting), (order, w, H, [])), (
                            'fir', FW.ntf_fir_weighting, (order, w, H)))):
                r = design(fn, *a, modeler=m, quad_opts={'points': [lo, hi]})
                if r is None:
                    continue
                d.case(order=order, band=(lo, hi), H_inf=H, poles=str(poles),
                       modeler=m, function=nm)
                shape_ok(d, r, order, poles, H)
                cost[m, nm] = np.mean(gain(r, GRID) ** 2 * w(GRID))
        if len(cost) > 1:
            b = min(cost.values())
            for q, v in cost.items():
                d.expect(v <= b * 1.02, '%s: noise power %g, %g is possible' % (
                    q, v, b))


@PROP.dyn('minmax designs')
def d_minmax(d):
    first = True
    while d.more() or first:
        order = int(d.rng.integers(2, 6))
        nb = int(d.rng.integers(1, 3))
        zf = bool(d.rng.random() < .4) and nb == 1 and order > 2
        f0 = [0.0] if d.rng.random() < .4 else [float(d.rng.uniform(.1, .4))]
        if nb == 2:
            f0.append(float(np.clip(f0[0] + .2, 0, .4)))
        osr = [float(x) for x in d.rng.uniform(8, 24, nb)]
        H = float(d.rng.uniform(1.5, 2.5))
        first = False
        cost = {}
        for m in MODS:
            d.case(order=order, osr=osr, f0=f0, H_inf=H, zf=zf, modeler=m)
            r = design(FM.ntf_fir_minmax, order, osr if nb > 1 else osr[0], H,
                       f0 if nb > 1 else f0[0], zf, modeler=m)
            if r is None or not np.all(np.isfinite(r[0])):
                continue
            shape_ok(d, r, order, [], H)
            worst = 0
            for f, o in zip(f0, osr):
                f = np.linspace(max(0, f - .5 / o), min(.5, f + .5 / o), 500)
                worst = max(worst, gain(r, f).max())
            cost[m] = worst
            if zf:
                d.expect(gain(r, [f0[0]])[0] < 1e-4, 'no zero at band centre')
        if len(cost) > 1:
            b = min(cost.values())
            for q, v in cost.items():
                d.expect(v <= b * 1.02 + 1e-4, '%s: in-band gain %g, %g is '
                         'possible' % (q, v, b))


@PROP.dyn('rejected arguments')
def d_reject(d):
    w = lambda f: 1. + 0 * f
    d.case(what='unknown modeller')
    for f, a in ((FW.ntf_fir_weighting, (3, w)), (FW.ntf_hybrid_weighting, (
            3, w)), (FM.ntf_fir_minmax, (3,)), (FW.ntf_fir_from_q0, (
                np.array([1., .5]),))):
        d.raises(ValueError, f, *a, modeler='none')
    for n in range(1, 4):
        d.case(what='too many poles', order=n)
        d.raises(ValueError, FW.ntf_hybrid_weighting, n, w, 1.5, [.1] * (
            n + 1), show_progress=False)
        d.case(what='inconsistent bands', bands=n)
        d.raises(ValueError, FM.ntf_fir_minmax, 3, [8] * (n + 1), 1.5, [
            .1 * q for q in range(n)], show_progress=False)
    d.n += 8
