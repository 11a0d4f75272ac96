"""Psychoacoustic designs.  Proved for every order, osr, audio band,
attenuation, gain, weighting and option: the weighting function handed to
ntf_fir_weighting is, at every frequency, max(weighting(2 f osr band) or zero
beyond the band, 10**(-attenuation/10)), and the other arguments are handed on
unchanged; the options are the published defaults overridden by the caller's,
per modeler.  The Dunn design hands synthesizeNTF the zeros exp(i pi z/osr).
ntf_fir_weighting (C17, C10), synthesizeNTF (C12), the audio weightings (C15),
undbp (C07) and dunn_optzeros (C13) enter by their contracts."""
from .base import *
from pydsm import audio_weightings as A
from pydsm.NTFdesign import psychoacoustic as Y
from pydsm.NTFdesign import delsig as ND
from pydsm.NTFdesign.weighting import _fir_weighting as W
from pydsm import delsig as DS
from pydsm.delsig import undbp

PROP = Prop('C24')
LET = {'f': A.f_weighting, 'a': A.a_weighting, 'b': A.b_weighting,
       'c': A.c_weighting, 'd': A.d_weighting}


def awfn(name):
    g = z3.Function('aw_' + name, R, R)
    at = lambda f: g(T.nfexpr(T.real(f)))

    def con(ctx, f):
        return at(f)
    return at, con


def opt_cases(vc):
    D = Y.ntf_fir_audio_weighting.default_options
    L = P.Ctx(()).lift
    e = vc.real('eps')
    o = lambda k, **kw: dict(L(D[k]), **kw)
    base = dict(quad_opts=o('quad_opts'), show_progress=True, fix_pos=True)
    yield {}, dict(base, modeler='cvxpy_old', cvxopt_opts=o('cvxopt_opts'))
    yield {'show_progress': False, 'quad_opts': {'epsabs': e}}, dict(
        base, show_progress=False, quad_opts=o('quad_opts', epsabs=e),
        modeler='cvxpy_old', cvxopt_opts=o('cvxopt_opts'))
    yield {'fix_pos': False, 'cvxopt_opts': {'maxiters': 7}}, dict(
        base, fix_pos=False, modeler='cvxpy_old',
        cvxopt_opts=o('cvxopt_opts', maxiters=7))
    yield {'modeler': 'picos', 'cvxopt_opts': {'abstol': e}}, dict(
        base, modeler='picos', cvxopt_opts=o('cvxopt_opts', abstol=e))
    yield {'modeler': 'cvxpy', 'cvxopt_opts': {'abstol': e}}, dict(
        base, modeler='cvxpy', cvxopt_opts=o('cvxopt_opts', abstol=e),
        cvxpy_opts=o('cvxpy_opts'))
    yield {'modeler': 'cvxpy', 'cvxpy_opts': {'override_kktsolver': False}}, \
        dict(base, modeler='cvxpy', cvxopt_opts=o('cvxopt_opts'),
             cvxpy_opts=o('cvxpy_opts', override_kktsolver=False))
    yield {'modeler': 'cvxpy', 'cvxpy_opts': {'solver': 'scs'},
           'scs_opts': {'eps': e}}, dict(
        base, modeler='cvxpy', cvxpy_opts=o('cvxpy_opts', solver='scs'),
        scs_opts=o('scs_opts', eps=e))


def effective(opts, want):
    """options as the callee will use them: its own defaults (which agree with
    the caller's function) complete the ones given"""
    L = P.Ctx(()).lift
    D = L(W.ntf_fir_weighting.default_options)
    for k, v in want.items():
        g = opts.get(k, {} if isinstance(v, dict) else D[k])
        if isinstance(v, dict):
            g = dict(D[k], **g)
            if sorted(g) != sorted(v):
                return False
            for q in v:
                if not same(g[q], v[q]):
                    return False
        elif not same(g, v):
            return False
    return all(k in D for k in opts)


def same(a, b):
    if T.isscalar(a) and T.isscalar(b) and not isinstance(a, bool):
        return T.same(a, b)
    return a is b or a == b


@PROP.unit('ntf_fir_audio_weighting')
def u_audio(vc):
    order, osr, f = vc.int('order'), vc.real('osr'), vc.real('f')
    band, attn, H = vc.real('band'), vc.real('attn'), vc.real('H_inf')
    norm = vc.real('norm')
    usr = lambda f: 0
    at, con = awfn('user')
    cons, ats = {id(usr): con}, {}
    for k, fn in LET.items():
        ats[k], cons[id(fn)] = awfn(k)
    # the decibel conversion by its contract
    cons[id(undbp)] = lambda ctx, x: spow(F(10), sdiv(x, 10))
    res = P.Opaque('design', ())
    h = [osr > 0, band > 0, f >= 0]
    cases = [(dict(audio_weighting=k), ats[k]) for k in LET] + [
        ({}, ats['f']), (dict(audio_weighting=usr), at)]
    oc = list(opt_cases(vc))
    runs = [(c, a, {}, o, w) for c, a in cases for o, w in oc[:1]]
    runs += [(cases[-1][0], at, dict(audio_band=band, max_attn=attn,
                                     H_inf=H, normalize=norm), o, w)
             for o, w in oc]
    runs += [(cases[1][0], cases[1][1], dict(max_attn=attn, normalize=None),
              *oc[0]), (cases[-1][0], at, dict(normalize='auto',
                                               audio_band=band), *oc[0])]
    for cs, aw, kw, o, wo in runs:
        got = []

        def design(ctx, order_, w_, H_inf=F(3, 2), normalize='auto', **opts):
            ctx.oblige('order', T.same(order_, order))
            ctx.oblige('H_inf', T.same(H_inf, kw.get('H_inf', F(3, 2))))
            ctx.oblige('normalize', same(normalize, kw.get(
                'normalize', 'auto')))
            ctx.oblige('options', effective(opts, wo))
            got.append(1)
            b, a = kw.get('audio_band', F(22050)), kw.get('max_attn', 120)
            v = ctx.merged(lambda: ctx.call(w_, (f,)))
            fx = smul(smul(smul(2, f), osr), b)
            want = T.smax(ite(sle(fx, b), aw(fx), 0),
                          spow(F(10), sdiv(sneg(a), 10)))
            ctx.oblige('the noise weighting', T.isscalar(v) and seq(v, want))
            return res
        c2 = dict(cons)
        c2[id(W.ntf_fir_weighting)] = design
        name = 'ntf_fir_audio_weighting(%s, %s, %s)' % (
            cs, sorted(kw), sorted(o))
        for p in vc.call(Y.ntf_fir_audio_weighting, (order, osr),
                         lambda: dict(cs, **kw, **{
                             k: dict(v) if isinstance(v, dict) else v
                             for k, v in o.items()}),
                         hyps=h, name=name, contracts=c2):
            if vc.returns(name, p):
                vc.holds(name + ' returns the design', p.value is res)
        vc.holds(name + ' designs', bool(got))


@PROP.unit('dunn')
def u_dunn(vc):
    n, osr, H = vc.int('order'), vc.real('osr'), vc.real('H_inf')
    z = vc.arr('z', (n,), 'f', owner=False)

    def tab(ctx, k):
        ctx.oblige('zeros of the order', T.same(k, n))
        return z

    def want(o):
        def el(ix):
            a = sdiv(smul(PI, z.at(*ix)), o)
            return Cx(scos(a), ssin(a))
        return Arr((n,), el, 'c')
    name = 'dunn_optzeros_cplx'
    for p in vc.call(Y.dunn_optzeros_cplx, (n, osr), hyps=[n >= 1, osr > 0],
                     name=name, contracts={id(Y.dunn_optzeros): tab}):
        if vc.returns(name, p):
            vc.equal(name, p, p.value, want(osr))
    res = P.Opaque('design', ())
    for args, kw, wn, wo, wh in (
            ((n, osr, H), {}, n, osr, H),
            ((), {'H_inf': H, 'osr': osr, 'order': n}, n, osr, H),
            ((n,), {}, n, 64, F(3, 2))):
        def zc(ctx, k, o):
            ctx.oblige('zeros of the order', T.same(k, wn))
            ctx.oblige('zeros for the osr', T.same(o, wo))
            return z

        def syn(ctx, order=3, osr=64, opt=0, H_inf=F(3, 2), f0=0, **o):
            ctx.oblige('order', T.same(order, wn))
            ctx.oblige('osr', T.same(osr, wo))
            ctx.oblige('zeros', opt is z)
            ctx.oblige('gain', T.same(H_inf, wh))
            ctx.oblige('low pass', T.same(f0, 0))
            ctx.oblige('no options', not o)
            return res
        name = 'ntf_dunn(%s, %s)' % (args, sorted(kw))
        for p in vc.call(Y.ntf_dunn, args, kw, hyps=[n >= 1, osr > 0],
                         name=name, contracts={
                             id(Y.dunn_optzeros_cplx): zc,
                             id(ND.synthesizeNTF): syn,
                             id(DS.synthesizeNTF): syn}):
            if vc.returns(name, p):
                vc.holds(name + ' returns the design', p.value is res)
    for p in vc.call(Y.ntf_dunn, (), name='ntf_dunn()', contracts={
            id(Y.dunn_optzeros_cplx): lambda ctx, k, o: (ctx.oblige(
                'defaults', k == 3 and o == 64), z)[1],
            id(ND.synthesizeNTF): lambda ctx, *a, **k: res,
            id(DS.synthesizeNTF): lambda ctx, *a, **k: res}):
        vc.returns('ntf_dunn()', p)


# ------------------------------------------------------------------- run time
@PROP.dyn('ntf_fir_audio_weighting')
def d_audio(d):
    cases = [('a', {}, {}), ('f', {}, {}), (None, {}, {}),
             ('b', dict(max_attn=30), {}),
             ('c', dict(audio_band=10e3, H_inf=1.3), {}),
             ('d', dict(normalize=1e3), {}), (A.d_weighting, {}, {}),
             (lambda f: 1 / (1 + (f / 3e3) ** 2), dict(max_attn=10), {}),
             (lambda f: 1., dict(audio_band=20e3, max_attn=40), {}),
             ('a', dict(normalize=None), {}),
             ('a', dict(max_attn=60, audio_band=16e3),
              dict(quad_opts={'limit': 20}, fix_pos=False,
                   cvxopt_opts={'reltol': 1e-4})),
             ('f', {}, dict(modeler='picos'))]
    for i, (aw, kw, o) in enumerate(cases):
        if not d.more():
            break
        order, osr = [(4, 16), (5, 40), (3, 64)][i % 3]
        d.case(order=order, osr=osr, audio_weighting=aw, kw=kw, options=o)
        b, at = kw.get('audio_band', 22.05e3), kw.get('max_attn', 120)
        g = aw if callable(aw) else LET[aw or 'f']

        def w(f):
            fx = 2 * f * osr * b
            return max(g(fx) if fx <= b else 0., 10 ** (-at / 10))
        k2 = {k: v for k, v in kw.items() if k in ('H_inf', 'normalize')}
        o = dict(o, show_progress=False)
        copy = lambda: {k: dict(v) if isinstance(v, dict) else v
                        for k, v in o.items()}
        if aw is not None:
            kw = dict(kw, audio_weighting=aw)
        r = Y.ntf_fir_audio_weighting(order, osr, **kw, **copy())
        q = W.ntf_fir_weighting(order, w, **k2, **copy())
        key = lambda v: np.sort_complex(np.asarray(v, complex))
        d.close(np.poly(r[0]), np.poly(q[0]), 'same design as with the '
                'weighting given directly', 1e-6, 1e-7)
        d.close(key(r[1]), key(q[1]), 'poles')
        d.close(r[2], q[2], 'gain')


@PROP.dyn('audio weighting handed on')
def d_handed(d):
    # the weighting the design gets, where the optimisation takes it from
    # ntf_fir_weighting: also at points no integration hits on
    old = Y.ntf_fir_weighting
    try:
        while d.more() and d.n < d.top(60):
            r = d.rng
            osr = int(r.choice([8, 16, 33, 64]))
            b = float(r.choice([22.05e3, 20e3, 16384.]))
            at = float(r.choice([120, 40, 10]))
            aw = [lambda f: 1., LET['a'], lambda f: f / 1e3][r.integers(0, 3)]
            got = []
            Y.ntf_fir_weighting = lambda *a, **k: got.append((a, k))
            Y.ntf_fir_audio_weighting(3, osr, aw, b, at)
            Y.ntf_fir_weighting = old
            if len(got) != 1:
                continue
            a, k = got[0]
            w = a[1] if len(a) > 1 else k.get('noise_weighting')
            if not callable(w):
                continue
            e = .5 / osr
            for f in [0., e if osr != 33 else 0., e * (1 - 1e-9), e * (1 + 1e-9), .5] + list(
                    r.uniform(0, 1.2 * e, 5)):
                d.case(osr=osr, band=b, max_attn=at, f=f)
                fx = f * b * 2 * osr
                d.close(w(f), max(aw(fx) if fx <= b else 0.,
                                  10 ** (-at / 10)), 'weighting', 1e-9, 0)
    finally:
        Y.ntf_fir_weighting = old


@PROP.dyn('dunn')
def d_dunn(d):
    for n in range(1, 9):
        for osr in (8, 64, 33.3):
            d.case(order=n, osr=osr)
            z = np.exp(1j * np.pi * np.asarray(Y.dunn_optzeros(n)) / osr)
            d.close(np.sort_complex(Y.dunn_optzeros_cplx(n, osr)),
                    np.sort_complex(z), 'zeros', 1e-9, 1e-12)
            if n >= 2:
                r = Y.ntf_dunn(n, osr, 1.4)
                q = DS.synthesizeNTF(n, osr, z, 1.4, 0)
                for k in range(2):
                    d.close(np.poly(r[k]), np.poly(q[k]), 'the Schreier '
                            'design with these zeros', 1e-6, 1e-9)
                d.close(r[2], q[2], 'gain')
