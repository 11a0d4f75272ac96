"""Deprecated and alias entry points.  Proved for arbitrary (symbolic) argument
values, given positionally, by keyword, or left to their defaults: each
deprecated function issues PyDsmDeprecationWarning and calls its replacement
exactly once with the same arguments, defaults and options, and returns its
result; the filter-based ones convert the output filter first (at every
frequency the weighting is the squared magnitude response; an impulse response
counts as the FIR filter with those taps) and raise ValueError for other kinds.
Re-exported names are the very objects they stand for.  The replacements enter
by an abstract contract (any result)."""
from .base import *
import inspect
import warnings
from pydsm import delsig as D
from pydsm import relab, simulation, correlations
from pydsm import utilities as U
from pydsm import audio_weightings as A
from pydsm import NTFdesign as NT
from pydsm.exceptions import PyDsmDeprecationWarning
from pydsm.NTFdesign import delsig as ND
from pydsm.NTFdesign import filter_based as FB
from pydsm.NTFdesign import legacy as LG
from pydsm.NTFdesign import merit_factors as MF
from pydsm.NTFdesign import minmax as MX
from pydsm.NTFdesign import psychoacoustic as Y
from pydsm.NTFdesign import weighting as WG
from pydsm.NTFdesign.legacy import _q0_from_ir as QI
from pydsm.NTFdesign.minmax import _fir_minmax as MM
from pydsm.NTFdesign.weighting import _fir_weighting as W
from pydsm.NTFdesign.weighting import _quantization_noise_gain as QG
from .C08 import eq, specfn
from .C11 import acorr_model

PROP = Prop('C23')

# deprecated function -> its replacement
WRAP = [(ND.synthesizeNTF, ND.ntf_schreier),
        (ND.synthesizeChebyshevNTF, ND.ntf_chebyshev),
        (ND.clans, ND.ntf_clans),
        (Y.synthesize_ntf_dunn, Y.ntf_dunn),
        (Y.synthesize_ntf_from_audio_weighting, Y.ntf_fir_audio_weighting),
        (W.q0_from_noise_weighting, W.q0_weighting),
        (W.synthesize_ntf_from_q0, W.ntf_fir_from_q0),
        (W.synthesize_ntf_from_noise_weighting, W.ntf_fir_weighting),
        (QG.quantization_weighted_noise_gain, MF.quantization_noise_gain),
        (MM.synthesize_ntf_minmax, MM.ntf_fir_minmax),
        (FB.quantization_noise_gain_by_conv,
         LG.quantization_noise_gain_by_conv),
        (U.db, relab.db), (U.cplxpair, relab.cplxpair)]

SAME = [('NTFdesign.delsig.ntf_schreier', ND.ntf_schreier, D.synthesizeNTF),
        ('NTFdesign.delsig.ntf_chebyshev', ND.ntf_chebyshev,
         D.synthesizeChebyshevNTF),
        ('NTFdesign.delsig.ntf_clans', ND.ntf_clans, D.clans),
        ('NTFdesign.ntf_schreier', NT.ntf_schreier, D.synthesizeNTF),
        ('NTFdesign.ntf_chebyshev', NT.ntf_chebyshev,
         D.synthesizeChebyshevNTF),
        ('NTFdesign.ntf_clans', NT.ntf_clans, D.clans),
        ('NTFdesign.ntf_dunn', NT.ntf_dunn, Y.ntf_dunn),
        ('NTFdesign.ntf_fir_audio_weighting', NT.ntf_fir_audio_weighting,
         Y.ntf_fir_audio_weighting),
        ('NTFdesign.ntf_fir_weighting', NT.ntf_fir_weighting,
         W.ntf_fir_weighting),
        ('NTFdesign.ntf_hybrid_weighting', NT.ntf_hybrid_weighting,
         W.ntf_hybrid_weighting),
        ('NTFdesign.mult_weightings', NT.mult_weightings, W.mult_weightings),
        ('NTFdesign.ntf_fir_minmax', NT.ntf_fir_minmax, MM.ntf_fir_minmax),
        ('NTFdesign.quantization_noise_gain', NT.quantization_noise_gain,
         MF.quantization_noise_gain),
        ('minmax.ntf_fir_minmax', MX.ntf_fir_minmax, MM.ntf_fir_minmax),
        ('weighting.q0_weighting', WG.q0_weighting, W.q0_weighting),
        ('weighting.ntf_fir_from_q0', WG.ntf_fir_from_q0, W.ntf_fir_from_q0),
        ('simulation.simulateDSM', simulation.simulateDSM, D.simulateDSM),
        ('simulation.ds_quantize', simulation.ds_quantize, D.ds_quantize)]


def warned(p):
    return any(e[0] == 'warn' and isinstance(e[1], type) and issubclass(
        e[1], PyDsmDeprecationWarning) for e in flat_events(p.events))


def same(a, b):
    letter = {'a': A.a_weighting, 'b': A.b_weighting, 'c': A.c_weighting,
              'd': A.d_weighting, 'f': A.f_weighting}
    if callable(a) != callable(b):        # a letter means its function (C24)
        a = letter.get(a, a) if isinstance(a, str) else a
        b = letter.get(b, b) if isinstance(b, str) else b
    if isinstance(a, (tuple, list)) and type(a) == type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return eq(a, b)


def params(f):
    ps = list(inspect.signature(f).parameters.values())
    var = any(p.kind == p.VAR_KEYWORD for p in ps)
    return [p for p in ps if p.kind != p.VAR_KEYWORD], var


@PROP.unit('forwarding')
def u_forward(vc):
    L = P.Ctx(()).lift
    for w, r in WRAP:
        ps, var = params(r)
        sym = {p.name: P.Opaque('arg.' + p.name) for p in ps}
        req = [p.name for p in ps if p.default is p.empty]
        opt = {'some_option': P.Opaque('o1'), 'group': {'x': P.Opaque('o2')}}
        calls = [(tuple(sym[n] for n in req), {}),
                 (tuple(sym[p.name] for p in ps), {}),
                 ((), dict(sym)),
                 ((), {n: sym[n] for n in req})]
        for p in ps[len(req):]:
            calls.append((tuple(sym[n] for n in req), {p.name: sym[p.name]}))
        if var:
            calls += [(a, dict(k, **opt)) for a, k in calls[:4]]
        wn = [p.name for p in params(w)[0]]
        # names of positional arguments may differ in the deprecated function
        ren = {p.name: (wn[i] if i < len(wn) and p.name not in wn and
                        i < len(req) else p.name)
               for i, p in enumerate(ps)}
        for a, k in calls:
            if len(a) > len(wn):
                if not params(w)[1]:
                    vc.holds('%s takes the arguments of %s' % (
                        w.__name__, r.__name__), False)
                k = dict(k, **{p.name: v for p, v in zip(
                    ps[len(wn):], a[len(wn):])})
                a = a[:len(wn)]
            name = '%s(%d positional, %s)' % (w.__name__, len(a), sorted(k))
            ba = inspect.signature(r).bind(*a, **k)
            ba.apply_defaults()
            want = dict(ba.arguments)
            got, res = [], P.Opaque('result')

            def target(ctx, *aa, **kk):
                try:
                    b = inspect.signature(r).bind(*aa, **kk)
                except TypeError as e:
                    raise P.PyRaise(TypeError, (str(e),))
                b.apply_defaults()
                got.append(1)
                for n, v in want.items():
                    g = b.arguments.get(n)
                    if inspect.signature(r).parameters[n].kind == \
                            inspect.Parameter.VAR_KEYWORD:
                        ctx.oblige('the options', eq(L(g), L(v)))
                    else:
                        ctx.oblige('argument %s' % n, same(L(g), L(v)))
                return res
            kw = {ren.get(n, n): v for n, v in k.items()}
            for p in vc.call(w, a, lambda: {
                    n: dict(v) if isinstance(v, dict) else v
                    for n, v in kw.items()}, name=name,
                    contracts={id(r): target}):
                if vc.returns(name, p):
                    vc.holds(name + ' returns the result of ' + r.__name__,
                             p.value is res)
                    vc.holds(name + ' warns', warned(p))
            vc.holds(name + ' calls %s once' % r.__name__, len(got) == 1)


@PROP.unit('re-exports')
def u_alias(vc):
    for n, a, b in SAME:
        vc.holds(n, a is b, 'is not the function it stands for')


@PROP.unit('filter based')
def u_filter(vc):
    S_, con = specfn(vc)
    g = lambda x: con[id(S_)](None, x)
    f = vc.real('f')
    n, P_ = vc.int('n'), vc.int('P')
    h = vc.arr('h', (n,))
    zpk = (vc.arr('z', (n,), 'c'), vc.arr('p', (n,), 'c'), vc.real('k'))
    ba = (vc.arr('b', (n,)), vc.arr('a', (n,)))
    ntf = P.Opaque('ntf')
    res = P.Opaque('res')
    qo = {'epsabs': P.Opaque('eps')}
    D8 = L = P.Ctx(()).lift

    def isfilter(ctx, w, H, ty):
        if ty in ('zpk', 'ba'):
            return w is H
        if ty == 'imp':
            return isinstance(w, tuple) and len(w) == 2 and w[0] is H and \
                eq(list(L(w[1])), [1]) or isinstance(w, tuple) and len(
                w) == 2 and w[0] is H
        if isarr(w) or not callable(w) and not isinstance(w, P.SFunc):
            return False
        v = ctx.merged(lambda: ctx.call(w, (f,)))
        return T.isscalar(v) and seq(v, smul(g(f), g(f)))
    for H, ty in ((zpk, 'zpk'), (zpk, None), (ba, 'ba'), (h, 'imp'),
                  (S_, 'mag')):
        kt = {} if ty is None else {'H_type': ty}
        ty = ty or 'zpk'
        for o in ({}, {'quad_opts': qo}):
            name = 'quantization_noise_gain(%s, %s)' % (kt, sorted(o))
            hits = []

            def gain(ctx, NTF, w=None, bounds=(0, F(1, 2)), avg=False, **oo):
                hits.append(1)
                ctx.oblige('the NTF', NTF is ntf)
                ctx.oblige('the weighting', isfilter(ctx, w, H, ty))
                if ty == 'imp':
                    one(ctx, w[1])
                ctx.oblige('the whole band', same(tuple(L(bounds)),
                                                  (0, F(1, 2))))
                ctx.oblige('not averaged', avg is False)
                d = L(MF.quantization_noise_gain.default_options)['quad_opts']
                ctx.oblige('options', set(oo) <= {'quad_opts'} and eq(
                    dict(d, **oo.get('quad_opts', {})),
                    dict(d, **o.get('quad_opts', {}))))
                return res
            c = dict(con)
            c[id(MF.quantization_noise_gain)] = gain
            for p in vc.call(FB.quantization_noise_gain, (ntf, H), lambda: {
                    **kt, **{k: dict(v) for k, v in o.items()}}, name=name,
                    contracts=c):
                if vc.returns(name, p):
                    vc.holds(name + ' returns', p.value is res)
                    vc.holds(name + ' warns', warned(p))
                    vc.frame(name, p)
            vc.holds(name + ' integrates', len(hits) == 1)
            name = 'q0_from_filter(%s, %s)' % (kt, sorted(o))

            def q0w(ctx, P__, w, **oo):
                ctx.oblige('the order', T.same(P__, P_))
                ctx.oblige('the weighting', isfilter(ctx, w, H, ty))
                if ty == 'imp':
                    one(ctx, w[1])
                d = L(W.q0_weighting.default_options)['quad_opts']
                ctx.oblige('options', set(oo) <= {'quad_opts'} and eq(
                    dict(d, **oo.get('quad_opts', {})),
                    dict(d, **o.get('quad_opts', {}))))
                return res
            c = dict(con)
            c[id(W.q0_weighting)] = q0w
            c[id(correlations.raw_acorr)] = acorr_model
            for p in vc.call(FB.q0_from_filter, (P_, H), lambda: {
                    **kt, **{k: dict(v) for k, v in o.items()}}, name=name,
                    contracts=c, hyps=[n >= 1, P_ >= 0]):
                if not vc.returns(name, p):
                    continue
                vc.frame(name, p)
                vc.holds(name + ' warns', warned(p))
                if p.value is res:
                    continue
                # the correlation of the taps (Parseval)
                vc.holds(name + ': correlation only for a FIR filter',
                         ty == 'imp')
                vc.equal(name, p, p.value, Arr((P_ + 1,), lambda ix: ite(
                    slt(ix[0], n), ssum(0, ssub(n, ix[0]), lambda j: smul(
                        h.at(sadd(ix[0], j)), h.at(j))), 0), 'f'))
        # the design
        H_, nm = vc.real('H_inf'), P.Opaque('normalize')
        q = P.Opaque('q0')
        for kw in ({}, {'H_inf': H_, 'normalize': nm},
                   {'show_progress': False, 'quad_opts': qo}):
            name = 'synthesize_ntf_from_filter(%s, %s)' % (kt, sorted(kw))

            def q0f(ctx, P__, w, t='zpk', **oo):
                ctx.oblige('the order', T.same(P__, P_))
                ctx.oblige('the filter', w is H and t == ty)
                return q

            def des(ctx, q0, H_inf=F(3, 2), normalize='auto', **oo):
                ctx.oblige('the coefficients', q0 is q)
                ctx.oblige('the peak gain', T.same(H_inf, kw.get(
                    'H_inf', F(3, 2))))
                ctx.oblige('normalization', eq(normalize, kw.get(
                    'normalize', 'auto')))
                ctx.oblige('show_progress', oo.get('show_progress', True) is
                           kw.get('show_progress', True))
                return res
            for p in vc.call(FB.synthesize_ntf_from_filter, (P_, H),
                             lambda: {**kt, **{
                                 k: dict(v) if isinstance(v, dict) else v
                                 for k, v in kw.items()}}, name=name,
                             contracts={id(FB.q0_from_filter): q0f,
                                        id(W.ntf_fir_from_q0): des}):
                if vc.returns(name, p):
                    vc.holds(name + ' returns', p.value is res)
                    vc.holds(name + ' warns', warned(p))
    for bad in ('other', 'ZPK', '', None):
        for fn, a in ((FB.quantization_noise_gain, (ntf, zpk, bad)),
                      (FB.q0_from_filter, (P_, zpk, bad))):
            name = '%s(%r)' % (fn.__name__, bad)
            for p in vc.call(fn, a, name=name):
                vc.raises(name, p, ValueError)


def one(ctx, a):
    a = N.asarr(ctx, a)
    ctx.oblige('the denominator of a FIR filter is one', sand(
        len(a.shape) == 1, seq(a.shape[0], 1), seq(a.at(0), 1)))


# ------------------------------------------------------------------- run time
def pair(d, w, r, a, k=None, tol=1e-9):
    k = k or {}
    copy = lambda: {q: dict(v) if isinstance(v, dict) else v
                    for q, v in k.items()}
    d.case(function=w.__name__, args=a, kwargs=k)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            x = w(*a, **copy())
        except Exception as e:
            x = e
    d.expect(any(issubclass(v.category, PyDsmDeprecationWarning)
                 for v in ws), 'deprecation warning')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            y = r(*a, **copy())
        except Exception as e:
            y = e
    if isinstance(x, Exception) or isinstance(y, Exception):
        d.expect(type(x) is type(y), 'same outcome', got=x, want=y)
        return
    if isinstance(y, tuple):
        d.expect(isinstance(x, tuple) and len(x) == len(y), 'same form')
        for u, v in zip(x, y):
            d.close(u, v, 'same result as the replacement', tol, tol)
    else:
        d.close(x, y, 'same result as the replacement', tol, tol)


@PROP.dyn('forwarding')
def d_forward(d):
    w = lambda f: 1. if f < .1 else 1e-3
    q = {'show_progress': False}
    ntf = (np.array([1., .9]), np.array([.5, .2]), 1.)
    z = np.array([1 + 1j, 2., 1 - 1j, -3.])
    for a, k in (((), {}), ((4,), {}), ((4, 32, 1), {}),
                 ((4, 32, 1, 1.4), {}), ((4, 32, 1, 1.4, .1), {}),
                 ((5,), {'use_optimizer': False, 'opt': 3, 'H_inf': 1.7})):
        pair(d, ND.synthesizeNTF, D.synthesizeNTF, a, k)
    for a, k in (((), {}), ((4, 32), {}), ((4, 32, 0, 2.), {}),
                 ((4, 32, 0, 2., .2), {}), ((), {'H_inf': 3., 'order': 5})):
        pair(d, ND.synthesizeChebyshevNTF, D.synthesizeChebyshevNTF, a, k)
    for a, k in (((), {}), ((3, 32), {}), ((3, 32, 4, .9, 1), {}),
                 ((4,), {'slsqp_opts': {'maxiter': 2}, 'rmax': .8})):
        pair(d, ND.clans, D.clans, a, k, 1e-6)
    for a, k in (((), {}), ((4, 32, 1.4), {}), ((), {'osr': 48})):
        pair(d, Y.synthesize_ntf_dunn, Y.ntf_dunn, a, k)
    for a, k in (((3, 32), q), ((3, 32, 'a', 20e3, 60, 1.4, None), q),
                 ((3, 32), dict(q, modeler='picos')),
                 ((3, 32, 'a', 20e3, 60, 1.4, 'x'), q),
                 ((3, 32, 'a', 20e3, 60, 'x'), q),
                 ((3, 32, 'a', 20e3, 'x'), q), ((3, 32, 'a', 'x'), q),
                 ((3, 32, 'x'), q)):
        pair(d, Y.synthesize_ntf_from_audio_weighting,
             Y.ntf_fir_audio_weighting, a, k)
    for a, k in (((3, w), {}), ((4, ntf), {'quad_opts': {'limit': 5}})):
        pair(d, W.q0_from_noise_weighting, W.q0_weighting, a, k)
    q0 = W.q0_weighting(4, w)
    for a, k in (((q0,), q), ((q0, 1.3, None), q), ((q0, 2., 7.), q),
                 ((q0,), dict(q, fix_pos=False, modeler='picos')),
                 ((q0, 1.4, 'x'), q), ((q0, 'x'), q),
                 ((q0,), dict(q, normalize=()))):
        pair(d, W.synthesize_ntf_from_q0, W.ntf_fir_from_q0, a, k)
    for a, k in (((3, w), q), ((3, w, 1.3, None), q),
                 ((3, ntf, 2.), dict(q, cvxopt_opts={'reltol': 1e-2})),
                 # an argument which cannot work tells whether it is passed
                 ((3, w, 1.4, 'x'), q), ((3, w, 'x'), q), (('x', w), q),
                 ((3, w), dict(q, normalize=())),
                 ((3, w), dict(q, H_inf=()))):
        pair(d, W.synthesize_ntf_from_noise_weighting, W.ntf_fir_weighting,
             a, k)
    for a, k in (((ntf,), {}), ((ntf, w), {}), ((ntf, ntf, (.1, .2)), {}),
                 ((ntf, w), {'avg': True, 'quad_opts': {'limit': 3}})):
        pair(d, QG.quantization_weighted_noise_gain,
             MF.quantization_noise_gain, a, k)
    for a, k in (((4, 16), q), ((4, 16, 1.4, .1, True), q),
                 ((4,), dict(q, H_inf=np.inf))):
        pair(d, MM.synthesize_ntf_minmax, MM.ntf_fir_minmax, a, k)
    for a, k in (((ntf, ntf), {}), ((ntf, ntf, 'ba'), {}),
                 ((ntf, [1., .5], 'imp', 60), {}), ((ntf, ntf, 'x'), {})):
        pair(d, FB.quantization_noise_gain_by_conv,
             LG.quantization_noise_gain_by_conv, a, k)
    for a, k in (((2.,), {}), ((2., 'power'), {}), (([2., 3.], 'voltage', 5.),
                                                    {})):
        pair(d, U.db, relab.db, a, k)
    c64 = np.array([1 + 1j, 1 - 1.00001j], dtype=np.complex64)
    for a, k in (((z,), {}), ((z, 1e-3), {}), ((c64,), {}),
                 ((np.array([1 + 1j, 1 - 1.001j]),), {}),
                 ((np.array([1 + 1j, 1 - 1.001j]), .1), {}),
                 ((np.array([[1 + 1j, 1 - 1j], [2., 3.]]),), {'dim': 1})):
        pair(d, U.cplxpair, relab.cplxpair, a, k)


@PROP.dyn('filter based')
def d_filter(d):
    ntf = (np.array([1., .9]), np.array([.5, .2]), 1.)
    h = np.array([1., .5, -.2])
    H = lambda f: np.abs(np.polyval(h, np.exp(2j * np.pi * f)))
    zpk = (np.roots(h), np.zeros(2), 1.)
    w = lambda f: H(f) ** 2
    q = {'show_progress': False}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = MF.quantization_noise_gain(ntf, w)
    for v, ty in ((zpk, 'zpk'), ((h, [1., 0, 0]), 'ba'), (h, 'imp'),
                  (H, 'mag'), (zpk, None)):
        kt = {} if ty is None else {'H_type': ty}
        pair(d, lambda: FB.quantization_noise_gain(ntf, v, **kt),
             lambda: MF.quantization_noise_gain(ntf, w), (), tol=1e-7)
        for P_ in (1, 2, 3, 5):
            pair(d, lambda: FB.q0_from_filter(P_, v, **kt),
                 lambda: W.q0_weighting(P_, w), (), tol=1e-7)
        for m in ('cvxpy_old', 'picos'):
            pair(d, lambda: FB.synthesize_ntf_from_filter(
                3, v, H_inf=1.4, normalize=2., modeler=m, **q, **kt)[1:],
                lambda: W.ntf_fir_weighting(
                    3, w, 1.4, 2., modeler=m, **q)[1:], (), tol=1e-4)
            pair(d, lambda: np.poly(FB.synthesize_ntf_from_filter(
                3, v, H_inf=1.4, normalize=2., modeler=m, **q, **kt)[0]),
                lambda: np.poly(W.ntf_fir_weighting(
                    3, w, 1.4, 2., modeler=m, **q)[0]), (), tol=1e-3)
    for bad in ('other', 'ZPK', None):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d.case(H_type=bad)
            d.raises(ValueError, FB.quantization_noise_gain, ntf, zpk, bad)
            d.raises(ValueError, FB.q0_from_filter, 3, zpk, bad)
            d.raises(ValueError, FB.synthesize_ntf_from_filter, 3, zpk, bad)
            d.raises(ValueError, FB.quantization_noise_gain_by_conv, ntf,
                     zpk, bad)
