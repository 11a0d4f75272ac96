"""Options and defaults.  For every function with published defaults the
default table is replaced by one of fresh symbolic values (so that no other
table can be mistaken for it) and every subset of interest of caller options
by further symbols: each option reaching the consumer (the callee taking
options, the solver front end, quad, minimize, the simulator) is proved to be
the caller's value if given and the function's own default otherwise, group by
group and key by key; an unknown option raises TypeError; no default table and
no dictionary of the caller is modified.  Callees enter by the same contract
(their own table overridden by what they are given).  How the solver front
ends hand the options on to the solvers is proved in C17."""
from .base import *
import copy
import scipy.integrate
import scipy.linalg
import scipy.optimize
from pydsm import ft, utilities as U
from pydsm import delsig as D
from pydsm.delsig import _simulateDSM as SIM
from pydsm.delsig import _synthesizeNTF as SY
from pydsm.delsig import _synthesizeNTF0 as SY0
from pydsm.delsig import _synthesizeNTF1 as SY1
from pydsm.delsig import _clans as CL
from pydsm.delsig._tf import evalTF
from pydsm import relab
from pydsm.NTFdesign import filter_based as FB
from pydsm.NTFdesign import helpers as HP
from pydsm.NTFdesign import merit_factors as MF
from pydsm.NTFdesign import psychoacoustic as Y
from pydsm.NTFdesign import legacy as LG
from pydsm.NTFdesign.minmax import _fir_minmax as MM
from pydsm.NTFdesign.minmax import (_fir_minmax_cvxpy, _fir_minmax_cvxpy_tdr,
                                    _fir_minmax_picos)
from pydsm.NTFdesign.weighting import _fir_weighting as W
from pydsm.NTFdesign.weighting import (
    _fir_weighting_cvxpy, _fir_weighting_cvxpy_tdr, _fir_weighting_picos)

PROP = Prop('C08')
# options that steer the program: kept concrete, every value tried
CONTROL = ('modeler', 'solver', 'override_kktsolver', 'backend',
           'use_optimizer')


def tag(fn):
    return fn.__module__.split('.')[-1] + '.' + fn.__name__


def marked(fn, name, ctl=()):
    """a default table of the shape of fn's, of fresh values"""
    ctl = dict(ctl)

    def mark(k, v, path):
        if isinstance(v, dict):
            return {q: mark(q, x, path + '.' + q) for q, x in v.items()}
        if k in CONTROL:
            return ctl.get(k, v)
        return P.Opaque('%s.%s' % (path, k))
    return {k: mark(k, v, name) for k, v in fn.default_options.items()}


def over(table, given):
    """the effective options"""
    out = {}
    for k, v in table.items():
        out[k] = dict(v, **given.get(k, {})) if isinstance(v, dict) else \
            given.get(k, v)
    return out


def eq(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            sorted(a) == sorted(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, P.Opaque) or isinstance(b, P.Opaque):
        return a is b
    if T.isscalar(a) and T.isscalar(b) and not isinstance(a, bool):
        return T.same(a, b)
    return a is b or a == b


def snap(t):
    return {k: snap(v) if isinstance(v, dict) else v for k, v in t.items()}


class Case:
    """one symbolic run of fn with marked tables"""
    def __init__(self, vc, fn, name, ctl=(), given=None, others=()):
        self.vc, self.fn, self.name = vc, fn, name
        self.table = marked(fn, tag(fn), ctl)
        self.given = given or {}
        self.others = {f: marked(f, tag(f), ctl) for f in others}
        self.want = over(self.table, self.given)
        self.hits = 0

    def callee(self, f, ret, groups):
        """contract of a callee with options: its table overridden by what it
        is given must be, for the groups that matter, our effective options"""
        def con(ctx, *a, **kw):
            import inspect
            names = [p.name for p in inspect.signature(f).parameters.values()
                     if p.kind != p.VAR_KEYWORD]
            opts = {k: v for k, v in kw.items() if k not in names}
            g = groups(self.want) if callable(groups) else groups
            ctx.oblige('%s gets known options' % f.__name__,
                       all(k in f.default_options for k in opts))
            eff = over(self.others[f], opts)
            for k in g:
                ctx.oblige('%s gets the %s' % (f.__name__, k),
                           eq(eff[k], self.want[k]))
            self.hits += 1
            return ret(ctx, *a, **kw) if callable(ret) else ret
        return con

    def run(self, args, con=None, hyps=(), **kw):
        given = copy.copy(self.given)
        tabs = {self.fn: self.table}
        tabs.update(self.others)
        before = {f: snap(t) for f, t in tabs.items()}
        cb = snap(given)
        extra = kw.pop('kwargs', {})
        state = {}

        def build(ctx):
            ts = {f: snap(t) for f, t in tabs.items()}
            us = snap(given)
            state['t'], state['u'] = ts, us
            for f, t in ts.items():
                ctx.modvals[('fattr', id(f), 'default_options')] = t
            try:
                return ctx.call(self.fn, tuple(args), dict(us, **extra))
            finally:
                ctx.after = (ts, us)
        ps = self.vc.run(build, list(hyps), con or {}, self.name, **kw)
        for p in ps:
            ts, us = p.ctx.after
            for f in ts:
                self.vc.holds('%s: the defaults of %s are as before' % (
                    self.name, tag(f)), eq(ts[f], before[f]))
            self.vc.holds(self.name + ": the caller's dictionaries are as "
                          'before', eq(us, cb))
        return ps

    def ok(self, args, con=None, hyps=(), **kw):
        ps = self.run(args, con, hyps, **kw)
        for p in ps:
            self.vc.returns(self.name, p)
        if kw.get('quad_check') is None:
            self.vc.holds(self.name + ' reaches the consumer', self.hits > 0)
        return ps


def overrides(fn, groups):
    """caller options: none, each one alone, all"""
    d = fn.default_options
    yield 'defaults', {}
    full = {}
    for k in groups:
        v = d[k]
        if isinstance(v, dict):
            for q in v:
                if q in CONTROL:
                    continue
                o = P.Opaque('user.%s.%s' % (k, q))
                yield '%s[%s]' % (k, q), {k: {q: o}}
                full.setdefault(k, {})[q] = o
            yield '%s empty' % k, {k: {}}
        elif k not in CONTROL:
            o = P.Opaque('user.' + k)
            yield k, {k: o}
            full[k] = o
    if len(full) > 1 or full and isinstance(list(full.values())[0], dict):
        yield 'all', full


def unknown(vc, fn, args, con=None, **kw):
    for bad in ({'no_such_option': 1}, {'quad_optz': {}}):
        c = Case(vc, fn, '%s(unknown option %s)' % (tag(fn), list(bad)[0]),
                 given=bad, others=kw.get('others', ()))
        for p in c.run(args, con):
            vc.raises(c.name, p, TypeError)


# ------------------------------------------------------------ digested_options
@PROP.unit('digested_options')
def u_digest(vc):
    A = [P.Opaque('o%d' % i) for i in range(12)]
    defs = {'a': A[0], 'b': A[1], 'g': {'x': A[2], 'y': A[3]},
            'h': {'z': A[4]}}
    for nm, o, keys, multi, chk, want, left in (
            ('defaults', {}, ['a'], ['g'], True,
             {'a': A[0], 'g': {'x': A[2], 'y': A[3]}}, {}),
            ('a given', {'a': A[5]}, ['a', 'b'], ['h'], True,
             {'a': A[5], 'b': A[1], 'h': {'z': A[4]}}, {}),
            ('x given', {'g': {'x': A[5]}}, [], ['g', 'h'], True,
             {'g': {'x': A[5], 'y': A[3]}, 'h': {'z': A[4]}}, {}),
            ('new key in a group', {'g': {'w': A[5]}}, [], ['g'], True,
             {'g': {'x': A[2], 'y': A[3], 'w': A[5]}}, {}),
            ('leftovers kept', {'b': A[6], 'q': A[7]}, ['a'], [], False,
             {'a': A[0]}, {'b': A[6], 'q': A[7]}),
            ('leftovers rejected', {'a': A[5], 'q': A[7]}, ['a'], [], True,
             None, None),
            ('None given', {'a': None}, ['a'], [], True, {'a': None}, {}),
            ('False given', {'a': False, 'b': 0}, ['a', 'b'], [], True,
             {'a': False, 'b': 0}, {})):
        name = 'digested_options(%s)' % nm

        def build(ctx):
            d, u = snap(defs), snap(o)
            ctx.after = (d, u, u.get('g'))
            return ctx.call(U.digested_options, (u, d, list(keys),
                                                 list(multi), chk))
        for p in vc.run(build, name=name):
            d, u, g = p.ctx.after
            vc.holds(name + ': defaults as before', eq(d, defs))
            if g is not None:
                vc.holds(name + ': the nested group is as before',
                         eq(g, o['g']))
            if want is None:
                vc.raises(name, p, TypeError)
            elif vc.returns(name, p):
                vc.holds(name + ' options', eq(p.value, want))
                vc.holds(name + ' leftovers', eq(u, left))
                for k in multi:
                    vc.holds(name + ' group %s is a copy' % k,
                             p.value[k] is not d[k] and
                             p.value[k] is not g)


# ----------------------------------------------------------------- integrators
def quadcase(vc, fn, args, extra=None, con=None, hyps=(), kwargs=None,
             others=()):
    for nm, g in overrides(fn, ['quad_opts']):
        c = Case(vc, fn, '%s(%s)' % (tag(fn), nm), given=g, others=others)

        def chk(ctx, opts):
            c.hits += 1
            ctx.oblige('quad gets the options', eq(dict(opts),
                                                   c.want['quad_opts']))
        c.ok(args, con, hyps, quad_check=chk, kwargs=kwargs or {})
        vc.holds(c.name + ' integrates', c.hits > 0)
    unknown(vc, fn, args, con)


def specfn(vc):
    g = vc.fn('S', 1, R, R)

    def S_(f):
        raise AssertionError

    def con(ctx, f):
        if isarr(f):
            rd = f.reader()
            return N.mkarr(f.shape, lambda ix: g(T.real(rd(ix))), 'f')
        return g(T.real(f))
    return S_, {id(S_): con}


@PROP.unit('integrators')
def u_quad(vc):
    S_, con = specfn(vc)
    t = vc.real('t')
    tt = vc.arr('tt', (2,))
    for fn in (ft.idtft, ft.idtft_hermitian):
        quadcase(vc, fn, (S_, t), con=con)
        quadcase(vc, fn, (S_, tt), con=con)
    tf = (vc.arr('z', (1,)), vc.arr('p', (1,)), 1)
    c2 = dict(con)
    c2[id(evalTF)] = lambda ctx, h, z: vc.fn('H', 2, R, R)(
        T.real(T.cx(z).re), T.real(T.cx(z).im))
    quadcase(vc, MF.quantization_noise_gain, (tf, S_), con=c2)


# ------------------------------------------------- functions calling functions
def forward(vc, fn, args, callees, groups, con=None, ctl=(), kwargs=None,
            ret=None):
    """callees: {function: groups it must get}"""
    for nm, g in overrides(fn, groups):
        given = dict(g)
        c = Case(vc, fn, '%s(%s%s)' % (tag(fn), nm, ''.join(
            ', %s=%s' % x for x in sorted(dict(ctl).items()))), ctl=ctl,
            given=given, others=list(callees))
        cc = dict(con or {})
        for f, gr in callees.items():
            cc[id(f)] = c.callee(f, (ret or {}).get(f, P.Opaque('r', ())), gr)
        c.ok(args, cc, kwargs=kwargs or {})
    # the steering options given by the caller
    if ctl:
        given = {}
        for k, v in dict(ctl).items():
            if k in fn.default_options:
                given[k] = v
            else:
                for q, t in fn.default_options.items():
                    if isinstance(t, dict) and k in t:
                        given.setdefault(q, {})[k] = v
        c = Case(vc, fn, '%s(given %s)' % (tag(fn), given), given=given,
                 others=list(callees))
        cc = dict(con or {})
        for f, gr in callees.items():
            cc[id(f)] = c.callee(f, (ret or {}).get(f, P.Opaque('r', ())), gr)
        c.ok(args, cc, kwargs=kwargs or {})


MODES = [(('modeler', 'cvxpy_old'),), (('modeler', 'picos'),),
         (('modeler', 'cvxpy'), ('solver', 'cvxopt')),
         (('modeler', 'cvxpy'), ('solver', 'cvxopt'),
          ('override_kktsolver', False)),
         (('modeler', 'cvxpy'), ('solver', 'cvxopt'),
          ('override_kktsolver', True)),
         (('modeler', 'cvxpy'), ('solver', 'scs'))]


def relevant(m):
    m = dict(m)
    if m['modeler'] != 'cvxpy':
        return ['cvxopt_opts']
    return ['cvxpy_opts', 'cvxopt_opts' if m['solver'] == 'cvxopt'
            else 'scs_opts']


def arrq0(vc):
    return vc.arr('q0', (3,), owner=False)


@PROP.unit('weighting')
def u_weighting(vc):
    S_, con = specfn(vc)
    forward(vc, W.q0_weighting, (3, S_), {ft.idtft_hermitian: ['quad_opts']},
            ['quad_opts'], con)
    unknown(vc, W.q0_weighting, (3, S_), con)
    for m in MODES:
        gr = ['show_progress', 'fix_pos', 'modeler'] + relevant(m)
        forward(vc, W.ntf_fir_weighting, (3, S_), {
            W.q0_weighting: ['quad_opts'], W.ntf_fir_from_q0: gr},
            gr + ['quad_opts'], con, m)
        forward(vc, Y.ntf_fir_audio_weighting, (3, 32), {
            W.ntf_fir_weighting: gr + ['quad_opts']}, gr + ['quad_opts'],
            con, m)
        forward(vc, FB.synthesize_ntf_from_filter, (3, S_, 'mag'), {
            FB.q0_from_filter: ['quad_opts'], W.ntf_fir_from_q0: gr},
            gr + ['quad_opts'], con, m)
    unknown(vc, W.ntf_fir_weighting, (3, S_), {
        id(W.q0_weighting): lambda ctx, *a, **k: arrq0(vc)})
    u = P.Opaque('never')
    for fn, a, own in ((Y.ntf_fir_audio_weighting, (3, 32),
                        W.ntf_fir_weighting),
                       (FB.synthesize_ntf_from_filter, (3, S_, 'mag'),
                        W.ntf_fir_from_q0)):
        def deny(ctx, *a, **k):
            bad = [q for q in k if q not in own.default_options]
            if bad:
                raise P.PyRaise(TypeError, ('unknown',))
            return u
        unknown(vc, fn, a, {id(own): deny, id(FB.q0_from_filter):
                            lambda ctx, *a, **k: arrq0(vc)})


@PROP.unit('filter_based')
def u_filter(vc):
    S_, con = specfn(vc)
    tf = (vc.arr('z', (1,)), vc.arr('p', (1,)), 1)
    for H, ty in ((tf, 'zpk'), (tf[:2], 'ba'), (vc.arr('h', (3,)), 'imp'),
                  (S_, 'mag')):
        forward(vc, FB.quantization_noise_gain, (tf, H, ty), {
            MF.quantization_noise_gain: ['quad_opts']}, ['quad_opts'], con)
        if ty != 'imp':
            forward(vc, FB.q0_from_filter, (3, H, ty), {
                W.q0_weighting: ['quad_opts']}, ['quad_opts'], con)
    unknown(vc, FB.quantization_noise_gain, (tf, S_, 'mag'), con)
    unknown(vc, FB.q0_from_filter, (3, S_, 'mag'), con)


# ------------------------------------------------------------ solver front ends
def digested(c, want, m):
    """the front end of this modeler is called with these options"""
    def con(which):
        def f(ctx, *a, **o):
            c.hits += 1
            ctx.oblige('the front end of the modeler', which == dict(m)[
                'modeler'])
            ctx.oblige('show_progress', eq(o.get('show_progress'),
                                           want['show_progress']))
            mm = dict(m)
            if which == 'cvxpy':
                w = dict(want['cvxpy_opts'])
                kk = w.pop('override_kktsolver')
                if mm['solver'] == 'cvxopt':
                    w.update(want['cvxopt_opts'])
                    if kk:
                        w['kktsolver'] = 'chol'
                else:
                    w.update(want['scs_opts'])
                ctx.oblige('cvxpy options', eq(o.get('cvxpy_opts'), w))
            elif which == 'picos':
                ctx.oblige('picos options', eq(o.get('picos_opts'),
                                               want['cvxopt_opts']))
            else:
                ctx.oblige('cvxpy_tdr options', eq(o.get('cvxpy_tdr_opts'),
                                                   want['cvxopt_opts']))
            return Arr((4,), lambda ix: P.T.lit(1), 'f')
        return f
    return con


def linalg_cons(vc):
    """numpy.linalg.eigh and numpy.roots as abstract values"""
    d, v, r = vc.fn('eig.d'), vc.fn('eig.v', 2), vc.fn('roots')

    def eigh(ctx, a, *k, **kw):
        a = N.asarr(ctx, a)
        n = a.shape[0]
        return (Arr((n,), lambda ix: d(*map(T.lit, ix)), 'f'),
                Arr((n, n), lambda ix: v(*map(T.lit, ix)), 'f'))

    def roots(ctx, p):
        p = N.asarr(ctx, p)
        return Arr((ssub(p.shape[0], 1),), lambda ix: r(*map(T.lit, ix)), 'c')
    return {id(np.linalg.eigh): eigh, id(scipy.linalg.eigh): eigh,
            id(np.roots): roots}


FRONT = {'w': {'cvxpy': _fir_weighting_cvxpy, 'picos': _fir_weighting_picos,
               'cvxpy_old': _fir_weighting_cvxpy_tdr},
         'm': {'cvxpy': _fir_minmax_cvxpy, 'picos': _fir_minmax_picos,
               'cvxpy_old': _fir_minmax_cvxpy_tdr}}


def front(vc, fn, args, kind, groups, con, m, others=None):
    base = list(overrides(fn, groups))
    given = {}
    for k, v in dict(m).items():
        if k in fn.default_options:
            given[k] = v
        else:
            given.setdefault('cvxpy_opts', {})[k] = v
    for nm, g, ctl in [(n, g, m) for n, g in base] + [('given', given, ())]:
        c = Case(vc, fn, '%s(%s, %s)' % (tag(fn), nm, m), ctl=ctl, given=g,
                 others=list(others or {}))
        cc = dict(con)
        for w, mod in FRONT[kind].items():
            cc[id(mod.ntf_fir_from_digested)] = digested(c, c.want, m)(w)
        for f, (gr, ret) in (others or {}).items():
            cc[id(f)] = c.callee(f, ret, gr)
        c.ok(args, cc)


@PROP.unit('solver front ends')
def u_front(vc):
    S_, con = specfn(vc)
    con = {**con, **linalg_cons(vc)}
    q0 = arrq0(vc)
    c2 = dict(con)
    for m in MODES:
        gr = ['show_progress'] + relevant(m)
        front(vc, MM.ntf_fir_minmax, (3,), 'm', gr, con, m)
        # fix_pos is a flag: both values are tried
        for fp in (True, False):
            front_fp(vc, W.ntf_fir_from_q0, (q0,), gr, con, m, fp, {})
            front_fp(vc, W.ntf_hybrid_weighting, (2, S_), gr + ['quad_opts'],
                     con, m, fp, {W.q0_weighting: (
                         ['quad_opts'], lambda ctx, *a, **k: q0)})
    unknown(vc, MM.ntf_fir_minmax, (3,), con)
    unknown(vc, W.ntf_fir_from_q0, (q0,), con)
    c2[id(W.q0_weighting)] = lambda ctx, *a, **k: q0
    unknown(vc, W.ntf_hybrid_weighting, (2, S_), c2)


def front_fp(vc, fn, args, groups, con, m, fp, others):
    """like front, for functions with the flag fix_pos: the flag decides
    whether negative eigenvalues are cleared"""
    given = {}
    for k, v in dict(m).items():
        if k in fn.default_options:
            given[k] = v
        else:
            given.setdefault('cvxpy_opts', {})[k] = v
    runs = [(n, dict(g), m, fp) for n, g in overrides(fn, groups)]
    runs += [('given', given, (), fp),
             ('fix_pos given', {'fix_pos': fp}, m, not fp)]
    for nm, g, ctl, dfp in runs:
        c = Case(vc, fn, '%s(%s, %s, fix_pos %s)' % (tag(fn), nm, m, fp),
                 ctl=ctl, given=g, others=list(others))
        c.table['fix_pos'] = dfp
        c.want = over(c.table, c.given)
        cc = dict(con)
        for w, mod in FRONT['w'].items():
            inner = digested(c, c.want, m)(w)

            def fe(ctx, Qs, *a, _i=inner, **o):
                return _i(ctx, *a, **o)
            cc[id(mod.ntf_fir_from_digested)] = fe
        for f, (gr, ret) in others.items():
            cc[id(f)] = c.callee(f, ret, gr)
        c.ok(args, cc)


# ------------------------------------------------- optimizers and the simulator
@PROP.unit('optimizers')
def u_opt(vc):
    def cost(h):
        raise AssertionError
    fn = HP.spread_fir_uc_zeros
    for nm, g in overrides(fn, ['L_BFGS_B_opts']):
        c = Case(vc, fn, '%s(%s)' % (tag(fn), nm), given=g)

        def mini(ctx, f, x0, *a, **k):
            c.hits += 1
            ctx.oblige('minimize gets the options', eq(
                k.get('options'), c.want['L_BFGS_B_opts']))
            r = P.Opaque('res')
            r.attrs['x'] = N.asarr(ctx, x0)
            return r
        c.ok((4, 32, cost), {id(scipy.optimize.minimize): mini})
    unknown(vc, fn, (4, 32, cost), {id(scipy.optimize.minimize): mini})
    fn = CL.clans
    p = vc.real('p')
    des = lambda ctx, *a, **k: (Arr((1,), lambda ix: F(1), 'f'),
                                Arr((1,), lambda ix: p, 'f'), 1)
    for nm, g in overrides(fn, ['show_progress', 'slsqp_opts']):
        c = Case(vc, fn, '%s(%s)' % (tag(fn), nm), given=g)

        def mini(ctx, f, x0, *a, **k):
            c.hits += 1
            w = dict(c.want['slsqp_opts'], disp=c.want['show_progress'])
            ctx.oblige('minimize gets the options', eq(k.get('options'), w))
            x = N.asarr(ctx, x0)
            return {'x': x}
        con = {id(scipy.optimize.minimize): mini, id(SY.synthesizeNTF): des,
               id(relab.cplxpair): lambda ctx, x, *a, **k: x,
               id(CL.dsclansNTF): lambda ctx, *a, **k: None}
        c.ok((1,), con, [p > 0, p < F(1, 2)])
    unknown(vc, fn, (1,), con)


@PROP.unit('steering')
def u_steer(vc):
    fn = SY.synthesizeNTF
    for dflt in (True, False):
        for g in ({}, {'use_optimizer': True}, {'use_optimizer': False}):
            c = Case(vc, fn, 'synthesizeNTF(default %s, %s)' % (dflt, g),
                     ctl={'use_optimizer': dflt}, given=g)

            def via(flag):
                def f(ctx, *a):
                    c.hits += 1
                    ctx.oblige('use_optimizer obeyed',
                               c.want['use_optimizer'] is flag)
                    return P.Opaque('ntf')
                return f
            c.ok((3,), {id(SY0.synthesizeNTF0): via(False),
                        id(SY1.synthesizeNTF1): via(True)})
    unknown(vc, fn, (3,))
    fn = SIM.simulateDSM
    u, h = P.Opaque('u'), P.Opaque('h')
    real = {'scipy': SIM._simulateDSM_scipy,
            'scipy_blas': SIM._simulateDSM_scipy_blas,
            'auto': SIM._simulateDSM_scipy_blas}
    if SIM.HAS_CBLAS:
        real['cblas'] = SIM._simulateDSM_cblas
    for dflt in real:
        for g in [{}] + [{'backend': b} for b in real]:
            c = Case(vc, fn, 'simulateDSM(default %s, %s)' % (dflt, g),
                     ctl={'backend': dflt}, given=g)

            def via(f):
                def con(ctx, *a):
                    c.hits += 1
                    b = c.want['backend']
                    ctx.oblige('backend obeyed', f is real[b] or b == 'auto')
                    return P.Opaque('v')
                return con
            c.ok((u, h), {id(f): via(f) for f in real.values()})
    unknown(vc, fn, (u, h))


# -------------------------------------------------------------------- run time
def spy_quad(fn):
    seen = []
    q = scipy.integrate.quad

    def spy(*a, **k):
        seen.append(k)
        return q(*a, **k)
    return seen, spy


@PROP.dyn('digested_options')
def d_digest(d):
    r = d.rng
    while d.more() and d.n < d.top(400):
        defs = {'k%d' % i: r.integers(0, 9) for i in range(3)}
        defs.update({'g%d' % i: {'x%d' % j: r.integers(0, 9)
                                 for j in range(r.integers(0, 4))}
                     for i in range(3)})
        opts, keys, multi = {}, [], []
        for k in defs:
            if r.random() < .6:
                (multi if k[0] == 'g' else keys).append(k)
            if r.random() < .5:
                opts[k] = {('x%d' % j): r.integers(10, 19) for j in range(
                    r.integers(0, 5))} if k[0] == 'g' else r.integers(10, 19)
        if r.random() < .2:
            opts['zz'] = 1
        chk = bool(r.random() < .5)
        d.case(opts=snap(opts), defaults=snap(defs), keys=keys,
               multikeys=multi, emptycheck=chk)
        left = {k: v for k, v in opts.items() if k not in keys + multi}
        o, df = snap(opts), snap(defs)
        grp = {k: o[k] for k in o if isinstance(o[k], dict)}
        want = {k: v for k, v in over(defs, opts).items()
                if k in keys + multi}
        if chk and left:
            d.raises(TypeError, U.digested_options, o, df, keys, multi, chk)
        else:
            got = U.digested_options(o, df, keys, multi, chk)
            d.expect(got == want, 'effective options', got=got)
            for k in multi:
                got[k]['new'] = 1
        d.expect(df == defs, 'defaults modified')
        d.expect(all(grp[k] == opts[k] for k in grp), 'caller modified')


@PROP.dyn('steering')
def d_all(d):
    """published defaults are honoured and left alone (observable effects)"""
    import warnings
    import contextlib
    import io

    def changed(fn, **kw):
        @contextlib.contextmanager
        def cm():
            old = copy.deepcopy(fn.default_options)
            ob = fn.default_options
            new = copy.deepcopy(old)
            for k, v in kw.items():
                if isinstance(v, dict):
                    new[k].update(v)
                else:
                    new[k] = v
            fn.default_options = new
            try:
                yield
                d.expect(fn.default_options == new, 'defaults modified')
            finally:
                fn.default_options = ob
            d.expect(ob == old, 'defaults modified')
        return cm()
    ntf = (np.array([1.]), np.array([.5]), 1.)
    w = lambda f: 1. if f < .1 else 1e-3
    imp = np.array([1., .5])
    small = lambda f: (f + .01) ** 2
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # a coarse integrator is detectably coarse
        coarse = {'epsabs': 10., 'epsrel': 10., 'limit': 1}
        osc = lambda f: 1 + np.sin(400 * f) ** 2
        oscc = lambda f: osc(f) + 0j
        for fn, call in (
                (ft.idtft, lambda **k: ft.idtft(oscc, 0.3, **k)),
                (ft.idtft_hermitian, lambda **k: ft.idtft_hermitian(
                    osc, 0.3, **k)),
                (W.q0_weighting, lambda **k: W.q0_weighting(2, osc, **k)),
                (MF.quantization_noise_gain,
                 lambda **k: MF.quantization_noise_gain(ntf, osc, **k)),
                (FB.quantization_noise_gain,
                 lambda **k: FB.quantization_noise_gain(ntf, osc, 'mag',
                                                        **k)),
                (FB.q0_from_filter,
                 lambda **k: FB.q0_from_filter(2, osc, 'mag', **k))):
            d.case(function=tag(fn), check='own defaults')
            fine = call()
            cs = call(quad_opts=dict(coarse))
            d.expect(not np.allclose(fine, cs, 1e-9, 1e-9),
                     'options have an effect', fine=fine, coarse=cs)
            with changed(fn, quad_opts=coarse):
                d.close(call(), cs, 'changed defaults are used', 1e-9, 1e-12)
                d.close(call(quad_opts=dict(fn.default_options['quad_opts'],
                                            epsabs=1e-12, epsrel=1e-9,
                                            limit=100)), fine,
                        'caller overrides', 1e-6, 1e-9)
            d.close(call(), fine, 'back to the defaults', 1e-9, 1e-12)
            d.raises(TypeError, call, no_such_option=1)
        # design functions: the modeler and the iteration limit
        from pydsm.NTFdesign import (ntf_fir_minmax, ntf_fir_weighting,
                                     ntf_hybrid_weighting,
                                     ntf_fir_audio_weighting)
        q0 = W.q0_weighting(3, w)
        for fn, call in (
                (W.ntf_fir_from_q0, lambda **k: W.ntf_fir_from_q0(q0, **k)),
                (ntf_fir_weighting, lambda **k: ntf_fir_weighting(3, w, **k)),
                (ntf_hybrid_weighting, lambda **k: ntf_hybrid_weighting(
                    3, w, **k)),
                (ntf_fir_minmax, lambda **k: ntf_fir_minmax(3, 16, **k)),
                (ntf_fir_audio_weighting,
                 lambda **k: ntf_fir_audio_weighting(3, 16, **k)),
                (FB.synthesize_ntf_from_filter,
                 lambda **k: FB.synthesize_ntf_from_filter(
                     3, small, 'mag', **k))):
            if not d.more():
                break
            d.case(function=tag(fn), check='own defaults')
            key = lambda r: np.poly(r[0])
            o = {'show_progress': False, 'cvxopt_opts': {'abstol': 1e-1,
                                                         'reltol': 1e-1,
                                                         'feastol': 1e-1}}
            mine = snap(o)
            fine = key(call(show_progress=False))
            cs = key(call(**mine))
            d.expect(mine == o, 'the dictionaries of the caller are modified')
            d.expect(not np.allclose(fine, cs, 1e-9, 1e-9),
                     'options have an effect', fine=fine, coarse=cs)
            with changed(fn, **o):
                d.close(key(call()), cs, 'changed defaults are used',
                        1e-9, 1e-12)
                d.close(key(call(cvxopt_opts={
                    'abstol': 1e-7, 'reltol': 1e-6, 'feastol': 1e-6})), fine,
                    'caller overrides', 1e-6, 1e-9)
            with changed(fn, modeler='nonsense'):
                d.raises(ValueError, call)
                d.close(key(call(show_progress=False, modeler='cvxpy_old')),
                        fine, 'caller overrides the modeler', 1e-9, 1e-12)
            with changed(fn, show_progress=False):
                d.raises(TypeError, call, no_such_option=1)
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    call()
                d.expect(not b.getvalue(), 'show_progress default obeyed')
        # Schreier, CLANS, zero spreading, simulator
        syn, cl = D.synthesizeNTF, D.clans
        d.case(function='synthesizeNTF')
        a = syn(4, 16, 3, 1.5, 0.)
        b = syn(4, 16, 3, 1.5, 0., use_optimizer=False)
        d.expect(not np.allclose(a[0], b[0]), 'use_optimizer has an effect')
        with changed(syn, use_optimizer=False):
            d.close(syn(4, 16, 3, 1.5, 0.)[0], b[0], 'changed default used')
            d.close(syn(4, 16, 3, 1.5, 0., use_optimizer=True)[0], a[0],
                    'caller overrides')
        d.raises(TypeError, syn, 4, no_such_option=1)
        d.case(function='clans')
        a = cl(3, 32, 5)
        b = cl(3, 32, 5, slsqp_opts={'maxiter': 1})
        d.expect(not np.allclose(a[1], b[1]), 'maxiter has an effect')
        with changed(cl, slsqp_opts={'maxiter': 1}):
            d.close(cl(3, 32, 5)[1], b[1], 'changed default used')
            d.close(cl(3, 32, 5, slsqp_opts={'maxiter': 100})[1], a[1],
                    'caller overrides')
        d.raises(TypeError, cl, 3, no_such_option=1)
        d.case(function='spread_fir_uc_zeros')
        cost = lambda h: MF.quantization_noise_gain(h, None, (0, .5 / 16))
        sp_ = HP.spread_fir_uc_zeros
        a = sp_(4, 16, cost)
        b = sp_(4, 16, cost, L_BFGS_B_opts={'maxiter': 1})
        d.expect(not np.allclose(a, b, 1e-9, 1e-12), 'maxiter has an effect')
        with changed(sp_, L_BFGS_B_opts={'maxiter': 1}):
            d.close(sp_(4, 16, cost), b, 'changed default used')
        d.raises(TypeError, sp_, 4, 16, cost, no_such_option=1)
        d.case(function='simulateDSM')
        u = np.zeros((1, 4))
        with changed(D.simulateDSM, backend='nonsense'):
            d.raises(RuntimeError, D.simulateDSM, u, ntf)
            D.simulateDSM(u, ntf, backend='scipy')
        d.raises(TypeError, D.simulateDSM, u, ntf, no_such_option=1)
