"""C19: convexity verdicts of the bundled modelling library (cvxpy_tdr).

The verdicts are verified by structural induction over expressions.  The
children of a node are arbitrary expressions, of which only the induction
hypothesis is known: whether the library declares them affine, convex,
concave, nonnegative or nonpositive constant is an arbitrary combination of
truths, and their values at two arbitrary points and at an arbitrary point of
the segment in between satisfy what is declared.  The obligations are that, on
every path on which the real `is_...` method of the node returns true, the
values that its real `value` accessor computes at the three points satisfy
Jensen's inequality (equality, sign).  For a function node the method must have
asked the function about the arguments of the node; the verdict of a program on
some arguments must be the one on the program with the formals replaced by the
arguments (the replacement is verified too, by induction), which is joint
convexity in the arguments and the internal variables; partial minimisation
then gives Jensen's inequality for the node: lemmas/C19.lean, as are the rules
for the convex sets behind accepted constraints.
"""
import sys
from .base import *
from .C18 import (E, Tok, FnItem, Mx, Arrx, node, tree, MXC, S22, S12, S21,
                  rnd_leaf, grid)
from pyvc import interp as P
from pyvc.interp import Hooked, SObj, SList, PyRaise
from pyvc.terms import isnum, isz
from pydsm.cvxpy_tdr import defs as DF, scalars as SC, arrays as AR, \
    constraints as CN, interface as IF, programs as PR
from pydsm.cvxpy_tdr.procedures import re_eval as RE

re_eval = sys.modules['pydsm.cvxpy_tdr.procedures.re_eval'].re_eval

PROP = Prop('C19')
PROP.assume(
    'expressions are well formed, i.e. the first factor of a product has no '
    'variables (proved in C18)',
    'the value of a parameter respects its attribute, when set (proved of the '
    'setter in C18)',
    'the sets of the library (cones, epigraphs, hypographs) are convex: '
    'mathematical facts about their definitions',
    'sums of 2 and 3 terms, arrays and lists of small shapes: by induction on '
    'their length the rules are the same')

L = z3.Real('lam')
HYP = [L >= 0, L <= 1]
FLAGS = ('is_convex', 'is_concave', 'is_affine', 'is_nonnegative_constant',
         'is_nonpositive_constant')


def mix(x, y):
    return sadd(smul(L, x), smul(ssub(F(1), L), y))


def jensen(flag, v):
    """what a declaration means for the values at two points and between"""
    x, y, z = v
    m = mix(x, y)
    if flag == 'is_convex':
        return sle(z, m)
    if flag == 'is_concave':
        return sle(m, z)
    if flag == 'is_affine':
        return seq(z, m)
    same = z3.And(seq(x, y), seq(y, z))
    return z3.And(same, sle(F(0), x) if flag == 'is_nonnegative_constant'
                  else sle(x, F(0)))


class Points:
    """which of the three points values are taken at"""
    cur = 0


class X(E):
    """an arbitrary expression at three points, with its declarations"""
    def __init__(self, vc, name, const=False):
        E.__init__(self, name, None, () if const else [Tok('v_' + name)])
        self.const = const
        v = [vc.real(name + s) for s in 'xyz']
        self.vals = [v[0]] * 3 if const else v
        self.flags = {f: z3.Bool('%s.%s' % (name, f)) for f in FLAGS}
        self.hyps = [z3.Implies(b, jensen(f, self.vals))
                     for f, b in self.flags.items()]

    def h_getattr(self, ctx, n):
        if n == 'value':
            return self.vals[Points.cur]
        if n == 'is_dcp':
            return P.BoundModel(lambda c, o: z3.Or(
                o.flags['is_convex'], o.flags['is_concave']), self, n)
        return E.h_getattr(self, ctx, n)


def ask(ctx, e, flag):
    """the real answer, as a python truth (a path per outcome)"""
    return ctx.branch(ctx.call(ctx.getattr(e, flag), ()))


def values(ctx, e):
    r = []
    for i in range(3):
        Points.cur = i
        r.append(ctx.getattr(e, 'value'))
    Points.cur = 0
    return r


def check_node(vc, name, mk, kids, skip=()):
    for flag in FLAGS:
        if flag in skip:
            continue

        def build(ctx):
            e = mk()
            return ask(ctx, e, flag), values(ctx, e)
        hyps = HYP + [h for k in kids for h in k.hyps]
        nm = '%s: %s' % (name, flag)
        for p in vc.run(build, hyps=hyps, name=nm):
            if vc.returns(nm, p) and p.value[0]:
                vc.ob(nm + ' means it', p.hyps, jensen(flag, p.value[1]))

    def build(ctx):
        e = mk()
        return ask(ctx, e, 'is_dcp'), e
    for p in vc.run(build, hyps=HYP, name=name + ': is_dcp'):
        if not vc.returns(name + ': is_dcp', p):
            continue

        def build2(ctx, e=p.value[1]):
            return ask(ctx, e, 'is_convex') or ask(ctx, e, 'is_concave')
        for q in vc.run(build2, hyps=p.hyps, name=name + ': is_dcp 2'):
            if vc.returns(name + ': is_dcp 2', q):
                vc.holds(name + ': is_dcp only if convex or concave',
                         not p.value[0] or q.value)


@PROP.unit('leaves: variables, parameters, constants')
def u_leaves(vc):
    v = [vc.real('v' + s) for s in 'xy']
    c = vc.real('c')
    for nm, mk, hyp, vals in (
            ('variable', lambda: node(SC.cvxpy_scalar_var, type=DF.VARIABLE,
                                      value=F(0)), [], v + [mix(*v)]),
            ('constant', lambda: node(SC.cvxpy_obj, type=DF.CONSTANT,
                                      value=c), [], [c] * 3),
            ('parameter', lambda: node(
                SC.cvxpy_scalar_param, type=DF.PARAMETER, value=c,
                attribute=None), [], [c] * 3),
            ('nonnegative parameter', lambda: node(
                SC.cvxpy_scalar_param, type=DF.PARAMETER, value=c,
                attribute=DF.NONNEGATIVE), [c >= 0], [c] * 3),
            ('nonpositive parameter', lambda: node(
                SC.cvxpy_scalar_param, type=DF.PARAMETER, value=c,
                attribute=DF.NONPOSITIVE), [c <= 0], [c] * 3)):
        for flag in FLAGS:
            n = '%s: %s' % (nm, flag)
            for p in vc.run(lambda ctx: ask(ctx, mk(), flag),
                            hyps=HYP + hyp, name=n):
                if vc.returns(n, p) and p.value:
                    vc.ob(n + ' means it', p.hyps, jensen(flag, vals))


@PROP.unit('the sign of a parameter agrees with its value')
def u_sign(vc):
    # the class invariant that the leaves rely on, kept by every assignment
    def nan(v):
        return isinstance(v, T.Inf) and v.s == 0

    def inv(q, v):
        at = q.attrs['attribute']
        if nan(v) or at is None:
            return True
        return sge(v, 0) if at == DF.NONNEGATIVE else sle(v, 0)
    old, new = vc.real('old'), vc.real('new')
    for a0 in (None, DF.NONNEGATIVE, DF.NONPOSITIVE):
        hyp = [] if a0 is None else [old >= 0 if a0 == DF.NONNEGATIVE else
                                     old <= 0]
        for what, val in (('value', new), ('attribute', None),
                          ('attribute', DF.NONNEGATIVE),
                          ('attribute', DF.NONPOSITIVE)):
            def build(ctx):
                q = node(SC.cvxpy_scalar_param, type=DF.PARAMETER,
                         value=old, attribute=a0)
                try:
                    ctx.setattr(q, what, val)
                except PyRaise as e:
                    return q, ctx.getattr(q, 'value'), e
                return q, ctx.getattr(q, 'value'), None
            n = 'parameter %s, %s = %s' % (a0, what, val)
            for p in vc.run(build, hyps=hyp, name=n):
                if not vc.returns(n, p):
                    continue
                q, v, e = p.value
                vc.ob(n + ': the sign holds', p.hyps, inv(q, v))
                if e is None:
                    vc.holds(n + ': done', what == 'value' or
                             q.attrs['attribute'] == val)
                else:
                    vc.holds(n + ': rejected values only', what == 'value')


@PROP.unit('sums')
def u_sum(vc):
    for n in (1, 2, 3):
        ks = [X(vc, 'e%d' % i) for i in range(n)]
        check_node(vc, 'sum of %d' % n, lambda: tree('+', list(ks)), ks)


@PROP.unit('products')
def u_prod(vc):
    for c in (False, True):
        ks = [X(vc, 'k', True), X(vc, 'e', c)]
        check_node(vc, 'product%s' % (' of constants' if c else ''),
                   lambda: tree('*', list(ks)), ks)


class Fn(FnItem):
    """a function: only its answers on the arguments of the node matter"""
    def __init__(self, action, args):
        FnItem.__init__(self, action)
        self.args, self.ok = args, z3.Bool('f.is_dcp(args)')

    def h_getattr(self, ctx, n):
        if n == 'is_dcp':
            def f(c, o, args=None):
                a = None if args is None else c.iterate(args)
                if a is None or len(a) != len(o.args) or any(
                        x is not y for x, y in zip(a, o.args)):
                    # the verdict on anything else says nothing
                    return z3.Bool('f.is_dcp(something else)')
                return o.ok
            return P.BoundModel(f, self, n)
        return FnItem.h_getattr(self, ctx, n)


@PROP.unit('function nodes')
def u_fun(vc):
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        for const in (False, True):
            ks = [X(vc, 'e1', const), X(vc, 'e2', const)]
            vals = [vc.real('f' + s) for s in 'xyz']
            f = Fn(action, ks)
            # partial minimisation (Lean): the verdict on the arguments
            meaning = z3.Implies(f.ok, jensen(
                'is_convex' if action == DF.MINIMIZE else 'is_concave', vals))
            hyps = HYP + [h for k in ks for h in k.hyps] + [meaning]
            if const:
                hyps += [seq(vals[0], vals[1]), seq(vals[1], vals[2])]
            for flag in FLAGS:
                nm = '%s function%s: %s' % (
                    action, ' of constants' if const else '', flag)
                for p in vc.run(lambda ctx: ask(ctx, tree(f, list(ks)),
                                                flag), hyps=hyps, name=nm):
                    if vc.returns(nm, p) and p.value:
                        vc.ob(nm + ' means it', p.hyps, jensen(flag, vals))


@PROP.unit('constraints describe convex sets')
def u_con(vc):
    for ty in (DF.EQUALS, DF.LESS_EQUALS, DF.GREATER_EQUALS):
        rel = {DF.EQUALS: seq, DF.LESS_EQUALS: sle,
               DF.GREATER_EQUALS: lambda a, b: sle(b, a)}[ty]
        ks = [X(vc, 'l'), X(vc, 'r')]

        def mk():
            c = SObj(CN.cvxpy_constr)
            c.attrs.update(left=ks[0], type=ty, right=ks[1])
            return c
        hyps = HYP + [h for k in ks for h in k.hyps] + [
            rel(ks[0].vals[i], ks[1].vals[i]) for i in (0, 1)]
        nm = 'constraint %s' % ty
        for p in vc.run(lambda ctx: ask(ctx, mk(), 'is_dcp'), hyps=hyps,
                        name=nm):
            if vc.returns(nm, p) and p.value:
                vc.ob(nm + ': holds between two points where it holds',
                      p.hyps, rel(ks[0].vals[2], ks[1].vals[2]))
        for p in vc.run(lambda ctx: ask(ctx, mk(), 'is_affine'), hyps=hyps,
                        name=nm + ' affine'):
            if vc.returns(nm + ' affine', p) and p.value:
                for k in ks:
                    vc.ob(nm + ': affine sides', p.hyps,
                          jensen('is_affine', k.vals))
    # membership: the entries of the array are affine
    for sh in (S22, S12, S21):
        d = grid(sh, lambda i, j: F(1) if (i, j) == (0, 1)
                 else X(vc, 'a%d%d' % (i, j)))

        def mk():
            c = SObj(CN.cvxpy_constr)
            c.attrs.update(left=Arrx(None, sh, d), type=DF.BELONGS,
                           right=None)
            return c
        hyps = HYP + [h for k in d.values() if isinstance(k, X)
                      for h in k.hyps]
        nm = 'membership %s' % (sh,)
        for p in vc.run(lambda ctx: ask(ctx, mk(), 'is_dcp'), hyps=hyps,
                        name=nm):
            if vc.returns(nm, p) and p.value:
                for q, k in d.items():
                    if isinstance(k, X):
                        vc.ob('%s: entry %s is affine' % (nm, list(q)),
                              p.hyps, jensen('is_affine', k.vals))
        for p in vc.run(lambda ctx: ask(ctx, mk(), 'is_affine'), hyps=hyps,
                        name=nm + ' affine'):
            if vc.returns(nm + ' affine', p):
                vc.holds(nm + ': never an affine constraint', not p.value)


class C(Hooked):
    """an arbitrary constraint with its verdicts"""
    def __init__(self, name):
        self.name = name
        self.flags = {f: z3.Bool('%s.%s' % (name, f))
                      for f in ('is_dcp', 'is_affine')}
        self.subst = None

    def __repr__(self):
        return self.name

    def h_getattr(self, ctx, n):
        if n in self.flags:
            return P.BoundModel(lambda c, o: o.flags[n], self, n)
        if n in ('variables', 'parameters'):
            r = SList()
            r.cls = CN.cvxpy_list
            return r
        raise Unsupported('attribute %s of a constraint' % n)


def clist(cs):
    r = SList(cs)
    r.cls = CN.cvxpy_list
    return r


@PROP.unit('lists of constraints and programs')
def u_prog(vc):
    for n in (0, 1, 3):
        cs = [C('c%d' % i) for i in range(n)]
        for flag in ('is_dcp', 'is_affine'):
            nm = '%d constraints: %s' % (n, flag)
            for p in vc.run(lambda ctx: ask(ctx, clist(cs), flag), name=nm):
                if vc.returns(nm, p) and p.value:
                    for c in cs:
                        vc.ob(nm + ': each is', p.hyps, c.flags[flag])
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        for n in (0, 2):
            cs = [C('c%d' % i) for i in range(n)]
            o = X(vc, 'o')

            def build(ctx):
                q = ctx.call(IF.program, ((action, o), cs))
                return ask(ctx, q, 'is_dcp')
            nm = '%s program with %d constraints' % (action, n)
            Q = dict(MXC)
            for p in vc.run(build, hyps=HYP + o.hyps, contracts=Q, name=nm):
                if vc.returns(nm, p) and p.value:
                    for c in cs:
                        vc.ob(nm + ': each constraint is accepted', p.hyps,
                              c.flags['is_dcp'])
                    vc.ob(nm + ': objective', p.hyps, jensen(
                        'is_convex' if action == DF.MINIMIZE else
                        'is_concave', o.vals))


@PROP.unit('verdict of a function on its arguments')
def u_args(vc):
    """The program with the formals replaced by the arguments is judged."""
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        for nargs in (3, 2):
            cs = [C('c%d' % i) for i in range(2)]
            o = X(vc, 'o')
            fm = [node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=F(0),
                       name='z%d' % i) for i in range(3)]
            args = [X(vc, 'a%d' % i) for i in range(nargs)]
            o2 = X(vc, 'o[args]')
            c2 = [C('c%d[args]' % i) for i in range(2)]

            def sub(ctx, e, m):
                ok = isinstance(m, dict) and len(m) == 3 and all(
                    any(k is f and m[k] is a for k in m)
                    for f, a in zip(fm, args))
                if not ok:
                    raise Unsupported('replacement of something else')
                if e is o:
                    return o2
                l = ctx.iterate(e)
                assert all(x is y for x, y in zip(l, cs)) and len(l) == 2
                return clist(c2)

            def build(ctx):
                ar = Arrx(ctx, (2, 1), {(0, 0): fm[1], (1, 0): fm[2]})
                ar.cls = AR.cvxpy_var
                q = ctx.call(IF.program, ((action, o), cs, [fm[0], ar]))
                try:
                    return ctx.branch(ctx.call(ctx.getattr(q, 'is_dcp'),
                                               (list(args),)))
                except PyRaise as e:
                    return e
            nm = '%s program on %d arguments' % (action, nargs)
            Q = dict(MXC)
            Q[id(re_eval)] = sub
            for p in vc.run(build, hyps=HYP + o2.hyps, contracts=Q, name=nm):
                if not vc.returns(nm, p):
                    continue
                if nargs != 3:
                    vc.holds(nm + ': rejected', isinstance(p.value, PyRaise)
                             and issubclass(p.value.cls, TypeError))
                elif isinstance(p.value, PyRaise):
                    vc.holds(nm + ': accepted', False, str(p.value.cls))
                elif p.value:
                    for c in c2:
                        vc.ob(nm + ': each constraint is accepted', p.hyps,
                              c.flags['is_dcp'])
                    vc.ob(nm + ': objective', p.hyps, jensen(
                        'is_convex' if action == DF.MINIMIZE else
                        'is_concave', o2.vals))


@PROP.unit('replacement of the formals')
def u_reeval(vc):
    """The value of the replaced expression is that of the expression, with
    the arguments for the formals; children by induction."""
    body = []

    def rec(ctx, e, m):
        if isinstance(e, E):
            # induction hypothesis
            return e.repl
        return ctx.call_node(ctx.wrap_real(re_eval), (e, m), {})
    Q = dict(MXC)
    Q[id(re_eval)] = rec
    a = vc.real('a')

    def kid(n, vs=True):
        e = E(n, vc.real(n), [Tok('v_' + n)] if vs else [])
        e.repl = E(n + "'", vc.real(n + "'"), [Tok('w_' + n)] if vs else [])
        return e
    z = node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=vc.real('z'),
             name='z')
    w = node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=vc.real('w'),
             name='w')
    q = node(SC.cvxpy_scalar_param, type=DF.PARAMETER, value=vc.real('q'),
             name='q', attribute=None)
    k = node(SC.cvxpy_obj, type=DF.CONSTANT, value=vc.real('k'), name='k')
    es = [kid('e%d' % i) for i in range(3)]
    c0 = kid('c', False)
    val = lambda e: e.attrs['value'] if isinstance(e, SObj) else e.repl.val

    class G(FnItem):
        def h_call(self, ctx, args, kwargs):
            # the contract of a call with expressions
            if not any(isinstance(x, (E, SObj)) for x in
                       ctx.iterate(args[0])):
                return FnItem.h_call(self, ctx, args, kwargs)
            return tree(self, ctx.iterate(args[0]))
    za = E('za', vc.real('za'), [Tok('v_za')])
    za.repl = za
    cases = [('constant', k, val(k)), ('other variable', w, val(w)),
             ('other parameter', q, val(q)), ('formal', z, za.val),
             ('number', vc.real('n'), vc.real('n')),
             ('sum', tree('+', es[:2]), sadd(val(es[0]), val(es[1]))),
             ('sum of 3', tree('+', es), sadd(sadd(val(es[0]), val(es[1])),
                                              val(es[2]))),
             ('product', tree('*', [c0, es[1]]), smul(val(c0), val(es[1]))),
             ('product by a constant', tree('*', [k, es[1]]),
              smul(val(k), val(es[1]))),
             ('function', tree(G(), es[:2]), FnItem.FN(val(es[0]),
                                                       val(es[1])))]

    def v(ctx, r):
        return ctx.getattr(r, 'value') if isinstance(r, (SObj, E)) else r
    for n, e, want in cases:
        nm = 'replacement in a ' + n
        for p in vc.run(lambda ctx: v(ctx, ctx.call(re_eval, (e, {z: za}))),
                        contracts=Q, name=nm):
            if vc.returns(nm, p):
                vc.ob(nm + ': value', p.hyps, seq(p.value, want))
    for ty in (DF.EQUALS, DF.LESS_EQUALS, DF.GREATER_EQUALS):
        def build(ctx):
            c = SObj(CN.cvxpy_constr)
            c.attrs.update(left=es[0], type=ty, right=es[1])
            r = ctx.call(re_eval, (c, {z: za}))
            return [v(ctx, ctx.getattr(r, 'left')), ctx.getattr(r, 'type'),
                    v(ctx, ctx.getattr(r, 'right'))]
        nm = 'replacement in a constraint ' + ty
        for p in vc.run(build, contracts=Q, name=nm):
            if vc.returns(nm, p):
                vc.holds(nm + ': kind', p.value[1] == ty)
                vc.ob(nm + ': left', p.hyps, seq(p.value[0], val(es[0])))
                vc.ob(nm + ': right', p.hyps, seq(p.value[2], val(es[1])))
    S = SObj(CN.cvxpy_constr)
    S.attrs.update(type=DF.SET, valid_shape=P.BoundModel(
        lambda c, o, sh: True, None, 'valid_shape'))

    def build(ctx):
        c = SObj(CN.cvxpy_constr)
        d = {(0, 0): es[0], (0, 1): F(2), (1, 0): es[1], (1, 1): es[2]}
        c.attrs.update(left=Arrx(ctx, S22, d), type=DF.BELONGS, right=S)
        r = ctx.call(re_eval, (clist([c]), {z: za}))
        r = ctx.iterate(r)
        l = ctx.getattr(r[0], 'left').attrs['data']
        return (len(r), ctx.getattr(r[0], 'type'), ctx.getattr(r[0], 'right'),
                [v(ctx, l[i][j]) for i in (0, 1) for j in (0, 1)])
    nm = 'replacement in a list of memberships'
    for p in vc.run(build, contracts=Q, name=nm):
        if vc.returns(nm, p):
            vc.holds(nm + ': kind', p.value[:2] == (1, DF.BELONGS) and
                     p.value[2] is S)
            for x, y in zip(p.value[3], [val(es[0]), F(2), val(es[1]),
                                         val(es[2])]):
                vc.ob(nm + ': entries', p.hyps, seq(x, y))


@PROP.unit('partial minimisation and composition (Lean)')
def u_lean(vc):
    vc.lean('partial minimisation of a jointly convex program',
            'lemmas/C19.lean')


# -------------------------------------------------------------- at run time
def ext(f, lo, out):
    """f on [lo, inf), `out` elsewhere"""
    def g(*v):
        return f(*v) if v[-1] > lo or (v[-1] == lo and out[1]) else out[0]
    return g


def library(t):
    """scalar-valued functions of the library with their definitions"""
    inf = np.inf

    def quad(v):
        return np.sum(v[:-1]**2) / v[-1] if v[-1] > 0 else inf

    def gm(v):
        return np.prod(v)**(1. / len(v)) if np.all(v >= 0) else -inf

    def hub(u, M):
        a = abs(u)
        return a**2 if a <= M else 2 * M * a - M**2
    v1 = {
        'abs': (t.abs, abs), 'exp': (t.exp, np.exp),
        'square': (t.square, np.square),
        'sqrt': (t.sqrt, lambda u: np.sqrt(u) if u >= 0 else -inf),
        'log': (t.log, lambda u: np.log(u) if u > 0 else -inf),
        'huber': (t.huber, lambda u: hub(u, 1.)),
        'huber 2': (lambda x: t.huber(x, 2.), lambda u: hub(u, 2.)),
    }
    for p in (1, 2, 3, 1.5):
        v1['power_abs %s' % p] = (lambda x, p=p: t.power_abs(x, p),
                                  lambda u, p=p: abs(u)**p)
        v1['power_pos %s' % p] = (lambda x, p=p: t.power_pos(x, p),
                                  lambda u, p=p: max(u, 0)**p)
        v1['power_p %s' % p] = (lambda x, p=p: t.power_p(x, p),
                                lambda u, p=p: u**p if u >= 0 else inf)
    vn = {
        'max': (t.max, np.max), 'min': (t.min, np.min),
        'norm1': (t.norm1, lambda v: np.sum(np.abs(v))),
        'norm2': (t.norm2, lambda v: np.sqrt(np.sum(v**2))),
        'norm_inf': (t.norm_inf, lambda v: np.max(np.abs(v))),
        'log_sum_exp': (t.log_sum_exp, lambda v: np.log(np.sum(np.exp(v)))),
        'geo_mean': (t.geo_mean, gm),
        'quad_over_lin': (lambda x: t.quad_over_lin(x[:-1, :], x[2, 0]),
                          quad),
        'quad_form': (lambda x: t.quad_form(x, t.matrix(
            [[2, 1, 0], [1, 2, 0], [0, 0, 0]])),
            lambda v: 2 * v[0]**2 + 2 * v[0] * v[1] + 2 * v[1]**2),
    }
    return v1, vn


def rnd(r, t, lib, xs, depth):
    """a random expression with its meaning, a function of the variables"""
    v1, vn = lib
    if depth == 0 or r.random() < .1:
        k = r.randrange(4)
        if k < 2:
            i = r.randrange(len(xs))
            return xs[i], lambda x: x[i]
        c = r.choice([-2., -1., 0., .5, 3.])
        if k == 2:
            return c, lambda x: c
        a = r.choice([None, DF.NONNEGATIVE, DF.NONPOSITIVE])
        q = t.parameter(attribute=a)
        q.value = abs(c) if a == DF.NONNEGATIVE else -abs(c) if a else c
        c = q.value
        return q, lambda x: c
    sub = lambda: rnd(r, t, lib, xs, depth - 1)
    k = r.randrange(8)
    if k < 2:
        (e, f), (h, g) = sub(), sub()
        return (e + h, lambda x: f(x) + g(x)) if k else \
            (e - h, lambda x: f(x) - g(x))
    if k < 4:
        (e, f), (h, g) = sub(), sub()
        return e * h, lambda x: f(x) * g(x)
    if k < 6:
        n = r.choice(sorted(v1))
        e, f = sub()
        return v1[n][0](e), lambda x: v1[n][1](f(x))
    n = r.choice(sorted(vn))
    s = [sub() for i in range(3)]
    e = t.vstack([a for a, _ in s])
    return vn[n][0](e), lambda x: vn[n][1](np.array([f(x) for _, f in s]))


def numeric(e):
    return np.isscalar(e) or isinstance(e, (float, np.matrix))


@PROP.dyn('verdicts on random expressions against Jensen\'s inequality')
def d_jensen(d):
    import random
    from pydsm import cvxpy_tdr as t
    r = random.Random(int(d.rng.integers(2**31)))
    lib = library(t)
    # numbers are folded by solving a program: kept out of the random trees
    lib = ({k: (lambda x, f=f, g=g: g(x) if numeric(x) else f(x), g)
            for k, (f, g) in lib[0].items()},
           {k: (lambda x, f=f, g=g: float(g(np.asarray(x).ravel()))
                if numeric(x) else f(x), g)
            for k, (f, g) in lib[1].items()})
    xs = [t.variable() for i in range(3)]
    ok = {'is_convex': 0, 'is_concave': 0, 'is_affine': 0}
    while d.more():
        try:
            e, f = rnd(r, t, lib, xs, r.choice([1, 2, 3]))
        except (TypeError, OverflowError, ValueError):
            # a product of expressions, or a constant out of the domain
            continue
        if numeric(e):
            continue
        try:
            verdict = {k: bool(getattr(e, k)()) for k in FLAGS}
        except (OverflowError, ValueError):
            continue
        d.case(expression=str(e)[:200])
        s = r.choice([.3, 1., 3.])
        for i in range(8):
            x, y = [np.array([r.uniform(-s, s) for j in xs]) for q in 'xy']
            l = r.choice([.5, .1, r.random()])
            with np.errstate(all='ignore'):
                try:
                    a, b, c = f(x), f(y), f(l * x + (1 - l) * y)
                except (OverflowError, ValueError):
                    continue
                m = l * a + (1 - l) * b
                tol = 1e-7 * (1 + abs(a) + abs(b))
            if np.isnan(m) or np.isnan(c) or np.isnan(tol):
                continue
            d.cur.update(x=x, y=y, l=l, values=(a, b, c))
            if verdict['is_convex']:
                d.expect(not c > m + tol, 'declared convex, and is not')
            if verdict['is_concave']:
                d.expect(not c < m - tol, 'declared concave, and is not')
            if verdict['is_affine']:
                d.expect(abs(c - m) <= tol or c == m,
                         'declared affine, and is not')
            if verdict['is_nonnegative_constant']:
                d.expect(a == b == c >= 0, 'not a nonnegative constant')
            if verdict['is_nonpositive_constant']:
                d.expect(a == b == c <= 0, 'not a nonpositive constant')


@PROP.dyn('signs of parameters after any assignments')
def d_sign(d):
    from pydsm import cvxpy_tdr as t
    while d.more() and d.n < d.top(2000):
        r = d.rng
        scalar = r.random() < .7
        q = t.parameter() if scalar else t.parameter(2, 1)
        done = []
        for i in range(r.integers(1, 5)):
            if r.random() < .5:
                v = float(r.choice([0., 1., -1., .5, -.5, 1e-9, -1e-9, 3.]))
                done.append(v)
                try:
                    if scalar:
                        q.value = v
                    else:
                        q.value = t.matrix([[v], [abs(v)]])
                except ValueError:
                    pass
            elif scalar:
                a = [None, 'nonnegative', 'nonpositive'][r.integers(0, 3)]
                done.append(a)
                q.attribute = a
        d.case(assigned=done)
        for e in [q] if scalar else [q[0, 0], q[1, 0]]:
            v = e.value
            d.expect(not (e.is_nonnegative_constant() and v < 0),
                     'a negative parameter declared nonnegative', value=v)
            d.expect(not (e.is_nonpositive_constant() and v > 0),
                     'a positive parameter declared nonpositive', value=v)


@PROP.dyn('accepted constraints between feasible points')
def d_con(d):
    import random
    from pydsm import cvxpy_tdr as t
    r = random.Random(int(d.rng.integers(2**31)))
    lib = library(t)
    lib = ({k: lib[0][k] for k in ('abs', 'square', 'exp', 'log', 'sqrt')},
           {k: lib[1][k] for k in ('max', 'min', 'norm2', 'geo_mean')})
    lib = ({k: (lambda x, f=f, g=g: g(x) if numeric(x) else f(x), g)
            for k, (f, g) in lib[0].items()},
           {k: (lambda x, f=f, g=g: float(g(np.asarray(x).ravel()))
                if numeric(x) else f(x), g)
            for k, (f, g) in lib[1].items()})
    xs = [t.variable() for i in range(2)]
    while d.more():
        try:
            (e, f), (h, g) = [rnd(r, t, lib, xs, r.choice([0, 1, 2]))
                              for i in 'lr']
            ty = r.choice(['less_equals', 'greater_equals', 'equals'])
            c = getattr(t, ty)(e, h)
            ok = c.is_dcp()
            p = t.program(t.minimize(0), [c]).is_dcp()
        except (TypeError, OverflowError, ValueError):
            continue
        d.case(constraint=str(c)[:200])
        d.expect(not p or ok, 'program accepted with a rejected constraint')
        if not ok:
            continue

        def gap(x):
            with np.errstate(all='ignore'):
                v = f(x) - g(x)
            return v if ty == 'less_equals' else -v if \
                ty == 'greater_equals' else abs(v)
        try:
            pts = [np.array([r.choice([-1., 0., 1., r.uniform(-2, 2)])
                             for j in xs]) for i in range(12)]
            pts = [x for x in pts if gap(x) <= 1e-12]
            for x, y in zip(pts, pts[1:]):
                z = (x + y) / 2
                v = gap(z)
                d.cur.update(x=x, y=y)
                d.expect(np.isnan(v) or v <= 1e-7 * (1 + abs(f(z))) or
                         abs(f(z)) == np.inf,
                         'accepted constraint of a non convex set')
        except (OverflowError, ValueError):
            continue
