"""C20: functions, graph forms and solution of programs (cvxpy_tdr).

A function of the library is a program: the smallest (largest) objective over
internal variables subject to constraints.  The real function is run on an
arbitrary argument, and its program is taken from the node that it builds; the
obligations are that no feasible choice of the internal variables goes beyond
the mathematical definition (for all of them), and that one attains it (a
witness), where the sets of the library stand for their definitions.  Calls of
other functions stand for their definitions too, each proved in its turn.  The
expansion into simple constraints is verified by structural induction, with the
same two obligations (relaxed variables are on the right side of the value;
the exact values are feasible, and no constraint is lost).  What is handed to
the solver (objective, inequalities, cones) is compared entry by entry with the
constraints, and what it answers is followed up to the caller.  The solver
itself (CVXOPT) is not verified: complete solutions are only checked at run
time, against the definitions, scipy's linear programming, and random feasible
points; so are the functions that need spectra (bounded, not counted).
"""
import itertools
import sys
from .base import *
from .C18 import (E, Tok, FnItem, Mx, Arrx, node, tree, MXC, S22, S12, S21,
                  operand, grid)
from .C19 import X, C, clist, jensen, FLAGS, library, numeric, rnd, L, HYP
from pyvc import interp as P
from pyvc.interp import Hooked, SObj, SList, PyRaise
from pyvc.terms import isnum, isz
from pydsm import cvxpy_tdr as t
from pydsm.cvxpy_tdr import defs as DF, scalars as SC, arrays as AR, \
    constraints as CN, interface as IF, programs as PR

M_ = lambda n: sys.modules['pydsm.cvxpy_tdr.procedures.' + n]
expand = M_('expand').expand
CS = M_('call_solver')
SP = M_('solve_prog')

PROP = Prop('C20')
PROP.assume(
    'CVXOPT solves what it is given, up to its tolerances (external)',
    'exp and log are increasing and inverse of each other; powers are '
    'increasing on the nonnegative numbers (facts on real functions)',
    'expansion of a function node: a function declared convex or concave '
    'of its arguments moves the right way when they are relaxed (this is '
    'what each of its constraints being declared convex means)',
    'constant factors are not zero: such products are folded when built (C18)',
    'graph forms: scalar arguments, vectors of 2 or 3 entries, 2x2 matrices')

EXP = z3.Function('exp', R, R)
LOG = z3.Function('log', R, R)
POW = z3.Function('pow', R, R, R)


def zabs(a):
    a = T.lit(a)
    return z3.If(a >= 0, a, -a)


def zmax(*v):
    r = T.lit(v[0])
    for x in v[1:]:
        x = T.lit(x)
        r = z3.If(r >= x, r, x)
    return r


def zmin(*v):
    return -zmax(*[-T.lit(x) for x in v])


def hub1(z):
    a = zabs(z)
    return z3.If(a <= 1, T.lit(z) * T.lit(z), 2 * a - 1)


class Root:
    """a nonnegative square root, as a fresh number"""
    s = z3.Real('root')

    @staticmethod
    def of(e, hyps):
        s = Root.s
        hyps += [s >= 0, s * s == T.lit(e)]
        return s


def members(ctx, S, v):
    """the definition of the sets, on the entries of their elements"""
    n = ctx.getattr(S, 'name')
    x = lambda i, j=0: T.lit(v.d[i, j])
    k = v.shape[0]
    if n == 'second_order_cone':
        return z3.And(x(k - 1) >= 0, z3.Sum(
            [x(i) * x(i) for i in range(k - 1)]) <= x(k - 1) * x(k - 1))
    if n == 'semidefinite_cone':
        sym = [x(i, j) == x(j, i) for i in range(k) for j in range(i)]
        mi = []
        for m in range(1, k + 1):
            for I in itertools.combinations(range(k), m):
                mi.append(det([[x(i, j) for j in I] for i in I]) >= 0)
        return z3.And(sym + mi)
    if n == 'exp_cone':
        if v.d[1, 0] != 1:
            raise Unsupported('perspective of exp')
        return EXP(x(0)) <= x(2)
    if n == 'power_pos_epi':
        return z3.And(x(0) >= 0, POW(x(0), T.lit(ctx.getattr(S, 'p'))) <=
                      x(1))
    if n == 'geo_mean_cone' and k == 3:
        return z3.And(x(0) >= 0, x(1) >= 0, z3.Or(
            x(2) <= 0, x(2) * x(2) <= x(0) * x(1)))
    raise Unsupported('set ' + n)


def det(m):
    if len(m) == 1:
        return m[0][0]
    return z3.Sum([(-1)**j * m[0][j] * det([r[:j] + r[j + 1:]
                                            for r in m[1:]])
                   for j in range(len(m))])


a_, b_ = z3.Reals('a_ b_')
AX = [z3.ForAll([a_, b_], z3.Implies(a_ <= b_, EXP(a_) <= EXP(b_)),
                patterns=[z3.MultiPattern(EXP(a_), EXP(b_))]),
      z3.ForAll([a_, b_], z3.Implies(b_ > 0, (EXP(a_) <= b_) ==
                                     (a_ <= LOG(b_))),
                patterns=[z3.MultiPattern(EXP(a_), LOG(b_))]),
      ]
p_ = z3.Real('p_')
AXP = [z3.ForAll([a_, b_, p_], z3.Implies(
    z3.And(0 <= a_, a_ <= b_, p_ >= 1), POW(a_, p_) <= POW(b_, p_)),
    patterns=[z3.MultiPattern(POW(a_, p_), POW(b_, p_))])]


def col(z, m, n):
    return [[z[i * n + j] for j in range(n)] for i in range(m)]


def make_defs(shape):
    m, n = shape
    return {
        'abs': lambda z: zabs(z[0]),
        'square': lambda z: T.lit(z[0]) * T.lit(z[0]),
        'huber': lambda z: hub1(z[0]),
        'max': lambda z: zmax(*z), 'min': lambda z: zmin(*z),
        'norm1': lambda z: zmax(*[z3.Sum([zabs(r[j]) for r in col(z, m, n)])
                                  for j in range(n)]),
        'norm_inf': lambda z: zmax(*[z3.Sum([zabs(x) for x in r])
                                     for r in col(z, m, n)]),
        'exp': lambda z: EXP(T.lit(z[0])), 'log': lambda z: LOG(T.lit(z[0])),
    }


def flat(ctx, cs):
    for c in ctx.iterate(cs):
        if isinstance(c, SList) or isinstance(c, (list, tuple)):
            yield from flat(ctx, c)
        else:
            yield c


REL = {DF.EQUALS: seq, DF.LESS_EQUALS: sle,
       DF.GREATER_EQUALS: lambda a, b: sle(b, a)}


def holds(ctx, c):
    l, ty, r = (ctx.getattr(c, k) for k in ('left', 'type', 'right'))
    if ty == DF.BELONGS:
        return members(ctx, r, ctx.getattr(l, 'value'))
    return REL[ty](ctx.getattr(l, 'value'), ctx.getattr(r, 'value'))


def contracts(shape):
    Q = dict(MXC)
    D = make_defs(shape)

    def call(ctx, prog, *args):
        if len(args) == 1 and type(args[0]) in (list, SList) and all(
                not isinstance(x, (SObj, E)) for x in ctx.iterate(args[0])):
            n = ctx.getattr(prog, 'name')
            if n not in D:
                raise Unsupported('value of ' + n)
            return D[n](ctx.iterate(args[0]))
        return ctx.call_node(ctx.wrap_real(PR.cvxpy_program.__call__),
                             (prog,) + args, {})
    Q[id(PR.cvxpy_program.__call__)] = call
    return Q


def find(e):
    """the function node of the result, inside a scaling"""
    if isinstance(e, SObj) and e.cls is SC.cvxpy_tree:
        it = e.attrs['item']
        if isinstance(it, SObj) and it.cls is PR.cvxpy_program:
            return e
        for c in e.attrs['children']:
            r = find(c)
            if r is not None:
                return r
    return None


def check_graph(vc, name, fn, args, shape, dfn, wits, hyps=(), dom=None,
                result=None, sel=None):
    """dfn(z): the definition (of the program at the formals z); wits(z):
    candidate values of the internal variables; dom(z): the domain."""
    Q = contracts(shape)

    def build(ctx):
        r = ctx.call(fn, args())
        if sel is not None:
            r = ctx.getitem(r, sel)
        nd = find(r)
        if nd is None:
            return None
        pr = nd.attrs['item']
        fm = ctx.call(ctx.getattr(pr, '_get_expanded_objects'),
                      (ctx.getattr(pr, 'formals'),))
        fm = ctx.iterate(fm)
        z = [vc.real('z%d' % i) for i in range(len(fm))]
        aux = [x for x in ctx.iterate(ctx.getattr(pr, 'variables'))
               if not any(x is f for f in fm)]
        for f, v in zip(fm, z):
            f.attrs['value'] = v

        def at(vals):
            for x, v in zip(aux, vals):
                x.attrs['value'] = v
            return ([holds(ctx, c) for c in flat(ctx, ctx.getattr(
                pr, 'constraints'))],
                ctx.getattr(ctx.getattr(pr, 'objective'), 'value'))
        gen = at([z3.Real('aux%d' % i) for i in range(len(aux))])
        ws = [at(w) for w in itertools.product(wits(z), repeat=len(aux))]
        kids = nd.attrs['children']
        av = [ctx.getattr(k, 'value') for k in kids]
        whole = None
        if result is not None:
            whole = ctx.getattr(r, 'value')
        return pr.attrs['action'], z, gen, ws, av, whole
    for p in vc.run(build, hyps=list(hyps), contracts=Q, name=name):
        if not vc.returns(name, p):
            continue
        if p.value is None:
            vc.holds(name + ': a function node', False)
            continue
        act, z, (cs, obj), ws, av, whole = p.value
        H = p.hyps + AX
        hy = []
        f = dfn(z, hy)
        # the domain of the definition
        d = dom(z) if dom else []
        beyond = sle(f, obj) if act == DF.MINIMIZE else sle(obj, f)
        vc.ob(name + ': no feasible point goes beyond the definition',
              H + hy + [T.tobool(c) for c in cs], beyond)
        if dom:
            vc.ob(name + ': nothing is feasible out of the domain',
                  H + [T.tobool(c) for c in cs], z3.And(d))
        done = False
        for wc, wo in ws:
            g = z3.And([T.lit(c) if not isinstance(c, bool) else
                        z3.BoolVal(c) for c in wc] + [T.lit(seq(wo, f))])
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*(H + hy + d))
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                vc.ob(name + ': the definition is attained', H + hy + d, g)
                done = True
                break
        if not done:
            vc.holds(name + ': the definition is attained', False,
                     'no witness among %d' % len(ws))
        if result is not None:
            vc.ob(name + ': value of the expression', H,
                  seq(whole, result()))


def zx(vc):
    return vc.real('x0')


@PROP.unit('graph forms of scalar functions')
def u_scalar(vc):
    x = vc.real('x0')
    one = lambda: (E('e', x, [Tok('v')]),)
    cand = lambda z: [z[0], zabs(z[0]), F(0)]
    s11 = (1, 1)
    check_graph(vc, 'abs', t.abs, one, s11, lambda z, h: zabs(z[0]), cand,
                result=lambda: zabs(x))
    check_graph(vc, 'square', t.square, one, s11,
                lambda z, h: T.lit(z[0]) * T.lit(z[0]),
                lambda z: [z[0], T.lit(z[0]) * T.lit(z[0])],
                result=lambda: x * x)
    check_graph(vc, 'power_abs 1', t.power_abs, lambda: one() + (F(1),), s11,
                lambda z, h: zabs(z[0]), cand)
    check_graph(vc, 'power_pos 1', t.power_pos, lambda: one() + (F(1),), s11,
                lambda z, h: zmax(z[0], 0), lambda z: [z[0], zmax(z[0], 0)])
    check_graph(vc, 'power_p 1', t.power_p, lambda: one() + (F(1),), s11,
                lambda z, h: T.lit(z[0]), cand, dom=lambda z: [z[0] >= 0])
    check_graph(vc, 'huber', t.huber, one, s11, lambda z, h: hub1(z[0]),
                lambda z: [zmin(zabs(z[0]), 1), zmax(zabs(z[0]) - 1, 0)],
                result=lambda: hub1(x))
    M = vc.real('M')
    check_graph(vc, 'huber M', t.huber, lambda: one() + (M,), s11,
                lambda z, h: hub1(z[0]),
                lambda z: [zmin(zabs(z[0]), 1), zmax(zabs(z[0]) - 1, 0)],
                hyps=[M > 0],
                result=lambda: z3.If(zabs(x) <= M, x * x,
                                     2 * M * zabs(x) - M * M))
    check_graph(vc, 'exp', t.exp, one, s11, lambda z, h: EXP(z[0]),
                lambda z: [z[0], EXP(z[0])], result=lambda: EXP(x))
    check_graph(vc, 'log', t.log, one, s11, lambda z, h: LOG(z[0]),
                lambda z: [z[0], LOG(z[0])], hyps=[EXP(x) > 0] + [
                    z3.ForAll([a_], EXP(a_) > 0, patterns=[EXP(a_)])],
                dom=lambda z: [z[0] > 0])
    check_graph(vc, 'sqrt', t.sqrt, one, s11,
                lambda z, h: Root.of(zmax(z[0], 0), h),
                lambda z: [z[0], Root.s],
                dom=lambda z: [z[0] >= 0])


@PROP.unit('graph forms of powers')
def u_pow(vc):
    x = vc.real('x0')
    p = vc.real('p')
    arg = lambda: (E('e', x, [Tok('v')]), p)
    s11 = (1, 1)
    PA = AXP
    for nm, fn, base, dom in (
            ('power_abs', t.power_abs, lambda z: zabs(z[0]), None),
            ('power_pos', t.power_pos, lambda z: zmax(z[0], 0), None),
            ('power_p', t.power_p, lambda z: T.lit(z[0]),
             lambda z: [z[0] >= 0])):
        check_graph(vc, nm, fn, arg, s11, lambda z, h: POW(base(z), p),
                    lambda z: [base(z), POW(base(z), p)],
                    hyps=[p > 1] + PA, dom=dom)


@PROP.unit('graph forms of vector functions')
def u_vec(vc):
    def vec(sh):
        return lambda: (Arrx(None, sh, grid(sh, lambda i, j: E(
            'e%d%d' % (i, j), vc.real('x%d%d' % (i, j)),
            [Tok('v%d%d' % (i, j))]))),)
    for sh in ((3, 1), S22):
        D = make_defs(sh)
        for nm, fn in (('max', t.max), ('min', t.min)):
            check_graph(vc, '%s %s' % (nm, sh), fn, vec(sh), sh,
                        lambda z, h: D[nm](z), lambda z: [D[nm](z)])
    for sh in ((3, 1), S12, S22):
        D = make_defs(sh)
        for nm, fn in (('norm1', t.norm1), ('norm_inf', t.norm_inf)):
            check_graph(vc, '%s %s' % (nm, sh), fn, vec(sh), sh,
                        lambda z, h: D[nm](z), lambda z: [D[nm](z)])
    for sh in (S21, S12):
        check_graph(vc, 'norm2 %s' % (sh,), t.norm2, vec(sh), sh,
                    lambda z, h: Root.of(z[0] * z[0] + z[1] * z[1], h),
                    lambda z: [Root.s])
    check_graph(vc, 'geo_mean', t.geo_mean, vec(S21), S21,
                lambda z, h: Root.of(zmax(z[0], 0) * zmax(z[1], 0), h),
                lambda z: [z[0], z[1], Root.s],
                dom=lambda z: [z[0] >= 0, z[1] >= 0])
    for n in (1, 2):
        sh = (n, 1)
        a = (lambda: (E('e', vc.real('x0'), [Tok('v')]),)) if n == 1 else \
            vec(sh)

        def qol(z, h):
            # the quotient, where the divisor is positive
            q = z3.Real('quot')
            h += [z3.Implies(z[n] > 0, q * z[n] == z3.Sum(
                [x * x for x in z[:n]])), z[n] > 0]
            return q
        check_graph(vc, 'quad_over_lin %d' % n, t.quad_over_lin, lambda: a()
                    + (E('y', vc.real('y'), [Tok('vy')]),), sh, qol,
                    lambda z: [z3.Real('quot'), z[n]])


# ---------------------------------------------------------------- expansion
class Xp(X):
    """an arbitrary accepted expression and its expansion: the relaxed
    variable, on the right side of the value when its constraints hold"""
    def __init__(self, vc, name, const=False):
        X.__init__(self, vc, name, const)
        self.var = node(SC.cvxpy_scalar_var, type=DF.VARIABLE,
                        value=vc.real('u_' + name), name='u_' + name)
        self.con = C('c_' + name)
        u, v = T.lit(self.var.attrs['value']), T.lit(self.vals[0])
        f = self.flags
        self.ok = z3.Bool('feasible_' + name)
        self.hyps = [z3.Or(f['is_convex'], f['is_concave']),
                     z3.Implies(f['is_affine'], z3.And(f['is_convex'],
                                                       f['is_concave'])),
                     z3.Implies(f['is_convex'], u >= v),
                     z3.Implies(f['is_concave'], u <= v),
                     z3.Implies(f['is_nonnegative_constant'], v >= 0),
                     z3.Implies(f['is_nonpositive_constant'], v <= 0)]


def expc():
    Q = dict(MXC)

    def rec(ctx, e):
        if isinstance(e, Xp):
            return e.var, [e.con]
        return ctx.call_node(ctx.wrap_real(expand), (e,), {})
    Q[id(expand)] = rec
    return Q


def with_values(xs, vals):
    for x, v in zip(xs, vals):
        x.attrs['value'] = v


def check_expand(vc, name, mk, kids, verdicts, extra=(), exact_only=False,
                 Q=None):
    """the node expands into a variable on the right side of its value"""
    Q = Q or expc()
    for flag in verdicts:
        def build(ctx):
            e = mk()
            yes = ctx.branch(ctx.call(ctx.getattr(e, flag), ()))
            if not yes:
                return None
            val = ctx.getattr(e, 'value')
            v, cs = ctx.call(expand, (e,))
            cs = ctx.iterate(cs)
            mine = [c for c in cs if not isinstance(c, C)]
            kept = [c for c in cs if isinstance(c, C)]
            v.attrs['value'] = vc.real('v')
            gen = [holds(ctx, c) for c in mine]
            # exact values everywhere
            v.attrs['value'] = val
            for k in kids:
                k.var.attrs['value'] = k.vals[0]
            ex = [holds(ctx, c) for c in mine]
            for k in kids:
                k.var.attrs['value'] = vc.real('u_' + k.name)
            return val, gen, ex, kept, v.cls, len(mine)
        hyps = [h for k in kids for h in k.hyps] + list(extra)
        nm = '%s, %s' % (name, flag)
        for p in vc.run(build, hyps=hyps, contracts=Q, name=nm):
            if not vc.returns(nm, p) or p.value is None:
                continue
            val, gen, ex, kept, cls, n = p.value
            vc.holds(nm + ': a new variable', cls is SC.cvxpy_scalar_var)
            vc.holds(nm + ': no constraint is lost',
                     all(any(c is k.con for c in kept) for k in kids
                         if not getattr(k, 'asis', False)))
            v = vc.real('v')
            g = [T.tobool(c) for c in gen]
            if flag in ('is_convex', 'is_affine'):
                vc.ob(nm + ': the variable is not below the value',
                      p.hyps + g, sle(val, v))
            if flag in ('is_concave', 'is_affine'):
                vc.ob(nm + ': the variable is not above the value',
                      p.hyps + g, sle(v, val))
            for c in ex:
                vc.ob(nm + ': the exact values are feasible', p.hyps, c)


@PROP.unit('expansion of expressions')
def u_expand(vc):
    V = ('is_convex', 'is_concave', 'is_affine')
    for n in (1, 2, 3):
        ks = [Xp(vc, 'e%d' % i) for i in range(n)]
        check_expand(vc, 'sum of %d' % n, lambda: tree('+', list(ks)), ks, V)
    k = vc.real('k')
    kc = lambda: node(SC.cvxpy_obj, type=DF.CONSTANT, value=k, name='k')
    e, f = Xp(vc, 'e'), Xp(vc, 'f')
    check_expand(vc, 'product', lambda: tree('*', [kc(), e]), [e], V)
    check_expand(vc, 'sum with a product', lambda: tree(
        '+', [tree('*', [kc(), e]), f]), [e, f], V, [k != 0])
    check_expand(vc, 'sum with a constant', lambda: tree('+', [kc(), f]),
                 [f], V)

    # a function: it moves the right way when its arguments are relaxed
    FN = FnItem.FN
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        us = [T.lit(vc.real('u_' + x.name)) for x in (e, f)]
        vs = [T.lit(x.vals[0]) for x in (e, f)]
        it = FnItem(action, True)
        a, b = (FN(*vs), FN(*us))
        check_expand(vc, 'function to ' + action, lambda: tree(it, [e, f]),
                     [e, f], ['is_convex' if action == DF.MINIMIZE else
                              'is_concave'],
                     [a <= b if action == DF.MINIMIZE else b <= a])

    # variables and constants stand for themselves; lists, constraints, arrays
    Q = expc()
    x = node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=vc.real('x'),
             name='x')
    for nm, a in (('variable', x), ('constant', kc())):
        for p in vc.run(lambda ctx: ctx.call(expand, (a,)), contracts=Q,
                        name=nm):
            if vc.returns(nm, p):
                vc.holds(nm + ': stands for itself', p.value[0] is a and
                         len(p.value[1]) == 0)

    def con(l, ty, r):
        c = SObj(CN.cvxpy_constr)
        c.attrs.update(left=l, type=ty, right=r)
        return c
    S = SObj(CN.cvxpy_constr)
    S.attrs.update(type=DF.SET)
    for ty in (DF.EQUALS, DF.LESS_EQUALS, DF.GREATER_EQUALS):
        c1 = con(e, ty, f)
        d = {(0, 0): e, (0, 1): F(2), (1, 0): x, (1, 1): f}
        c2 = con(Arrx(None, S22, d), DF.BELONGS, S)

        def build(ctx):
            r = ctx.iterate(ctx.call(expand, (clist([c1, c2]),)))
            one = [c for c in r if isinstance(c, SObj) and
                   c.attrs['type'] == ty]
            two = [c for c in r if isinstance(c, SObj) and
                   c.attrs['type'] == DF.BELONGS]
            dat = two[0].attrs['left'].attrs['data'] if two else {}
            two_ok = len(two) == 1 and two[0].attrs['right'] is S and \
                dat[0][0] is e.var and dat[1][0] is x and \
                dat[1][1] is f.var
            return (len(one) == 1 and one[0].attrs['left'] is e.var and
                    one[0].attrs['right'] is f.var, two_ok,
                    ctx.getattr(dat[0][1], 'value') if two_ok else None,
                    [sum(c is k.con for c in r) for k in (e, f)])
        nm = 'list with %s and a membership' % ty
        for p in vc.run(build, contracts=Q, name=nm):
            if vc.returns(nm, p):
                ok1, ok2, two, kept = p.value
                vc.holds(nm + ': the constraint', ok1)
                vc.holds(nm + ': the membership', ok2 and two == 2)
                vc.holds(nm + ': nothing lost', kept == [2, 2])


# ---------------------------------------------------- from program to answer
@PROP.unit('solution of programs, up to the solver')
def u_solve(vc):
    """solve: what is accepted, what is solved, what is answered"""
    val = vc.real('opt')
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        for st in (DF.OPTIMAL, DF.UNKNOWN, DF.PRIMAL_INFEASIBLE,
                   DF.DUAL_INFEASIBLE):
            for const in (False, True):
                Q = dict(MXC)
                seen = []
                xo = node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=F(0),
                          name='o')
                k = node(SC.cvxpy_obj, type=DF.CONSTANT, value=vc.real('k'),
                         name='k')

                def solver(ctx, p, quiet):
                    seen.append((ctx.getattr(p, 'action'),
                                 ctx.getattr(p, 'objective')))
                    return {'status': st, DF.PRIMAL_OBJECTIVE: val}
                Q[id(CS.call_solver)] = solver
                Q[id(expand)] = lambda ctx, e: \
                    (k if const else xo, [C('oc')]) \
                    if isinstance(e, (E, SObj)) else [C('cc')]

                def build(ctx):
                    q = ctx.call(IF.program, ((action, X(vc, 'o')), [
                        C('c')]))
                    return ctx.call(SP.solve_prog, (q, True))
                nm = '%s, %s%s' % (action, st, ', constant' if const else '')
                for p in vc.run(build, contracts=Q, name=nm):
                    if not vc.returns(nm, p):
                        continue
                    obj, valid = p.value
                    sg = 1 if action == DF.MINIMIZE else -1
                    vc.holds(nm + ': validity', bool(valid) ==
                             (st != DF.UNKNOWN))
                    vc.holds(nm + ': what is solved', len(seen) >= 1 and
                             seen[-1][0] == action and
                             seen[-1][1] is (k if const else xo))
                    if st == DF.PRIMAL_INFEASIBLE:
                        vc.holds(nm + ': infeasible', isinf(obj, sg),
                                 str(obj))
                    elif st == DF.DUAL_INFEASIBLE:
                        vc.holds(nm + ': unbounded', isinf(obj, -sg),
                                 str(obj))
                    elif st == DF.OPTIMAL:
                        vc.ob(nm + ': optimal value', p.hyps, seq(
                            obj, k.attrs['value'] if const else
                            smul(F(sg), val)))


def isinf(v, sg):
    try:
        return float(v) == sg * float('inf')
    except Exception:
        return str(v).replace('+', '') == ('inf' if sg > 0 else '-inf')


@PROP.unit('acceptance and parameters')
def u_accept(vc):
    """only accepted programs with known parameters are solved, with the
    values of the parameters for the parameters"""
    import math
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        o = X(vc, 'o')
        cs = [C('c0'), C('c1')]
        q = node(SC.cvxpy_scalar_param, type=DF.PARAMETER, attribute=None,
                 value=vc.real('q'), name='q')
        ql = SList([q])
        ql.cls = CN.cvxpy_list
        q.attrs['parameters'] = ql
        o.ps = (q,)
        o2, c2 = X(vc, "o'"), [C("c0'"), C("c1'")]
        seen = []

        def sub(ctx, e, m):
            ok = isinstance(m, dict) and len(m) == 1 and \
                list(m)[0] is q and m[q] is q.attrs['value']
            if not ok:
                raise Unsupported('another replacement')
            return o2 if e is o else clist(c2)

        def solver(ctx, p, quiet):
            seen.append((ctx.getattr(p, 'action'),
                         ctx.getattr(p, 'objective') is o2,
                         [x is y for x, y in zip(ctx.iterate(ctx.getattr(
                             p, 'constraints')), c2)] == [True, True]))
            return vc.real('opt'), True
        Q = dict(MXC)
        Q[id(sys.modules['pydsm.cvxpy_tdr.procedures.re_eval'].re_eval)] = sub
        Q[id(SP.solve_prog)] = solver
        Q[id(np.isnan)] = lambda ctx, x: ctx.branch(z3.Bool('unset'))

        def build(ctx):
            del seen[:]
            pr = ctx.call(IF.program, ((action, o), cs))
            try:
                r = ctx.call(ctx.getattr(pr, 'solve'), (), {'quiet': True})
            except PyRaise as e:
                return e, list(seen)
            return r, list(seen)
        for p in vc.run(build, contracts=Q, name=action):
            if not vc.returns(action, p):
                continue
            r, sn = p.value
            good = z3.And(o.flags['is_convex' if action == DF.MINIMIZE else
                                  'is_concave'],
                          *[c.flags['is_dcp'] for c in cs])
            unset = z3.Bool('unset')
            if isinstance(r, PyRaise):
                vc.holds(action + ': ValueError', issubclass(r.cls,
                                                             ValueError))
                vc.ob(action + ': rejected only if not acceptable', p.hyps,
                      z3.Or(z3.Not(good), unset))
                vc.holds(action + ': nothing is solved', not sn)
            else:
                vc.ob(action + ': solved only if acceptable', p.hyps,
                      z3.And(good, z3.Not(unset)))
                vc.holds(action + ': the program with the values of its '
                         'parameters is solved', sn == [(action, True, True)],
                         str(sn))
                vc.ob(action + ': answer', p.hyps, seq(r, vc.real('opt')))


# ------------------------------------------------------ input of the solver
class Om(Hooked):
    """a matrix of the solver (CVXOPT), entry by entry"""
    def __init__(self, shape, d=None):
        self.shape, self.d = tuple(shape), dict(d or {})

    def at(self, i, j=0):
        return self.d.get((i, j), F(0))

    def key(self, ctx, k):
        if not isinstance(k, tuple):
            k = (k, 0)
        if not all(isinstance(i, int) and 0 <= i < m
                   for i, m in zip(k, self.shape)):
            raise PyRaise(IndexError, (str(k),))
        return k

    def h_getitem(self, ctx, k):
        return self.at(*self.key(ctx, k))

    def h_setitem(self, ctx, k, v):
        self.d[self.key(ctx, k)] = v

    def h_getattr(self, ctx, n):
        if n == 'size':
            return self.shape
        raise Unsupported('attribute %s of a CVXOPT matrix' % n)


def o_matrix(ctx, x=F(0), size=None, tc=None):
    if isinstance(x, Om):
        return Om(x.shape, x.d)
    if isnum(x) or isz(x):
        return Om(size, {(i, j): x for i in range(size[0])
                         for j in range(size[1])})
    return o_stack(ctx, x)


def o_sparse(ctx, x=F(0), I=(), J=(), size=None, tc=None):
    if ctx.iterate(I) or ctx.iterate(J):
        raise Unsupported('entries of a sparse matrix')
    return Om(size)


def o_stack(ctx, x):
    ms = ctx.iterate(x)
    d, k = {}, 0
    for m in ms:
        if not isinstance(m, Om) or m.shape[1] != ms[0].shape[1]:
            raise Unsupported('stack of matrices')
        for (i, j), v in m.d.items():
            d[i + k, j] = v
        k += m.shape[0]
    return Om((k, ms[0].shape[1]), d)


def o_contracts():
    import cvxopt as opt
    Q = dict(MXC)
    Q[id(opt.matrix)] = o_matrix
    Q[id(opt.spmatrix)] = o_sparse
    Q[id(opt.sparse)] = o_stack
    return Q


@PROP.unit('objective, inequalities and cones given to the solver')
def u_Gh(vc):
    """G x + s = h, s in the cones, exactly when the constraints hold"""
    n = 3
    names = 'abc'
    xs = [node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=vc.real(s),
               name=s) for s in names]
    for x in xs:
        l = SList([x])
        l.cls = CN.cvxpy_list
        x.attrs['variables'] = l
    mp = {x: i for i, x in enumerate(xs)}
    k = [node(SC.cvxpy_obj, type=DF.CONSTANT, value=vc.real('k%d' % i),
              name='k') for i in range(2)]
    Q = o_contracts()
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        for o in (xs[1], k[0]):
            nm = 'objective %s %s' % (action, o.attrs['type'])
            for p in vc.run(lambda ctx: ctx.call(CS.construct_c, (
                    o, mp, n, action)), contracts=Q, name=nm):
                if vc.returns(nm, p):
                    sg = F(1 if action == DF.MINIMIZE else -1)
                    for i in range(n):
                        vc.ob('%s: c[%d]' % (nm, i), p.hyps, seq(
                            p.value.at(i), sg if o is xs[i] else F(0)))
    import pydsm.cvxpy_tdr.sets  # noqa: F401

    def con(l, ty, r):
        c = SObj(CN.cvxpy_constr)
        c.attrs.update(left=l, type=ty, right=r)
        return c
    v = lambda e: e.attrs['value'] if isinstance(e, SObj) else e
    soc = Arrx(None, (3, 1), {(0, 0): xs[0], (1, 0): F(2), (2, 0): xs[2]})
    soc2 = Arrx(None, (2, 1), {(0, 0): k[1], (1, 0): k[0]})
    sdc = Arrx(None, S22, {(0, 0): xs[0], (0, 1): xs[1], (1, 0): xs[1],
                           (1, 1): F(1)})
    sdc2 = Arrx(None, S22, {(0, 0): k[0], (0, 1): F(3), (1, 0): F(3),
                            (1, 1): xs[2]})
    lin = [con(xs[0], DF.LESS_EQUALS, xs[1]),
           con(xs[2], DF.GREATER_EQUALS, xs[1]),
           con(xs[0], DF.LESS_EQUALS, k[0]),
           con(k[1], DF.LESS_EQUALS, xs[2]),
           con(xs[1], DF.GREATER_EQUALS, k[1]),
           con(k[0], DF.GREATER_EQUALS, xs[0]),
           con(k[0], DF.LESS_EQUALS, k[1]),
           con(xs[0], DF.LESS_EQUALS, xs[0])]
    cones = [con(sdc, DF.BELONGS, t.semidefinite_cone),
             con(soc, DF.BELONGS, t.second_order_cone)]
    more = [con(soc2, DF.BELONGS, t.second_order_cone),
            con(sdc2, DF.BELONGS, t.semidefinite_cone)]
    for nm, cs in [('inequality %d' % i, [c]) for i, c in enumerate(lin)] + [
            ('inequalities', lin), ('cones', cones),
            ('all', lin[:1] + cones + lin[3:5] + more)]:
        for p in vc.run(lambda ctx: ctx.call(CS.construct_Gh, (
                clist(cs), mp, n)), contracts=Q, name=nm):
            if not vc.returns(nm, p):
                continue
            G, h, dl, dq, ds = p.value
            ls = [c for c in cs if c.attrs['type'] != DF.BELONGS]
            qs = [c for c in cs if c.attrs['right'] is t.second_order_cone]
            ss = [c for c in cs if c.attrs['right'] is t.semidefinite_cone]
            rows = []
            for c in ls:
                l, r = v(c.attrs['left']), v(c.attrs['right'])
                rows.append(ssub(r, l) if c.attrs['type'] == DF.LESS_EQUALS
                            else ssub(l, r))
            dq_, ds_ = [], []
            for c in qs:
                d = c.attrs['left'].attrs['data']
                m = c.attrs['left'].attrs['shape'][0]
                dq_.append(m)
                rows += [v(d[m - 1][0])] + [v(d[i][0]) for i in range(m - 1)]
            for c in ss:
                d = c.attrs['left'].attrs['data']
                m = c.attrs['left'].attrs['shape'][0]
                ds_.append(m)
                rows += [v(d[i][j]) for j in range(m) for i in range(m)]
            vc.holds(nm + ': dimensions', dl == len(ls) and
                     list(ctx_list(dq)) == dq_ and list(ctx_list(ds)) == ds_
                     and G.shape == (len(rows), n) and
                     h.shape == (len(rows), 1), '%s %s %s %s' % (
                         dl, dq, ds, G.shape))
            if G.shape != (len(rows), n):
                continue
            for i, want in enumerate(rows):
                s = h.at(i)
                for j in range(n):
                    s = ssub(s, smul(G.at(i, j), xs[j].attrs['value']))
                vc.ob('%s: slack %d' % (nm, i), p.hyps, seq(s, want))


def ctx_list(x):
    return list(x)


@PROP.unit('calls of functions and their graph form in a program')
def u_call(vc):
    """a call with numbers solves the program at those numbers; with
    expressions it builds the node; the node expands into its program"""
    REV = sys.modules['pydsm.cvxpy_tdr.procedures.re_eval'].re_eval
    for action in (DF.MINIMIZE, DF.MAXIMIZE):
        o, o2 = X(vc, 'o'), X(vc, "o'")
        cs, c2 = [C('c0'), C('c1')], [C("c0'"), C("c1'")]
        fm = [node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=F(0),
                   name='z%d' % i) for i in range(3)]
        maps, solved = [], []

        def sub(ctx, e, m):
            maps.append(dict(m))
            return o2 if e is o else clist(c2)

        def solve(ctx, p, quiet=False, return_status=False):
            solved.append((ctx.getattr(p, 'action') == action and
                           ctx.getattr(p, 'objective') is o2 and
                           [x is y for x, y in zip(ctx.iterate(ctx.getattr(
                               p, 'constraints')), c2)] == [True, True]))
            ok = ctx.branch(z3.Bool('valid'))
            return (vc.real('opt'), ok) if return_status else vc.real('opt')
        Q = dict(MXC)
        Q[id(REV)] = sub
        Q[id(PR.cvxpy_program.solve)] = solve
        Q[id(np.isnan)] = lambda ctx, x: False
        num = [vc.real('n%d' % i) for i in range(3)]
        e = [X(vc, 'a%d' % i) for i in range(3)]

        def prog(ctx):
            del maps[:], solved[:]
            ar = Arrx(ctx, (2, 1), {(0, 0): fm[1], (1, 0): fm[2]})
            ar.cls = AR.cvxpy_var
            return ctx.call(IF.program, ((action, o), cs, [fm[0], ar]))
        col2 = lambda a, b: Mx(S21, {(0, 0): a, (1, 0): b})
        for nm, args in (('numbers', (num[0], col2(num[1], num[2]))),
                         ('a list of numbers', (list(num),))):
            def build(ctx):
                pr = prog(ctx)
                try:
                    r = ctx.call(pr, args)
                except PyRaise as x:
                    r = x
                return r, list(maps), list(solved)
            nm = '%s of %s' % (action, nm)
            for p in vc.run(build, contracts=Q, name=nm):
                if not vc.returns(nm, p):
                    continue
                r, ms, sv = p.value
                vc.holds(nm + ': the program is solved', sv == [True])
                for m in ms:
                    vc.holds(nm + ': all formals are replaced',
                             set(map(id, m)) == set(map(id, fm)))
                    for f, n in zip(fm, num):
                        x = m.get(f)
                        vc.ob(nm + ': by the arguments', p.hyps, seq(
                            x.attrs['value'] if isinstance(x, SObj) else x,
                            n))
                if isinstance(r, PyRaise):
                    vc.holds(nm + ': ValueError', issubclass(r.cls,
                                                             ValueError))
                    vc.ob(nm + ': raised only if not solved', p.hyps,
                          z3.Not(z3.Bool('valid')))
                else:
                    vc.ob(nm + ': answered only if solved', p.hyps,
                          z3.Bool('valid'))
                    vc.ob(nm + ': the optimal value', p.hyps,
                          seq(r, vc.real('opt')))
        for nm, args in (('expressions', lambda ctx: (e[0], Arrx(
                ctx, S21, {(0, 0): e[1], (1, 0): e[2]}))),
                ('a list of expressions', lambda ctx: (list(e),))):
            def build(ctx):
                pr = prog(ctx)
                r = ctx.call(pr, args(ctx))
                return (r.cls, r.attrs['item'] is pr,
                        [x is y for x, y in zip(ctx.iterate(
                            r.attrs['children']), e)],
                        len(ctx.iterate(r.attrs['children'])), list(solved))
            nm = '%s of %s' % (action, nm)
            for p in vc.run(build, contracts=Q, name=nm):
                if vc.returns(nm, p):
                    vc.holds(nm + ': the node of the function on the '
                             'arguments', p.value == (
                                 SC.cvxpy_tree, True, [True] * 3, 3, []),
                             str(p.value))
        for nm, args, cls in (
                ('too few arguments', (num[0],), TypeError),
                ('a short list', (num[:2],), TypeError),
                ('a wrong shape', (num[0], Mx(S12, {
                    (0, 0): num[1], (0, 1): num[2]})), ValueError),
                ('a scalar for an array', (num[0], num[1]), ValueError),
                ('something else', (num[0], 'x y'.split), TypeError)):
            def build(ctx):
                try:
                    ctx.call(prog(ctx), args)
                except PyRaise as x:
                    return x.cls
            nm = '%s of %s' % (action, nm)
            for p in vc.run(build, contracts=Q, name=nm):
                if vc.returns(nm, p):
                    vc.holds(nm + ': rejected', p.value is not None and
                             issubclass(p.value, cls), str(p.value))

        # graph form in place of  f(args) <= right
        u = node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=vc.real('u'),
                 name='u')

        def build(ctx):
            pr = prog(ctx)
            nd = tree('+', list(e))
            nd.attrs['item'] = pr
            c = SObj(CN.cvxpy_constr)
            c.attrs.update(left=nd, type=DF.LESS_EQUALS if action ==
                           DF.MINIMIZE else DF.GREATER_EQUALS, right=u)
            r = ctx.iterate(ctx.call(ctx.getattr(pr, '_pm_expand'), (c,)))
            new = [x for x in r if isinstance(x, SObj)]
            return ([holds(ctx, x) for x in new], list(maps),
                    [sum(x is y for x in r) for y in c2], len(r))
        nm = 'graph form to %s' % action
        for p in vc.run(build, contracts=Q, name=nm):
            if vc.returns(nm, p):
                h, ms, kept, n = p.value
                vc.holds(nm + ': the constraints of the function',
                         kept == [1, 1] and n == 3)
                vc.holds(nm + ': on the arguments', ms and all(
                    len(m) == 3 and all(m.get(f) is a for f, a in zip(fm, e))
                    for m in ms))
                b = sle(o2.vals[0], vc.real('u'))
                if action == DF.MAXIMIZE:
                    b = sle(vc.real('u'), o2.vals[0])
                vc.ob(nm + ': the objective bounds the variable', p.hyps,
                      T.tobool(h[0]) == T.tobool(b) if len(h) == 1 else
                      z3.BoolVal(False))


# -------------------------------------------------------------- at run time
@PROP.dyn('values of functions against their definitions')
def d_val(d):
    v1, vn = library(t)
    extra = {
        'lambda_max': (t.lambda_max, lambda m: np.max(np.linalg.eigvalsh(m))),
        'lambda_min': (t.lambda_min, lambda m: np.min(np.linalg.eigvalsh(m))),
        'nuclear_norm': (t.nuclear_norm, lambda m: np.sum(
            np.linalg.svd(m)[1])),
        'norm2': (t.norm2, lambda m: np.max(np.linalg.svd(m)[1])),
        'norm1': (t.norm1, lambda m: np.max(np.sum(np.abs(m), 0))),
        'norm_inf': (t.norm_inf, lambda m: np.max(np.sum(np.abs(m), 1))),
        'det_rootn': (t.det_rootn, lambda m: max(
            np.linalg.det(m), 0)**(1. / len(m))),
    }
    todo = [('s', n) for n in sorted(v1)] + [('v', n) for n in sorted(vn)] + \
        [('m', n) for n in sorted(extra)] + [('k', 'kl_div')]
    i = 0
    while d.more():
        kind, n = todo[i % len(todo)]
        i += 1
        if kind == 's':
            u = float(np.round(d.rng.uniform(-2.5, 2.5), 2))
            if n in ('log', 'sqrt') or n.startswith('power_p '):
                u = abs(u) + .05
            d.case(function=n, argument=u)
            got, want = v1[n][0](u), v1[n][1](u)
        elif kind == 'v':
            v = np.round(d.rng.uniform(-2, 2, 3), 2)
            if n == 'geo_mean':
                v = abs(v) + .05
            if n == 'quad_over_lin':
                v[2] = abs(v[2]) + .2
            d.case(function=n, argument=v)
            got, want = vn[n][0](t.matrix(v).T), vn[n][1](v)
        elif kind == 'k':
            x, y = [np.round(d.rng.uniform(.2, 2, 2), 2) for j in 'xy']
            d.case(function=n, argument=(x, y))
            got = t.kl_div(t.matrix(x).T, t.matrix(y).T)
            want = np.sum(x * np.log(x / y) - x + y)
        else:
            k = int(d.rng.integers(2, 4))
            m = np.round(d.rng.uniform(-2, 2, (k, k)), 2)
            if n.startswith('lambda'):
                m = m + m.T
            if n == 'det_rootn':
                m = m.dot(m.T) + .1 * np.eye(k)
            d.case(function=n, argument=m)
            got, want = extra[n][0](t.matrix(m)), extra[n][1](m)
        d.close(float(got), float(want), 'value of ' + n, 2e-4, 2e-4)


@PROP.dyn('linear programs against an independent solver')
def d_lp(d):
    from scipy.optimize import linprog
    while d.more():
        n, m, k = (int(d.rng.integers(1, 5)), int(d.rng.integers(1, 6)),
                   int(d.rng.integers(0, 3)))
        r = lambda *s: np.round(d.rng.uniform(-2, 2, s), 1)
        A, b, Aeq, beq, c = r(m, n), r(m), r(k, n), r(k), r(n)
        if k and d.rng.random() < .3:
            # equalities that follow from the others, or contradict them
            T = d.rng.integers(-2, 3, (int(d.rng.integers(1, 3)), k)) * 1.
            Aeq, beq = np.vstack([Aeq, T @ Aeq]), np.append(
                beq, T @ beq + (d.rng.random() < .4) * d.rng.integers(1, 3))
            o = d.rng.permutation(len(beq))
            Aeq, beq = Aeq[o], beq[o]
            k = len(beq)
        c0, mx = float(r(1)[0]), bool(d.rng.integers(2))
        box = bool(d.rng.integers(4))
        d.case(A=A, b=b, Aeq=Aeq, beq=beq, c=c, c0=c0, maximize=mx, box=box)
        x = t.variable(n, 1)
        row = lambda a: sum((float(a[j]) * x[j, 0] for j in range(1, n)),
                            float(a[0]) * x[0, 0]) if n > 1 else \
            float(a[0]) * (x[0, 0] if hasattr(x, 'data') else x)
        cs = [t.leq(row(A[i]), float(b[i])) for i in range(m)] + \
            [t.eq(row(Aeq[i]), float(beq[i])) for i in range(k)]
        if box:
            cs += [t.leq(x, 5.), t.geq(x, -5.)]
        p = t.program((t.maximize if mx else t.minimize)(row(c) + c0), cs)
        w = linprog(-c if mx else c, A, b, Aeq if k else None,
                    beq if k else None, bounds=(-5, 5) if box else
                    (None, None))
        if w.status in (2, 3, 4):
            # infeasible and unbounded are not always told apart
            g = linprog(0 * c, A, b, Aeq if k else None, beq if k else None,
                        bounds=(-5, 5) if box else (None, None))
            w.status = {0: 4 if box else 3, 2: 2}.get(g.status, 4)
        try:
            got = p.solve(quiet=True)
        except (ValueError, ArithmeticError, KeyError):
            # the solver rejects degenerate programs (rank conditions)
            d.expect(not box or w.status != 0 or np.linalg.matrix_rank(
                Aeq) >= n or not np.all(np.any(
                    np.vstack([A, Aeq]) != 0, 0)) or np.any(c == 0),
                'a regular program is not solved')
            continue
        if w.status == 0:
            want = (-w.fun if mx else w.fun) + c0
            d.cur.update(got=got, want=want)
            d.expect(abs(got - want) <= 1e-4 * (1 + abs(want)),
                     'optimal value')
            v = np.array([x[i, 0].value if n > 1 else x.value
                          for i in range(n)], float)
            if not np.any(np.isnan(v)):
                d.expect(np.all(A.dot(v) <= b + 1e-4) and
                         np.all(abs(Aeq.dot(v) - beq) <= 1e-4),
                         'the solution is feasible')
                d.expect(abs(c.dot(v) + c0 - want) <= 1e-3 * (1 + abs(want)),
                         'the solution is optimal')
        elif w.status == 2:
            d.expect(got == (-np.inf if mx else np.inf), 'infeasible')
        elif w.status == 3:
            d.expect(got == (np.inf if mx else -np.inf), 'unbounded')


@PROP.dyn('programs of functions against random feasible points')
def d_prog(d):
    import random
    rr = random.Random(int(d.rng.integers(2**31)))
    lib = library(t)
    keep1 = ('abs', 'square', 'exp', 'huber', 'power_pos 2', 'power_abs 3')
    keepn = ('max', 'min', 'norm1', 'norm2', 'norm_inf', 'log_sum_exp')
    wrap = lambda D, keep, s: {k: (
        lambda x, f=D[k][0], g=D[k][1]: s(g, x) if numeric(x) else f(x),
        D[k][1]) for k in keep}
    lib = (wrap(lib[0], keep1, lambda g, x: float(g(x))),
           wrap(lib[1], keepn, lambda g, x: float(g(np.asarray(x).ravel()))))
    while d.more():
        n = 2
        xs = [t.variable() for i in range(n)]
        try:
            (e, f), (h, g) = [rnd(rr, t, lib, xs, k) for k in (2, 1)]
            if numeric(e) or numeric(h) or not e.is_dcp():
                continue
            mx = not e.is_convex()
            cut = float(g(np.zeros(n)))
            con = [t.leq(h, cut + 1)] if h.is_convex() else \
                [t.geq(h, cut - 1)] if h.is_concave() else []
            cs = [t.leq(x, 2.) for x in xs] + [t.geq(x, -2.) for x in xs]
            p = t.program((t.maximize if mx else t.minimize)(e), cs + con)
            if not p.is_dcp():
                continue
        except (TypeError, OverflowError, ValueError):
            continue
        d.case(objective=str(e)[:200], constraint=str(con and con[0])[:200])
        try:
            got, ok = p.solve(quiet=True, return_status=True)
        except (ValueError, ArithmeticError, ZeroDivisionError):
            continue
        if not ok or not np.isfinite(got):
            continue
        v = np.array([x.value for x in xs], float)
        if np.any(np.isnan(v)):
            continue
        sat = lambda z, tol: not con or (
            g(z) <= cut + 1 + tol if h.is_convex() else
            g(z) >= cut - 1 - tol)
        tol = 2e-3 * (1 + abs(got))
        d.cur.update(got=got, x=v)
        d.expect(sat(v, tol) and np.all(abs(v) <= 2 + 1e-3), 'feasible')
        d.expect(abs(f(v) - got) <= tol, 'the value is the one at the point',
                 f=f(v))
        for i in range(40):
            z = d.rng.uniform(-2, 2, n)
            if sat(z, 0):
                d.expect(f(z) <= got + tol if mx else f(z) >= got - tol,
                         'a feasible point is better', z=z, fz=f(z))


@PROP.dyn('programs that are not convex are rejected')
def d_rej(d):
    x, y = t.variable(), t.variable()
    a = t.parameter()
    a.value = -1.
    bad = [
        lambda: t.program(t.minimize(t.log(x)), []),
        lambda: t.program(t.maximize(t.exp(x)), []),
        lambda: t.program(t.minimize(-t.square(x)), []),
        lambda: t.program(t.minimize(x), [t.geq(t.abs(x), 1)]),
        lambda: t.program(t.minimize(x), [t.eq(t.square(x), y)]),
        lambda: t.program(t.minimize(a * t.square(x)), []),
        lambda: t.program(t.minimize(t.exp(t.log(x))), []),
        lambda: t.program(t.minimize(t.sqrt(t.square(x))), []),
        lambda: t.program(t.minimize(t.square(t.abs(x) - y)), []),
    ]
    for i, f in enumerate(bad):
        d.case(program=i)
        d.raises(ValueError, lambda: f().solve(quiet=True))
    q = t.parameter()
    d.case(program='parameter without a value')
    d.raises(ValueError, lambda: t.program(t.minimize(x), [t.geq(
        x, q)]).solve(quiet=True))
