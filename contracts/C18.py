"""C18: expressions of the bundled modelling library (cvxpy_tdr).

The operators are verified by structural induction on the operands: an operand
is any constant, variable, parameter, sum, product or function node, whose
children are arbitrary expressions known only by their value, their variables
and their parameters (and by the contract of the operators themselves, i.e. the
induction hypothesis).  The obligations are that the value of the node built by
the real operator, as computed by the real `value` accessor, is the stated
combination of the values of the operands; that its variables and parameters
are the union of theirs; that the node is well formed (a product has a factor
with no variables first); that operands are left alone; and that what is not
supported is rejected.  Sums are taken with two and three terms.  The matrix
operators and structure functions run from their source on arrays of concrete
small shapes with arbitrary entries: a bound on the shape, not on the entries.
"""
from .base import *
import scipy.sparse as sp
from pyvc import interp as P
from pyvc.interp import Hooked, SObj, SList, PyRaise
from pyvc.terms import isnum, isz
from pydsm.cvxpy_tdr import defs as DF, scalars as SC, arrays as AR, \
    utils as CU, constraints as CN, interface as IF

PROP = Prop('C18')
PROP.assume(
    'children of expression nodes obey the contract of the operators '
    '(structural induction); sums have 2 or 3 terms',
    'np.matrix arithmetic is the matrix algebra on its entries (assumed '
    'contract of numpy for cvxpy_matrix operands)',
    'matrix operators and structure functions: shapes up to 3x3 only '
    '(entries are arbitrary expressions)')


class Tok:
    """a variable or a parameter in the lists of an abstract expression"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class E(Hooked):
    """an arbitrary expression (a function node, say)"""
    def __init__(self, name, val, vs=(), ps=(), flags=None):
        self.name, self.val = name, val
        self.vs, self.ps = tuple(vs), tuple(ps)
        self.flags = flags or {}

    def __repr__(self):
        return self.name

    def h_type(self, ctx):
        return SC.cvxpy_tree

    def h_getattr(self, ctx, n):
        if n == 'value':
            return self.val
        if n in ('variables', 'parameters'):
            r = SList(self.vs if n == 'variables' else self.ps)
            r.cls = CN.cvxpy_list
            return r
        if n == 'item':
            return FnItem()
        if n in ('type', 'name', 'shape', 'T'):
            return {'type': DF.TREE, 'name': '', 'shape': (1, 1),
                    'T': self}[n]
        if n in self.flags:
            return P.BoundModel(lambda c, o: o.flags[n], self, n)
        raise Unsupported('attribute %s of an expression' % n)

    def h_unary(self, ctx, op):
        assert op == 'USub'
        return self._like('-' + self.name, sneg(self.val))

    def _like(self, name, val, *others):
        vs, ps = self.vs, self.ps
        for o in others:
            vs, ps = vs + o.vs, ps + o.ps
        return E(name, val, dict.fromkeys(vs), dict.fromkeys(ps))

    def h_binop(self, ctx, op, o, refl):
        if isnum(o) or isinstance(o, (int, F)) or isz(o):
            if op == 'Mult':
                if o == 0 and not isz(o):
                    return F(0)
                return self._like('c*' + self.name, smul(o, self.val))
            if op == 'Add':
                return self._like('c+' + self.name, sadd(o, self.val))
            if op == 'Sub':
                return self._like('c-' + self.name, ssub(o, self.val)
                                  if refl else ssub(self.val, o))
        if isinstance(o, E):
            a, b = (o, self) if refl else (self, o)
            if op == 'Add':
                return self._like('+', sadd(a.val, b.val), o)
            if op == 'Sub':
                return self._like('-', ssub(a.val, b.val), o)
            if op == 'Mult':
                if a.vs and b.vs:
                    raise PyRaise(TypeError, ('unsupported operands',))
                return self._like('*', smul(a.val, b.val), o)
        return NotImplemented

    def h_compare(self, ctx, op, o, refl):
        if op == '==':
            return self is o
        if op == '!=':
            return self is not o
        raise Unsupported('comparison of expressions')


class FnItem(Hooked):
    """a function of the library, as the item of a node"""
    FN = z3.Function('fval', R, R, R)

    def __init__(self, action=None, dcp=None):
        self.action, self.dcp = action, dcp

    def h_getattr(self, ctx, n):
        if n == 'name':
            return 'f'
        if n == 'type':
            return DF.FUNCTION
        if n == 'action':
            return self.action
        if n == 'is_dcp':
            return P.BoundModel(lambda c, o, args=None: o.dcp, self, n)
        raise Unsupported('attribute %s of a function' % n)

    def h_call(self, ctx, args, kwargs):
        xs = ctx.iterate(args[0])
        return FnItem.FN(T.lit(xs[0]), T.lit(xs[1]))


def ex(vc, name, vs=True, ps=False):
    return E(name, vc.real(name), [Tok('v_' + name)] if vs else [],
             [Tok('p_' + name)] if ps else [])


def node(cls, **attrs):
    o = SObj(cls)
    base = dict(shape=(1, 1), T=o, name='')
    if cls is not SC.cvxpy_tree:
        for n in ('variables', 'parameters'):
            base[n] = SList()
            base[n].cls = CN.cvxpy_list
    o.attrs.update(base)
    o.attrs.update(attrs)
    return o


def const(vc, n):
    return node(SC.cvxpy_obj, type=DF.CONSTANT, value=vc.real('k' + n),
                name='k')


def var(vc, n):
    return node(SC.cvxpy_scalar_var, type=DF.VARIABLE, value=vc.real('x' + n),
                name='x' + n)


def par(vc, n):
    return node(SC.cvxpy_scalar_param, type=DF.PARAMETER, attribute=None,
                value=vc.real('a' + n), name='a' + n)


def tree(op, children):
    item = op if isinstance(op, FnItem) else node(
        SC.cvxpy_obj, type=DF.OPERATOR, value=F(0), name=op)
    return node(SC.cvxpy_tree, item=item, children=children, type=DF.TREE)


def operands(vc, n):
    """(name, maker) of every form of operand"""
    return [
        ('variable', lambda: var(vc, n)),
        ('parameter', lambda: par(vc, n)),
        ('sum', lambda: tree('+', [ex(vc, n + '1'), ex(vc, n + '2', ps=True)])),
        ('sum3', lambda: tree('+', [const(vc, n), ex(vc, n + '2', ps=True),
                                    ex(vc, n + '3', vs=False, ps=True)])),
        ('constant*e', lambda: tree('*', [const(vc, n), ex(vc, n + '2')])),
        ('parameter*e', lambda: tree('*', [
            ex(vc, n + '1', vs=False, ps=True), ex(vc, n + '2')])),
        ('function', lambda: tree(FnItem(), [ex(vc, n + '1'),
                                             ex(vc, n + '2', ps=True)])),
        ('e of parameters', lambda: tree(FnItem(), [
            ex(vc, n + '1', vs=False, ps=True),
            ex(vc, n + '2', vs=False, ps=True)])),
    ]


def sem(ctx, e):
    """(value, variables, parameters) of anything an operator returns"""
    if isinstance(e, (SObj, E)):
        if isinstance(e, SObj) and e.cls in (AR.cvxpy_array,):
            raise Unsupported('array')
        return (ctx.getattr(e, 'value'),
                set(ctx.iterate(ctx.getattr(e, 'variables'))),
                set(ctx.iterate(ctx.getattr(e, 'parameters'))))
    return e, set(), set()


def wellformed(ctx, e):
    if isinstance(e, SObj) and e.cls is SC.cvxpy_tree:
        it = e.attrs['item']
        ch = e.attrs['children']
        if not isinstance(it, FnItem) and it.attrs['name'] == '*':
            return len(ch) == 2 and not sem(ctx, ch[0])[1]
        return len(ch) >= 1
    return True


def snapshot(e, out=None):
    out = [] if out is None else out
    if isinstance(e, SObj) and not any(e is o for o, _, _ in out):
        ch = e.attrs.get('children')
        out.append((e, dict(e.attrs), list(ch) if ch is not None else None))
        for c in ch or ():
            snapshot(c, out)
        d = e.attrs.get('data')
        if isinstance(d, dict):
            out.append((d, dict(d), None))
            for r in d.values():
                out.append((r, dict(r), None))
                for c in r.values():
                    snapshot(c, out)
    return out


def unaltered(snap):
    for o, a, ch in snap:
        now = o.attrs if isinstance(o, SObj) else o
        if set(now) != set(a) or any(now[k] is not a[k] for k in a):
            return False
        if ch is not None and (len(now['children']) != len(ch) or any(
                x is not y for x, y in zip(now['children'], ch))):
            return False
    return True


def check_scalar(vc, name, mk, op, want, may_reject=False, zero=None):
    """op applied to the operands made by mk: all the obligations"""
    def build(ctx):
        ops = [m() if callable(m) else m for m in mk]
        snap = [x for o in ops for x in snapshot(o)]
        before = [sem(ctx, o) for o in ops]
        try:
            r = op(ctx, *ops)
        except PyRaise as e:
            return 'raise', e, before, unaltered(snap), True, None
        return ('ok', sem(ctx, r), before, unaltered(snap),
                wellformed(ctx, r), r)
    for p in vc.run(build, name=name):
        if not vc.returns(name, p):
            continue
        st, got, before, frame, wf, r = p.value
        vc.holds(name + ': operands unaltered', frame)
        if st == 'raise':
            ok = may_reject and issubclass(got.cls, TypeError) and \
                all(b[1] for b in before)
            vc.holds(name + ': only products of variable expressions are '
                     'rejected', ok, str(got.cls.__name__))
            continue
        if may_reject:
            vc.holds(name + ': products of variable expressions are rejected',
                     not all(b[1] for b in before))
        vc.holds(name + ': well formed', wf)
        w = want(*[b[0] for b in before])
        vc.ob(name + ' = value', p.hyps, seq(got[0], w))
        for i, what in ((1, 'variables'), (2, 'parameters')):
            u = set().union(*[b[i] for b in before])
            if isinstance(r, (SObj, E)):
                vc.holds('%s: %s are those of the operands' % (name, what),
                         got[i] == u, '%s, not %s' % (got[i], u))
            else:
                # a plain number: the product by zero
                vc.ob(name + ': a number only if it vanishes', p.hyps,
                      seq(r, 0))


OPS = (('Add', '+', sadd), ('Sub', '-', ssub))


@PROP.unit('scalar sums and differences')
def u_add(vc):
    for na, a in operands(vc, 'l') + [('constant', lambda: const(vc, 'l'))]:
        for op, sy, f in OPS:
            c = vc.real('c')
            check_scalar(vc, '%s %s number' % (na, sy), [a, c],
                         lambda ctx, x, y: ctx.binop(op, x, y), f)
            check_scalar(vc, 'number %s %s' % (sy, na), [c, a],
                         lambda ctx, x, y: ctx.binop(op, x, y), f)
            for nb, b in operands(vc, 'r'):
                check_scalar(vc, '%s %s %s' % (na, sy, nb), [a, b],
                             lambda ctx, x, y: ctx.binop(op, x, y), f)


@PROP.unit('scalar products')
def u_mul(vc):
    c = vc.real('c')
    for na, a in operands(vc, 'l'):
        check_scalar(vc, '%s * number' % na, [a, c],
                     lambda ctx, x, y: ctx.binop('Mult', x, y), smul)
        check_scalar(vc, 'number * %s' % na, [c, a],
                     lambda ctx, x, y: ctx.binop('Mult', x, y), smul)
        check_scalar(vc, '-(%s)' % na, [a],
                     lambda ctx, x: ctx.call(ctx.getattr(x, '__neg__'), ()),
                     sneg)
        for nb, b in operands(vc, 'r'):
            check_scalar(vc, '%s * %s' % (na, nb), [a, b],
                         lambda ctx, x, y: ctx.binop('Mult', x, y), smul,
                         may_reject=True)


# ------------------------------------------------------------- matrices
class Mx(Hooked):
    """a cvxpy_matrix: numeric, concrete shape, arbitrary entries"""
    def __init__(self, shape, d):
        self.shape, self.d = shape, d

    def __repr__(self):
        return 'matrix%s' % (self.shape,)

    def h_type(self, ctx):
        return AR.cvxpy_matrix

    def h_getattr(self, ctx, n):
        if n == 'shape':
            return self.shape
        if n == 'T':
            return Mx(self.shape[::-1],
                      {(j, i): v for (i, j), v in self.d.items()})
        raise Unsupported('attribute %s of a matrix' % n)

    def h_getitem(self, ctx, k):
        if isinstance(k, tuple) and len(k) == 2 and all(
                isinstance(i, int) for i in k):
            if not all(-m <= i < m for i, m in zip(k, self.shape)):
                raise PyRaise(IndexError, ())
            return self.d[tuple(i % m for i, m in zip(k, self.shape))]
        raise Unsupported('matrix index')

    def h_setitem(self, ctx, k, v):
        assert tuple(k) in self.d
        self.d[tuple(k)] = v

    def h_unary(self, ctx, op):
        return Mx(self.shape, {k: sneg(v) for k, v in self.d.items()})

    NAMES = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul'}

    def h_binop(self, ctx, op, o, refl):
        if op not in self.NAMES or refl and isinstance(o, (SObj, E)):
            return NotImplemented
        f = AR.cvxpy_matrix.__dict__['__%s%s__' % ('r' * refl,
                                                   self.NAMES[op])]
        r = ctx.call(f, (self, o))
        if r is NotImplemented and isinstance(o, E):
            # the operators of a scalar expression, by their contract
            return Arrx(ctx, self.shape, {
                k: ctx.binop(op, v, o) for k, v in self.d.items()})
        return r


def Arrx(ctx, shape, d):
    """a cvxpy_array with the given entries"""
    o = SObj(AR.cvxpy_array)
    o.attrs.update(shape=shape, type=DF.ARRAY, data={
        i: {j: d[i, j] for j in range(shape[1])} for i in range(shape[0])})
    return o


def elementwise(op):
    def f(ctx, a, b):
        if isinstance(a, Mx) and isinstance(b, Mx):
            if a.shape != b.shape:
                if 1 in a.shape + b.shape:
                    raise Unsupported('broadcasting of matrices')
                raise PyRaise(ValueError, ('shapes',))
            return Mx(a.shape, {k: op(v, b.d[k]) for k, v in a.d.items()})
        if isnum(b) or isz(b):
            return Mx(a.shape, {k: op(v, b) for k, v in a.d.items()})
        return NotImplemented
    return f


def mx_mul(ctx, a, b):
    if isnum(b) or isz(b):
        return Mx(a.shape, {k: smul(v, b) for k, v in a.d.items()})
    if isinstance(b, Mx):
        return Mx((a.shape[0], b.shape[1]), matmul(a.shape, a.d,
                                                   b.shape, b.d))
    return NotImplemented


def matmul(sa, a, sb, b):
    return {(i, j): dotsum(smul(a[i, k], b[k, j]) for k in range(sa[1]))
            for i in range(sa[0]) for j in range(sb[1])}


def dotsum(xs):
    r = F(0)
    for x in xs:
        r = sadd(r, x)
    return r


def mk_matrix(ctx, data, dtype=None, copy=True):
    if isinstance(data, Mx):
        return Mx(data.shape, dict(data.d))
    if isnum(data) or isz(data):
        return Mx((1, 1), {(0, 0): data})
    a = N.asarr(ctx, data)
    if len(a.shape) == 1:
        return Mx((1, a.shape[0]), {(0, j): a.at(j)
                                    for j in range(a.shape[0])})
    return Mx(tuple(a.shape), {k: a.at(*k) for k in P.indices(a.shape)})


def np_stack(axis):
    def f(ctx, seq):
        ms = ctx.iterate(seq)
        d, k = {}, 0
        for m in ms:
            if m.shape[1 - axis] != ms[0].shape[1 - axis]:
                raise PyRaise(ValueError, ('dimensions',))
            for (i, j), v in m.d.items():
                d[(i + k, j) if axis == 0 else (i, j + k)] = v
            k += m.shape[axis]
        n = ms[0].shape[1 - axis]
        return Mx((k, n) if axis == 0 else (n, k), d)
    return f


def mx_diag(ctx, m):
    n = min(m.shape)
    return Mx((1, n), {(0, i): m.d[i, i] for i in range(n)})


def mx_diagflat(ctx, m):
    v = [m.d[k] for k in sorted(m.d)]
    n = len(v)
    return Mx((n, n), {(i, j): v[i] if i == j else F(0) for i in range(n)
                       for j in range(n)})


def mx_reshape(ctx, m, shape, order='C'):
    r, c = shape
    n = m.shape[0]
    assert order == 'F'
    if r < 0 or c < 0:
        raise Unsupported('negative dimensions')
    d = {}
    for (i, j), v in m.d.items():
        k = j * n + i
        d[k % r, k // r] = v
    return Mx((r, c), d)


MXC = {id(AR.cvxpy_matrix): mk_matrix,
       id(np.ndarray.__dict__['__add__']): elementwise(sadd),
       id(np.ndarray.__dict__['__radd__']): elementwise(lambda a, b:
                                                        sadd(b, a)),
       id(np.ndarray.__dict__['__sub__']): elementwise(ssub),
       id(np.ndarray.__dict__['__rsub__']): elementwise(lambda a, b:
                                                        ssub(b, a)),
       id(np.matrix.__dict__['__mul__']): mx_mul,
       id(np.matrix.__dict__['__rmul__']): lambda ctx, a, b:
           mx_mul(ctx, b, a) if isinstance(b, Mx) else mx_mul(ctx, a, b),
       id(np.hstack): np_stack(1), id(np.vstack): np_stack(0),
       id(np.diag): mx_diag, id(np.diagflat): mx_diagflat,
       id(np.reshape): mx_reshape}


def grid(shape, f):
    return {(i, j): f(i, j) for i in range(shape[0])
            for j in range(shape[1])}


def entries(vc, n, shape, kind):
    """entries of an operand: 'e' expressions, 'p' parametric ones,
    'm' expressions mixed with plain numbers, 'n' numbers"""
    def f(i, j):
        s = '%s%d%d' % (n, i, j)
        if kind == 'n' or kind == 'm' and (i + j) % 2:
            return vc.real(s)
        return ex(vc, s, vs=kind != 'p', ps=kind == 'p')
    return grid(shape, f)


def operand(vc, n, shape, kind):
    """maker of an array, matrix or scalar operand"""
    if shape is None:
        if kind == 'n':
            return lambda: vc.real(n)
        return lambda: (var if kind == 'e' else par)(vc, n)
    if kind == 'n':
        return lambda: Mx(shape, entries(vc, n, shape, 'n'))
    return lambda: Arrx(None, shape, entries(vc, n, shape, kind))


def msem(ctx, x):
    """(shape, values, variables, parameters)"""
    if isinstance(x, Mx):
        return x.shape, dict(x.d), set(), set()
    if isinstance(x, SObj) and 'data' in x.attrs:
        sh = tuple(x.attrs['shape'])
        d, vs, ps = {}, set(), set()
        for i in range(sh[0]):
            for j in range(sh[1]):
                v, a, b = sem(ctx, x.attrs['data'][i][j])
                d[i, j] = v
                vs |= a
                ps |= b
        return sh, d, vs, ps
    v, a, b = sem(ctx, x)
    return None, v, a, b


def check_matrix(vc, name, mks, op, want, rejected=None, lists=True):
    """want(shape/values of the operands) -> (shape, values)"""
    def build(ctx):
        ops = [m() for m in mks]
        snap = [x for o in ops for x in snapshot(o)]
        before = [msem(ctx, o) for o in ops]
        try:
            r = op(ctx, *ops)
        except PyRaise as e:
            return 'raise', e, before, unaltered(snap), None
        acc = None
        if isinstance(r, SObj) and 'data' in r.attrs:
            v = ctx.getattr(r, 'value')
            acc = (v, set(ctx.iterate(ctx.getattr(r, 'variables'))),
                   set(ctx.iterate(ctx.getattr(r, 'parameters'))))
        return 'ok', msem(ctx, r), before, unaltered(snap), acc
    for p in vc.run(build, contracts=MXC, name=name):
        if not vc.returns(name, p):
            continue
        st, got, before, frame, acc = p.value
        vc.holds(name + ': operands unaltered', frame)
        if rejected is not None or st == 'raise':
            vc.holds(name + (': rejected' if rejected else ': accepted'),
                     st == 'raise' and rejected is not None and
                     issubclass(got.cls, rejected),
                     str(got.cls.__name__) if st == 'raise' else 'accepted')
            continue
        sh, d = want(*[b[:2] for b in before])
        vc.holds(name + ': shape', got[0] == sh, '%s, not %s' % (got[0], sh))
        if got[0] != sh:
            continue
        gs = got[1] if sh else {(): got[1]}
        ws = d if sh else {(): d}
        for k in sorted(ws):
            vc.ob('%s %s = value' % (name, list(k)), p.hyps,
                  seq(gs[k], ws[k]))
        us = [set().union(*[b[i] for b in before]) for i in (2, 3)]
        for i, what in ((2, 'variables'), (3, 'parameters')):
            # an entry may vanish with a product by zero
            ok = got[i] == us[i - 2] if lists else got[i] <= us[i - 2]
            vc.holds('%s: %s are those of the operands' % (name, what), ok,
                     '%s, not %s' % (got[i], us[i - 2]))
        if acc is not None:
            vc.holds(name + ': value has the shape', isinstance(acc[0], Mx)
                     and acc[0].shape == sh)
            if isinstance(acc[0], Mx) and acc[0].shape == sh:
                for k in sorted(ws):
                    vc.ob('%s: value accessor %s' % (name, list(k)), p.hyps,
                          seq(acc[0].d[k], ws[k]))
            vc.holds(name + ': variables accessor', acc[1] == got[2])
            vc.holds(name + ': parameters accessor', acc[2] == got[3])


def bc(f):
    """elementwise f with a scalar extended to the shape of the other"""
    def w(a, b):
        (sa, x), (sb, y) = a, b
        sh = sa or sb
        return sh, {k: f(x[k] if sa else x, y[k] if sb else y)
                    for k in (x if sa else y)}
    return w


S22, S23, S32, S12, S21, S13, S33 = ((2, 2), (2, 3), (3, 2), (1, 2), (2, 1),
                                     (1, 3), (3, 3))


@PROP.unit('matrix sums and differences (shapes up to 2x3)')
def u_madd(vc):
    for op, sy, f in OPS:
        go = lambda ctx, x, y: ctx.binop(op, x, y)
        for sh in (S23, S12, S21):
            for ka, kb in ('me', 'mn', 'nm', 'mp', 'pm'):
                check_matrix(vc, '%s %s %s %s' % (ka, sy, kb, sh), [
                    operand(vc, 'l', sh, ka), operand(vc, 'r', sh, kb)], go,
                    bc(f))
            for ka, kb in ('mn', 'me', 'mp', 'ne', 'np'):
                a, b = operand(vc, 'l', sh, ka), operand(vc, 'r', None, kb)
                check_matrix(vc, '%s%s %s scalar %s' % (ka, sh, sy, kb),
                             [a, b], go, bc(f))
                check_matrix(vc, 'scalar %s %s %s%s' % (kb, sy, ka, sh),
                             [b, a], go, bc(f))
        for ka, kb in ('me', 'mn', 'nm'):
            check_matrix(vc, '%s %s %s of other dimensions' % (ka, sy, kb), [
                operand(vc, 'l', S23, ka), operand(vc, 'r', S32, kb)], go,
                None, rejected=ValueError)


@PROP.unit('matrix products (shapes up to 3x3)')
def u_mmul(vc):
    go = lambda ctx, x, y: ctx.binop('Mult', x, y)

    def mm(a, b):
        d = matmul(a[0], a[1], b[0], b[1])
        sh = (a[0][0], b[0][1])
        return (None, d[0, 0]) if sh == (1, 1) else (sh, d)
    for sa, sb in ((S23, S32), (S12, S23), (S21, S13), (S13, (3, 1)),
                   (S22, S21)):
        for ka, kb in ('mn', 'nm', 'ep', 'pe'):
            a, b = operand(vc, 'l', sa, ka), operand(vc, 'r', sb, kb)
            check_matrix(vc, '%s*%s %s*%s' % (ka, kb, sa, sb), [a, b], go, mm,
                         lists=False)
    for ka, kb in ('mn', 'nm', 'ep', 'me'):
        check_matrix(vc, '%s*%s of unfit dimensions' % (ka, kb), [
            operand(vc, 'l', S23, ka), operand(vc, 'r', S23, kb)], go, None,
            rejected=ValueError)
    check_matrix(vc, 'product of variable expressions', [
        operand(vc, 'l', S22, 'e'), operand(vc, 'r', S22, 'e')], go, None,
        rejected=TypeError)
    for ka, kb in ('mn', 'mp', 'ne', 'np'):
        # the scalar operator tells apart the values 0 and 1 of each entry
        a = operand(vc, 'l', S12 if ka == 'n' else S23, ka)
        b = operand(vc, 'r', None, kb)
        check_matrix(vc, '%s * scalar %s' % (ka, kb), [a, b], go, bc(smul),
                     lists=False)
        check_matrix(vc, 'scalar %s * %s' % (kb, ka), [b, a], go, bc(smul),
                     lists=False)
    for k in 'mep':
        check_matrix(vc, '-%s' % k, [operand(vc, 'l', S23, k)],
                     lambda ctx, x: ctx.call(ctx.getattr(x, '__neg__'), ()),
                     lambda a: (a[0], {q: sneg(v) for q, v in a[1].items()}))


SLICES = [slice(None), slice(0, 1), slice(1, None), slice(None, None, 2),
          slice(None, None, -1), slice(-1, None), slice(None, -1),
          slice(-2, None, -1), 0, 1]


@PROP.unit('transposition and indexing (3x2)')
def u_index(vc):
    for sh in (S32, S12, S21):
        check_matrix(vc, 'T%s' % (sh,), [operand(vc, 'l', sh, 'm')],
                     lambda ctx, x: ctx.getattr(x, 'T'),
                     lambda a: (a[0][::-1],
                                {(j, i): v for (i, j), v in a[1].items()}))
    for r in SLICES + [slice(2, 0, -1), slice(-1, -3, -1)]:
        for c in SLICES + [slice(1, None, -1)]:
            ri = list(range(3))[r] if isinstance(r, slice) else [r]
            ci = list(range(2))[c] if isinstance(c, slice) else [c]
            name = '[%s, %s]' % (r, c)

            def want(a):
                d = {(i, j): a[1][ri[i], ci[j]] for i in range(len(ri))
                     for j in range(len(ci))}
                if (len(ri), len(ci)) == (1, 1):
                    return None, d[0, 0]
                return (len(ri), len(ci)), d
            check_matrix(vc, name, [operand(vc, 'l', S32, 'm')],
                         lambda ctx, x: ctx.getitem(x, (r, c)), want,
                         lists=False)
    for k in ((3, 0), (0, 2), (-4, 0), (7, 7)):
        check_matrix(vc, 'index %s out of range' % (k,),
                     [operand(vc, 'l', S32, 'm')],
                     lambda ctx, x: ctx.getitem(x, k), None,
                     rejected=ValueError)
    for k in (0, (0,), (0, 1, 2), (F(1, 2), 0), ('a', 0)):
        check_matrix(vc, 'index %s' % (k,), [operand(vc, 'l', S32, 'm')],
                     lambda ctx, x: ctx.getitem(x, k), None,
                     rejected=TypeError)


def stackspec(axis):
    def w(*bs):
        d, k, n = {}, 0, None
        for sh, v in bs:
            if sh is None:
                sh, v = (1, 1), {(0, 0): v}
            n = sh[1 - axis]
            for (i, j), x in v.items():
                d[(i + k, j) if axis == 0 else (i, j + k)] = x
            k += sh[axis]
        return ((k, n) if axis == 0 else (n, k)), d
    return w


@PROP.unit('structure functions (shapes up to 3x3)')
def u_struct(vc):
    def o(n, sh, k):
        return operand(vc, n, sh, k)
    for fn, ax, shs in ((CU.hstack, 1, (S22, S21, S23)),
                        (CU.vstack, 0, (S22, S12, S32))):
        nm = fn.__name__
        for ks in ('mnm', 'nmn', 'nnn', 'eep'):
            for box in (tuple, list):
                check_matrix(vc, '%s %s %s' % (nm, ks, box.__name__), [
                    o('abc'[i], shs[i], ks[i]) for i in range(3)],
                    lambda ctx, *x: ctx.call(fn, (box(x),)), stackspec(ax))
        for ks in ('nen', 'epn', 'nn', 'nm'):
            check_matrix(vc, '%s of scalars %s' % (nm, ks), [
                o('abc'[i], None if k != 'm' else (1, 1), k)
                for i, k in enumerate(ks)],
                lambda ctx, *x: ctx.call(fn, (x,)), stackspec(ax))
        for ks in ('mn', 'nm', 'me', 'nn'):
            check_matrix(vc, '%s %s of unfit dimensions' % (nm, ks), [
                o('a', S22, ks[0]), o('b', (S32, S23)[ax == 0], ks[1])],
                lambda ctx, *x: ctx.call(fn, (x,)), None, rejected=ValueError)
    for k in 'men':
        for sh in (S23, S12, (1, 1)):
            check_matrix(vc, 'sum of %s%s' % (k, sh), [o('a', sh, k)],
                         lambda ctx, x: ctx.call(CU.sum, (x,)),
                         lambda a: (None, dotsum(a[1].values())))
        ident = lambda a: (None, a[1])
        if k != 'm':
            for fn in (CU.sum, CU.diag, CU.trace):
                check_matrix(vc, '%s of a scalar %s' % (fn.__name__, k),
                             [o('a', None, k)],
                             lambda ctx, x: ctx.call(fn, (x,)), ident)
        for sh in (S22, S33):
            check_matrix(vc, 'trace of %s%s' % (k, sh), [o('a', sh, k)],
                         lambda ctx, x: ctx.call(CU.trace, (x,)),
                         lambda a: (None, dotsum(
                             a[1][i, i] for i in range(a[0][0]))),
                         lists=False)
            check_matrix(vc, 'diag of %s%s' % (k, sh), [o('a', sh, k)],
                         lambda ctx, x: ctx.call(CU.diag, (x,)),
                         lambda a: ((a[0][0], 1), {
                             (i, 0): a[1][i, i] for i in range(a[0][0])}),
                         lists=False)
        for sh in (S12, S21, S13):
            n = sh[0] * sh[1]
            check_matrix(vc, 'diag of %s%s' % (k, sh), [o('a', sh, k)],
                         lambda ctx, x: ctx.call(CU.diag, (x,)),
                         lambda a: ((n, n), {
                             (i, j): a[1][(i, 0) if sh[1] == 1 else (0, i)]
                             if i == j else F(0)
                             for i in range(n) for j in range(n)}))
        for fn in (CU.trace, CU.diag):
            check_matrix(vc, '%s of a non square %s' % (fn.__name__, k),
                         [o('a', S23, k)],
                         lambda ctx, x: ctx.call(fn, (x,)), None,
                         rejected=ValueError)
        for sh, new in ((S23, S32), (S23, (6, 1)), (S32, (1, 6)),
                        (S22, (4, 1)), ((1, 6), S23), ((4, 1), S22)):
            def want(a):
                seq = [a[1][i, j] for j in range(a[0][1])
                       for i in range(a[0][0])]
                return new, {(q % new[0], q // new[0]): v
                             for q, v in enumerate(seq)}
            check_matrix(vc, 'reshape of %s%s to %s' % (k, sh, new),
                         [o('a', sh, k)],
                         lambda ctx, x: ctx.call(CU.reshape, (x, new)), want)
        for new in (S22, (7, 1)):
            check_matrix(vc, 'reshape of %s to an unfit %s' % (k, new),
                         [o('a', S23, k)],
                         lambda ctx, x: ctx.call(CU.reshape, (x, new)), None,
                         rejected=ValueError)


def Spx(vc, n, shape, pattern):
    """a sparse matrix with numbers at the places of the pattern"""
    o = SObj(AR.cvxpy_spmatrix)
    d = {k: vc.real('%s%d%d' % ((n,) + k)) for k in pattern}
    o.attrs.update(shape=shape, rows=[
        [j for j in range(shape[1]) if (i, j) in d] for i in range(shape[0])])
    o.attrs['data'] = [[d[i, j] for j in r]
                       for i, r in enumerate(o.attrs['rows'])]
    return o, {k: d.get(k, F(0)) for k in P.indices(shape)}


PATTERNS = ([(0, 0), (1, 2)], [(0, 1)], [(1, 0), (1, 1), (0, 2)], [])


@PROP.unit('sparse matrices with arrays (2x3 and 3x2)')
def u_sparse(vc):
    C = dict(MXC)
    C[id(sp.lil_matrix.__getattribute__)] = lambda ctx, o, n: o.attrs[n] \
        if n in o.attrs else ctx.getattr(o, n, raw=True)
    for pat in PATTERNS:
        for op, sy, f in OPS + (('Mult', '*', None),):
            for left in (True, False):
                for k in 'me':
                    nm = '%s %s with sparse %s %s' % (
                        k, sy, pat, 'on the left' if left else 'on the right')

                    def build(ctx):
                        s, d = Spx(vc, 's', S23, pat)
                        a = operand(vc, 'l', S23 if f else S32, k)()
                        b = msem(ctx, a)
                        snap = snapshot(a)
                        r = ctx.binop(op, s, a) if left else \
                            ctx.binop(op, a, s)
                        keep = sum(map(len, s.attrs['rows'])) == len(pat)
                        return (msem(ctx, r), d, b, unaltered(snap) and keep)
                    for p in vc.run(build, contracts=C, name=nm):
                        if not vc.returns(nm, p):
                            continue
                        got, d, b, frame = p.value
                        vc.holds(nm + ': operands unaltered', frame)
                        x, y = ((S23, d), b[:2]) if left else (b[:2],
                                                               (S23, d))
                        if f:
                            sh = S23
                            w = {q: f(x[1][q], y[1][q]) for q in d}
                        else:
                            sh = (x[0][0], y[0][1])
                            w = matmul(x[0], x[1], y[0], y[1])
                        vc.holds(nm + ': shape', got[0] == sh)
                        if got[0] != sh:
                            continue
                        for q in sorted(w):
                            vc.ob('%s %s = value' % (nm, list(q)), p.hyps,
                                  seq(got[1][q], w[q]))


@PROP.unit('sparse matrices changed between two products (2x3)')
def u_history(vc):
    C = dict(MXC)
    C[id(sp.lil_matrix.__getattribute__)] = lambda ctx, o, n: o.attrs[n] \
        if n in o.attrs else ctx.getattr(o, n, raw=True)
    for pat, new in (((0, 0),), [(0, 0), (1, 2)]), (((0, 1), (1, 1)), []), \
            (((0, 0), (1, 2)), [(0, 0), (1, 2)]):
        for left in (True, False):
            nm = 'product with a sparse matrix %s, %s before, on the %s' % (
                new, list(pat), 'left' if left else 'right')

            def build(ctx):
                s = Spx(vc, 'o', S23, list(pat))[0]
                t, d = Spx(vc, 's', S23, new)
                a = operand(vc, 'l', S32, 'e')()
                b = msem(ctx, a)
                go = lambda: ctx.binop('Mult', s, a) if left else ctx.binop(
                    'Mult', a, s)
                go()
                for w in ('rows', 'data'):
                    for i, x in enumerate(t.attrs[w]):
                        s.attrs[w][i][:] = x
                return msem(ctx, go()), d, b
            for p in vc.run(build, contracts=C, name=nm):
                if not vc.returns(nm, p):
                    continue
                got, d, b = p.value
                x, y = ((S23, d), b[:2]) if left else (b[:2], (S23, d))
                w = matmul(x[0], x[1], y[0], y[1])
                for q in sorted(w):
                    vc.ob('%s %s = value' % (nm, list(q)), p.hyps,
                          seq(got[1][q], w[q]))


# ------------------------------------------------- variables and parameters
STRUCT = {None: lambda i, j: (i, j),
          DF.LOWER_TRIANGULAR: lambda i, j: (i, j) if j <= i else None,
          DF.UPPER_TRIANGULAR: lambda i, j: (i, j) if i <= j else None,
          DF.SYMMETRIC: lambda i, j: (max(i, j), min(i, j))}


@PROP.unit('variables, parameters and their values (shapes up to 3x3)')
def u_iface(vc):
    def make(what, args, kw):
        def build(ctx):
            try:
                r = ctx.call(getattr(IF, what), args, kw)
            except PyRaise as e:
                return e
            if 'data' not in r.attrs:
                return r, None, None
            sh = r.attrs['shape']
            return (r, grid(sh, lambda i, j: r.attrs['data'][i][j]),
                    [ctx.iterate(ctx.getattr(r, w))
                     for w in ('variables', 'parameters')])
        return build
    for what, cls in (('variable', SC.cvxpy_scalar_var),
                      ('parameter', SC.cvxpy_scalar_param)):
        for args, kw in (((), {}), ((1, 1), {}), ((1, 1), {'name': 'q'})):
            nm = '%s%s%s' % (what, args, kw or '')
            for p in vc.run(make(what, args, kw), contracts=MXC, name=nm):
                if vc.returns(nm, p):
                    vc.holds(nm + ': a scalar', isinstance(p.value, tuple)
                             and p.value[0].cls is cls)
        sts = list(STRUCT) if what == 'variable' else [None]
        for st in sts:
            for sh in ((2, 2), (3, 3), (1, 3), (3, 2)):
                kw = {'structure': st} if st else {}
                nm = '%s%s %s' % (what, sh, st or '')
                for p in vc.run(make(what, sh, kw), contracts=MXC, name=nm):
                    if not vc.returns(nm, p):
                        continue
                    if st and sh[0] != sh[1]:
                        vc.holds(nm + ': rejected', isinstance(
                            p.value, PyRaise) and
                            issubclass(p.value.cls, ValueError))
                        continue
                    if not isinstance(p.value, tuple):
                        vc.holds(nm + ': accepted', False, str(p.value))
                        continue
                    r, d, (vs, ps) = p.value
                    vc.holds(nm + ': shape', tuple(r.attrs['shape']) == sh)
                    seen = {}
                    good = True
                    for (i, j), x in d.items():
                        k = STRUCT[st](i, j)
                        if k is None:
                            good = good and isnum(x) and x == 0
                        else:
                            good = good and isinstance(x, SObj) and \
                                x.cls is cls and seen.setdefault(k, x) is x
                    vc.holds(nm + ': the entries are independent but for '
                             'the structure', good and
                             len(set(map(id, seen.values()))) == len(seen))
                    l, o = (vs, ps) if what == 'variable' else (ps, vs)
                    vc.holds(nm + ': its own %ss' % what, not o and
                             set(map(id, l)) == set(map(id, seen.values()))
                             and len(l) == len(seen))
        nm = what + ' of an unknown structure'
        for p in vc.run(make(what, (2, 2), {
                'structure' if what == 'variable' else 'attribute':
                'strange'}), contracts=MXC, name=nm):
            if vc.returns(nm, p):
                vc.holds(nm + ': rejected', isinstance(p.value, PyRaise) and
                         issubclass(p.value.cls, ValueError))

    # values given to parameters: scalar with a sign, and matrix
    x = vc.real('x')
    for at, bad in ((None, False), (DF.NONNEGATIVE, x < 0),
                    (DF.NONPOSITIVE, x > 0)):
        def build(ctx):
            q = par(vc, 'q')
            q.attrs['attribute'] = at
            old = q.attrs['value']
            try:
                ctx.setattr(q, 'value', x)
            except PyRaise as e:
                return 'raise', e, old, ctx.getattr(q, 'value')
            return 'ok', None, x, ctx.getattr(q, 'value')
        nm = 'value of a parameter %s' % at
        for p in vc.run(build, contracts=MXC, name=nm):
            if not vc.returns(nm, p):
                continue
            st, e, want, got = p.value
            b = z3.BoolVal(bad) if isinstance(bad, bool) else bad
            vc.ob(nm + ': rejected exactly if of the wrong sign', p.hyps,
                  b if st == 'raise' else z3.Not(b))
            if e is not None:
                vc.holds(nm + ': ValueError', issubclass(e.cls, ValueError))
            vc.ob(nm + ': kept', p.hyps, seq(got, want))
    for vsh in (S12, S21):
        def build(ctx):
            d = grid(S12, lambda i, j: par(vc, 'q%d%d' % (i, j)))
            q = Arrx(ctx, S12, d)
            q.cls = AR.cvxpy_param
            m = Mx(vsh, entries(vc, 'm', vsh, 'n'))
            try:
                ctx.setattr(q, 'value', m)
            except PyRaise as e:
                return 'raise', e
            return m.d, msem(ctx, q)[1]
        nm = 'value %s of a parameter %s' % (vsh, S12)
        for p in vc.run(build, contracts=MXC, name=nm):
            if not vc.returns(nm, p):
                continue
            if vsh != S12 or p.value[0] == 'raise':
                vc.holds(nm + ': rejected if of other dimensions',
                         p.value[0] == 'raise' and vsh != S12 and
                         issubclass(p.value[1].cls, ValueError))
                continue
            for k in sorted(p.value[0]):
                vc.ob('%s: entry %s' % (nm, k), p.hyps,
                      seq(p.value[1][k], p.value[0][k]))


# -------------------------------------------------------------- at run time
class Ref:
    """a numpy oracle of an expression: value(env) by plain matrix algebra"""
    def __init__(self, e, f, vs, ps, shape):
        self.e, self.f, self.shape = e, f, shape
        self.vs, self.ps = frozenset(vs), frozenset(ps)


def rnd_leaf(d, t, shape):
    r = d.rng
    m, n = shape
    k = r.randrange(4)
    if k == 0:
        e = t.variable(m, n)
        vs = [e] if shape == (1, 1) else [
            e.data[i][j] for i in range(m) for j in range(n)]
        for v in vs:
            v.value = r.uniform(-2, 2)
        w = np.array([v.value for v in vs]).reshape(shape)
        return Ref(e, w, vs, (), shape)
    if k == 1:
        e = t.parameter(m, n)
        w = np.array([r.uniform(-2, 2) for i in range(m * n)]).reshape(shape)
        e.value = float(w[0, 0]) if shape == (1, 1) else t.matrix(w)
        ps = [e] if shape == (1, 1) else [
            e.data[i][j] for i in range(m) for j in range(n)]
        return Ref(e, w, (), ps, shape)
    if k == 2 and m == n > 1:
        e = t.variable(m, n, DF.SYMMETRIC)
        for i in range(m):
            for j in range(i + 1):
                e.data[i][j].value = r.uniform(-2, 2)
        w = np.array([[e.data[i][j].value for j in range(n)]
                      for i in range(m)])
        return Ref(e, w, {e.data[i][j] for i in range(m)
                          for j in range(n)}, (), shape)
    w = np.array([r.choice([0., 1., -1., 2.5, -.5]) for i in range(m * n)]
                 ).reshape(shape)
    if shape == (1, 1):
        return Ref(float(w[0, 0]), w, (), (), shape)
    if k == 2:
        d.sparse = True
        return Ref(t.spmatrix(w), w, (), (), shape)
    return Ref(t.matrix(w), w, (), (), shape)


def rnd_expr(d, t, shape, depth):
    r = d.rng
    if depth == 0 or r.random() < .15:
        return rnd_leaf(d, t, shape)
    m, n = shape
    sub = lambda s: rnd_expr(d, t, s, depth - 1)
    sym = lambda x: not isinstance(x.e, (float, np.matrix)) and \
        not hasattr(x.e, 'tocsr')
    op = r.choice(['+', '-', '*', 's*', 'neg', 'T', 'idx', 'hstack',
                   'vstack', 'reshape', 'diag', 'trace', 'sum'])
    u = lambda *xs: (frozenset().union(*[x.vs for x in xs]),
                     frozenset().union(*[x.ps for x in xs]))
    if op in '+-':
        a, b = sub(shape), sub(shape if r.random() < .6 else (1, 1))
        if not sym(a) and not sym(b):
            return a
        if r.random() < .5 and b.shape != a.shape:
            a, b = b, a
        f = (lambda x, y: x + y) if op == '+' else (lambda x, y: x - y)
        return Ref(f(a.e, b.e), f(a.f, b.f), *u(a, b), shape)
    if op in ('*', 's*'):
        k = r.choice([1, 2, 3])
        a, b = (sub((m, k)), sub((k, n))) if op == '*' else \
            (sub((1, 1)), sub(shape))
        if (a.vs and b.vs) or not sym(a) and not sym(b):
            return b if b.shape == shape else a if a.shape == shape \
                else rnd_leaf(d, t, shape)
        if op == '*' and (1, 1) in (a.shape, b.shape) and \
                a.shape != b.shape and (a.shape[1] != 1 or b.shape[0] != 1):
            return rnd_leaf(d, t, shape)
        if op == 's*' or (1, 1) in (a.shape, b.shape):
            return Ref(a.e * b.e, a.f * b.f, *u(a, b), shape)
        return Ref(a.e * b.e, a.f @ b.f, *u(a, b), shape)
    if op == 'neg':
        a = sub(shape)
        return Ref(-a.e, -a.f, a.vs, a.ps, shape)
    if op == 'T':
        a = sub((n, m))
        if not sym(a):
            return rnd_leaf(d, t, shape)
        return Ref(a.e.T, a.f.T, a.vs, a.ps, shape)
    if op == 'idx' and shape != (1, 1):
        a = sub((m + 1, n + 1))
        if not sym(a):
            return rnd_leaf(d, t, shape)
        k = r.choice([(slice(1, None), slice(None, -1)),
                      (slice(None, m), slice(1, None)),
                      (slice(None, 0, -1), slice(n, None, -1)
                       if n == 0 else slice(0, n))])
        # the lists of an array follow its entries
        e = a.e[k]
        return Ref(e, a.f[k], set(e.variables), set(e.parameters), shape)
    if op in ('hstack', 'vstack') and max(shape) > 1:
        ax = op == 'hstack'
        if shape[ax] < 2:
            return rnd_leaf(d, t, shape)
        j = r.randrange(1, shape[ax])
        a = sub((m, j) if ax else (j, n))
        b = sub((m, n - j) if ax else (m - j, n))
        if any(hasattr(x.e, 'tocsr') for x in (a, b)) or \
                not sym(a) and not sym(b):
            return rnd_leaf(d, t, shape)
        return Ref(getattr(t, op)((a.e, b.e)),
                   getattr(np, op)((a.f, b.f)), *u(a, b), shape)
    if op == 'reshape' and shape != (1, 1):
        a = sub((m * n, 1) if r.random() < .5 else (1, m * n))
        if not sym(a):
            return rnd_leaf(d, t, shape)
        return Ref(t.reshape(a.e, shape), a.f.reshape(shape, order='F'),
                   a.vs, a.ps, shape)
    if op == 'diag' and n == 1 and m > 1:
        a = sub((m, m))
        if not sym(a):
            return rnd_leaf(d, t, shape)
        e = t.diag(a.e)
        return Ref(e, np.diag(a.f).reshape(m, 1), set(e.variables),
                   set(e.parameters), shape)
    if op in ('trace', 'sum') and shape == (1, 1):
        a = sub((2, 2))
        if not sym(a):
            return rnd_leaf(d, t, shape)
        e = getattr(t, op)(a.e)
        v = np.trace(a.f) if op == 'trace' else np.sum(a.f)
        if np.isscalar(e):
            return rnd_leaf(d, t, shape)
        return Ref(e, np.array([[v]]), set(e.variables), set(e.parameters),
                   shape)
    return sub(shape)


@PROP.dyn('random expressions against matrix algebra')
def d_expr(d):
    from pydsm import cvxpy_tdr as t
    import random
    import types
    r = random.Random(int(d.rng.integers(2**31)))
    g = types.SimpleNamespace(rng=r)
    while d.more():
        shape = r.choice([(1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1)])
        d.case(shape=shape)
        g.sparse = False
        try:
            x = rnd_expr(g, t, shape, 4)
        except Exception:
            # not every operation takes sparse operands
            if g.sparse:
                continue
            raise
        if isinstance(x.e, (float, np.matrix)) or hasattr(x.e, 'tocsr'):
            continue
        v = x.e.value
        v = np.array(v.todense() if hasattr(v, 'todense') else v,
                     dtype=float).reshape(x.shape)
        d.cur.update(expression=str(x.e)[:300], sparse=g.sparse)
        d.close(v, x.f, 'value', 1e-9)
        vs, ps = list(x.e.variables), list(x.e.parameters)
        d.expect(set(vs) <= x.vs and set(ps) <= x.ps,
                 'variables and parameters are those of the operands')
        d.expect(len(set(vs)) == len(vs), 'variables listed once')


@PROP.dyn('operands changed and used again')
def d_again(d):
    from pydsm import cvxpy_tdr as t
    while d.more() and d.n < d.top(150):
        r = d.rng
        m, n, k = [int(q) for q in r.integers(1, 4, 3)]
        x = t.variable(m, n) if (m, n) != (1, 1) else t.variable(2, 2)
        m, n = x.shape
        X = r.integers(-3, 4, (m, n)) * 1.
        for i in range(m):
            for j in range(n):
                x[i, j].value = X[i, j]
        kind = ['sparse', 'sparse array'][r.integers(0, 2)]
        left = bool(r.integers(0, 2))
        sh = (k, m) if left else (n, k)
        S = np.zeros(sh)
        s = t.spmatrix(S) if kind == 'sparse' else t.sparray(*sh) if hasattr(
            t, 'sparray') else t.spmatrix(S)
        for step in range(4):
            for q in range(r.integers(0, 3)):
                i, j = [int(r.integers(0, w)) for w in sh]
                S[i, j] = float(r.integers(-2, 3))
                s[i, j] = S[i, j]
            d.case(kind=kind, left=left, step=step, S=S, X=X)
            try:
                y = s*x if left else x*s
            except (TypeError, AttributeError, NotImplementedError):
                if kind == 'sparse':
                    raise
                break
            v = y.value if hasattr(y, 'value') else y
            v = v.todense() if hasattr(v, 'todense') else v
            d.close(np.asarray(v, float).reshape(
                (k, n) if left else (m, k)), S @ X if left else X @ S,
                'product after changes of the sparse matrix', 1e-12, 1e-12)
        # sums leave their terms as they were
        a = x[0, 0] + x[m - 1, n - 1]
        A = X[0, 0] + X[m - 1, n - 1]
        es, vs = [a, x[0, 0] * 2. - x[m - 1, 0]], [A, X[0, 0] * 2 -
                                                   X[m - 1, 0]]
        for step in range(5):
            i, j = r.integers(0, len(es), 2)
            o = r.integers(0, 3)
            es.append(es[i] + es[j] if o == 0 else es[i] - es[j] if o == 1
                      else 2. * es[i])
            vs.append(vs[i] + vs[j] if o == 0 else vs[i] - vs[j] if o == 1
                      else 2. * vs[i])
        d.case(what='sums used again', values=vs)
        for e, v in zip(es, vs):
            d.close(float(e.value if hasattr(e, 'value') else e), v,
                    'value', 1e-12, 1e-12)
