"""Matrix expressions in optimization variables, for the contracts of the
modelling packages (cvxpy, picos, the bundled cvxpy_tdr).

An expression is a grid of blocks; each block is a polynomial in noncommuting
matrix symbols (variables and numeric constants, possibly transposed) with real
coefficients.  Symbol sizes are symbolic.  Numeric arrays become constants that
are recognised by their elements (proved), whatever way they were computed."""
import ast

import z3
from pyvc import interp as P
from pyvc import npmodel as N
from pyvc import solver as S
from pyvc import terms as T
from pyvc.interp import Hooked, isarr
from pyvc.rules import EndPath
from pyvc.terms import I, R, Unsupported, seq, sle, slt, sand, smul, sadd


class Sym:
    def __init__(self, name, shape, symmetric=False, arr=None, value=None):
        self.name, self.shape = name, tuple(shape)
        self.symmetric, self.arr, self.value = symmetric, arr, value

    def __repr__(self):
        return self.name


def state(ctx):
    return ctx.modvals.setdefault('convex', {
        'consts': [], 'vars': [], 'cons': [], 'programs': []})


def samedim(ctx, a, b):
    return T.same(a, b) or ctx.decide(seq(a, b)) is True


def needdim(ctx, a, b, what):
    if not samedim(ctx, a, b):
        if ctx.decide(seq(a, b)) is False:
            raise P.PyRaise(ValueError, ('dimensions: ' + what,))
        ctx.oblige('dimensions agree: ' + what, seq(a, b))


# ---------------------------------------------------------------- polynomials
def fkey(f):
    return (f[0].name, f[1])


def ft(f):
    return (f[0], f[1] if f[0].symmetric else not f[1])


def mt(m):
    return tuple(ft(f) for f in reversed(m))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        c = c if s == 1 else T.sneg(c)
        r[m] = sadd(r[m], c) if m in r else c
    return {m: c for m, c in r.items() if not iszero(c)}


def simp(d):
    return T.unlit(z3.simplify(d)) if T.isz(d) else d


def iszero(c):
    return not T.nf(T.real(c))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            r = padd(r, {m + n: smul(c, d)})
    return r


def pscale(a, k):
    return {m: smul(c, k) for m, c in a.items() if not iszero(smul(c, k))}


class Mat(Hooked):
    """rows, cols: block sizes; cells[i][j]: polynomial"""
    def __init__(self, ctx, rows, cols, cells, api):
        self.rows, self.cols = list(rows), list(cols)
        self.api = api
        self.cells = [[self.norm(ctx, p, r, c) for c, p in zip(cols, row)]
                      for r, row in zip(rows, cells)]

    @staticmethod
    def norm(ctx, p, r, c):
        if not (T.same(r, 1) and T.same(c, 1)):
            return p
        q = {}
        for m, k in p.items():
            n = mt(m)
            if [fkey(f) for f in n] < [fkey(f) for f in m]:
                m = n
            q = padd(q, {m: k})
        return q

    @property
    def plain(self):
        return len(self.rows) == 1 and len(self.cols) == 1

    @property
    def shape(self):
        return total(self.rows), total(self.cols)

    def key(self):
        return repr([[sorted((repr(m), str(c)) for m, c in p.items())
                      for p in row] for row in self.cells])

    # ------------------------------------------------------------- operations
    def h_binop(self, ctx, op, other, reflected):
        if op in ('LShift', 'RShift'):
            o = tomat(ctx, other, self.api)
            less = (op == 'LShift') != reflected
            a, b = (self, o) if less else (o, self)   # a <= b
            return psd(ctx, add(ctx, b, a, -1))
        if op == 'BitAnd' and self.api == 'picos':
            a, b = self, tomat(ctx, other, self.api)
            if reflected:
                a, b = b, a
            return stack(ctx, [[a, b]], self.api)
        if op == 'FloorDiv' and self.api == 'picos':
            a, b = self, tomat(ctx, other, self.api)
            if reflected:
                a, b = b, a
            return stack(ctx, [[a], [b]], self.api)
        if op in ('Add', 'Sub'):
            o = tomat(ctx, other, self.api)
            if op == 'Add':
                return add(ctx, self, o)
            return add(ctx, o, self, -1) if reflected else add(
                ctx, self, o, -1)
        if op == 'Div' or op == 'Mult' and T.isscalar(other) or (
                op == 'Mult' and isarr(other) and other.ndim == 0):
            k = other if not isarr(other) else other.at()
            if op == 'Div':
                if reflected or not T.isscalar(k):
                    raise Unsupported('division by an expression')
                k = T.sdiv(1, k)
            return Mat(ctx, self.rows, self.cols, [[pscale(p, k) for p in r]
                                                   for r in self.cells],
                       self.api)
        if op in ('MatMult', 'Mult'):
            o = tomat(ctx, other, self.api)
            a, b = (o, self) if reflected else (self, o)
            if op == 'Mult' and self.api == 'cvxpy':
                # matrix product for cvxpy when the sizes say so
                raise Unsupported('* between cvxpy expressions')
            return matmul(ctx, a, b)
        return NotImplemented

    def h_unary(self, ctx, op):
        if op == 'USub':
            return Mat(ctx, self.rows, self.cols, [[pscale(p, -1) for p in r]
                                                   for r in self.cells],
                       self.api)
        if op == 'UAdd':
            return self
        raise Unsupported(op)

    def transpose(self, ctx):
        return Mat(ctx, self.cols, self.rows, [
            [{mt(m): c for m, c in self.cells[i][j].items()}
             for i in range(len(self.rows))] for j in range(len(self.cols))],
            self.api)

    def h_getattr(self, ctx, name):
        if name == 'T':
            return self.transpose(ctx)
        if name == 'shape':
            return self.shape
        if name == 'value':
            return value(ctx, self)
        raise Unsupported('%s of an expression' % name)

    def h_abs(self, ctx):
        return norm(ctx, self)

    def h_compare(self, ctx, op, other, reflected):
        o = tomat(ctx, other, self.api)
        if op == '==':
            return Con('eq', add(ctx, self, o, -1))
        if op in ('<=', '>='):
            a, b = (self, o) if (op == '<=') != reflected else (o, self)
            return Con('le', add(ctx, a, b, -1))
        raise Unsupported(op)

    def h_getitem(self, ctx, k):
        if self.api == 'picos' and self.plain and isinstance(k, tuple) and \
                len(k) == 2 and k[1] in (0, slice(None)) and not isinstance(
                    k[0], slice):
            k = k[0]
        if not self.plain:
            raise Unsupported('indexing a block expression')
        if isinstance(k, tuple) and len(k) == 2:
            if isrev(k[0]) and k[1] == slice(None):
                return matmul(ctx, exchange(ctx, self.rows[0], self.api), self)
            if isrev(k[1]) and k[0] == slice(None):
                return matmul(ctx, self, exchange(ctx, self.cols[0], self.api))
            i, j = k
        else:
            if isrev(k):
                return matmul(ctx, exchange(ctx, self.rows[0], self.api), self)
            if isinstance(k, slice):
                raise Unsupported('slice of an expression')
            i, j = (k, 0) if T.same(self.cols[0], 1) else (0, k)
            if not (T.same(self.cols[0], 1) or T.same(self.rows[0], 1)):
                raise Unsupported('linear index in a matrix expression')
        if isinstance(i, slice) or isinstance(j, slice):
            raise Unsupported('slice of an expression')
        m, d = self.rows[0], self.cols[0]
        for q, n in ((i, m), (j, d)):
            ctx.oblige('index of an expression in range', sand(
                sle(0, q), slt(q, n)))
        return Mat(ctx, [1], [1], [[pmul(pmul(
            unit_(ctx, i, m, True), self.cells[0][0]), unit_(ctx, j, d,
                                                             False))]],
            self.api)

    def h_len(self, ctx):
        raise Unsupported('len of an expression')


def isrev(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and \
        isinstance(k.step, int) and k.step == -1


def unit_(ctx, i, n, row):
    if T.same(n, 1):
        return {(): 1}
    s = Sym('e<%s>' % z3.simplify(T.lit(i)), (n, 1))
    s.index = i
    for t in state(ctx).setdefault('units', []):
        if t.name == s.name and T.same(t.shape[0], n):
            s = t
            break
    else:
        state(ctx)['units'].append(s)
    return {((s, row),): 1}


def total(ds):
    r = 0
    for d in ds:
        r = sadd(r, d)
    return T.unlit(z3.simplify(r)) if T.isz(r) else r


def zeromat(ctx, r, c, api):
    return Mat(ctx, [r], [c], [[{}]], api)


def tomat(ctx, x, api):
    if isinstance(x, Mat):
        return x
    if isinstance(x, (list, tuple)):
        x = N.asarr(ctx, list(x))
    if T.isscalar(x):
        return Mat(ctx, [1], [1], [[{(): T.real(x)} if not iszero(x)
                                    else {}]], api)
    if isarr(x):
        if x.ndim == 0:
            return tomat(ctx, x.at(), api)
        if x.ndim == 1:
            # numpy semantics: a vector; column in cvxopt, row in np.matrix
            a = x.reader()
            n = x.shape[0]
            x = N.mkarr((n, 1), lambda ix: a((ix[0],)), x.kind) \
                if api != 'tdr' else N.mkarr((1, n), lambda ix: a((ix[1],)),
                                             x.kind)
        return const(ctx, x, api)
    raise Unsupported('%r in an expression' % (x,))


def eqarr(ctx, a, fn):
    """elements of a equal to fn(i, j), proved"""
    ix = [T.fresh(I, 'e') for _ in a.shape]
    dom = [T.lit(sand(sle(0, i), slt(i, d))) for i, d in zip(ix, a.shape)]
    dom = [q for q in dom if not isinstance(q, bool)]
    try:
        g, w = T.real(a.at(*ix)), T.real(fn(*ix))
        if T.same(g, w):
            return True
        return S.prove(ctx.facts() + dom, seq(g, w), 8000).ok
    except Unsupported:
        return False


def const(ctx, x, api):
    r, c = x.shape
    if T.same(r, 1) and T.same(c, 1):
        v = x.at(0, 0)
        return tomat(ctx, v, api)
    for k in (r, c):                 # by elements along concrete sizes
        if isinstance(k, int) and 2 <= k <= 6:
            rd = x.reader()
            if k is r and isinstance(r, int):
                return stack(ctx, [[N.mkarr((1, c), (
                    lambda q: lambda ix: rd((q, ix[1])))(q), x.kind)]
                    for q in range(r)], api)
            return stack(ctx, [[N.mkarr((r, 1), (
                lambda q: lambda ix: rd((ix[0], q)))(q), x.kind)
                for q in range(c)]], api)
    for s in state(ctx)['consts']:
        for tr in (False, True):
            sh = s.shape[::-1] if tr else s.shape
            if not (samedim(ctx, sh[0], r) and samedim(ctx, sh[1], c)):
                continue
            rd = s.arr.reader()
            if eqarr(ctx, x, (lambda i, j: rd((j, i))) if tr else (
                    lambda i, j: rd((i, j)))):
                if s.symmetric:
                    tr = False
                return Mat(ctx, [r], [c], [[{((s, tr),): 1}]], api)
    if eqarr(ctx, x, lambda i, j: T.ite(seq(i, j), 1, 0)) and samedim(
            ctx, r, c):
        return Mat(ctx, [r], [c], [[{(): 1}]], api)
    if eqarr(ctx, x, lambda i, j: 0):
        return zeromat(ctx, r, c, api)
    if eqarr(ctx, x, lambda i, j: 1):
        return Mat(ctx, [r], [c], [[ones(ctx, r, c)]], api)
    st = state(ctx)['consts']
    s = Sym('const%d' % len(st), (r, c), arr=x.copy())
    st.append(s)
    return Mat(ctx, [r], [c], [[{((s, False),): 1}]], api)


def ones(ctx, r, c):
    def one(n):
        if T.same(n, 1):
            return ()
        for s in state(ctx).setdefault('ones', []):
            if samedim(ctx, s.shape[0], n):
                return ((s, False),)
        s = Sym('1s%d' % len(state(ctx)['ones']), (n, 1))
        state(ctx)['ones'].append(s)
        return ((s, False),)
    return {one(r) + mt(one(c)): 1}


def named(ctx, name, arr, symmetric=False):
    """constant of the specification"""
    s = Sym(name, arr.shape, symmetric, arr)
    state(ctx)['consts'].append(s)
    return s


def exchange(ctx, n, api):
    if T.same(n, 1):
        return tomat(ctx, 1, api)
    a = N.mkarr((n, n), lambda ix: T.ite(seq(sadd(ix[0], ix[1]), T.ssub(n, 1)),
                                         1, 0), 'f')
    for s in state(ctx)['consts']:
        if s.name == 'J' and samedim(ctx, s.shape[0], n):
            return Mat(ctx, [n], [n], [[{((s, False),): 1}]], api)
    s = named(ctx, 'J', a, True)
    return Mat(ctx, [n], [n], [[{((s, False),): 1}]], api)


def variable(ctx, name, r, c, api, symmetric=False, positive=False):
    st = state(ctx)
    r, c = simp(r), simp(c)
    s = Sym('v%d:%s' % (len(st['vars']), name), (r, c), symmetric)
    s.positive = positive
    st['vars'].append(s)
    m = Mat(ctx, [r], [c], [[{((s, False),): 1}]], api)
    return m


def add(ctx, a, b, s=1):
    for x, y in ((a, b), (b, a)):
        if x.plain and not y.plain:
            one = T.same(x.rows[0], 1) and T.same(x.cols[0], 1)
            if not x.cells[0][0]:
                return y if x is a and s == 1 or x is b else y.h_unary(
                    ctx, 'USub')
            if one:
                raise Unsupported('scalar added to a block expression')
    if a.plain and b.plain:
        sc = [T.same(q.rows[0], 1) and T.same(q.cols[0], 1) for q in (a, b)]
        if sc[0] != sc[1]:
            big, small = (b, a) if sc[0] else (a, b)
            w = Mat(ctx, big.rows, big.cols, [[pmul(small.cells[0][0], ones(
                ctx, big.rows[0], big.cols[0]))
                if () in small.cells[0][0] and len(small.cells[0][0]) == 1
                else unsupported('broadcast of an expression')
                if small.cells[0][0] else {}]], a.api)
            a, b = (w, b) if sc[0] else (a, w)
    if len(a.rows) != len(b.rows) or len(a.cols) != len(b.cols):
        raise Unsupported('sum of differently partitioned expressions')
    for x, y in zip(a.rows + a.cols, b.rows + b.cols):
        needdim(ctx, x, y, 'sum')
    return Mat(ctx, a.rows, a.cols, [[padd(p, q, s) for p, q in zip(u, v)]
                                     for u, v in zip(a.cells, b.cells)],
               a.api)


def unsupported(w):
    raise Unsupported(w)


def whole(ctx, m):
    """a block expression as one symbol"""
    if m.plain:
        return m
    nm = 'blk' + m.key()
    for s in state(ctx).setdefault('blocks', []):
        if s.name == nm:
            break
    else:
        s = Sym(nm, m.shape)
        s.block = m
        state(ctx)['blocks'].append(s)
    return Mat(ctx, [m.shape[0]], [m.shape[1]], [[{((s, False),): 1}]], m.api)


def matmul(ctx, a, b):
    one = [T.same(q.rows[0], 1) and T.same(q.cols[0], 1) and q.plain
           for q in (a, b)]
    if one[0] or one[1]:
        k, m = (a, b) if one[0] else (b, a)
        if not (one[0] and one[1]):
            p = k.cells[0][0]
            if not p or list(p) == [()]:
                return m.h_binop(ctx, 'Mult', p.get((), 0), False)
    if len(a.cols) != len(b.rows) or not all(
            samedim(ctx, x, y) for x, y in zip(a.cols, b.rows)):
        a, b = whole(ctx, a), whole(ctx, b)
        needdim(ctx, a.cols[0], b.rows[0], 'product')
    cells = []
    for i in range(len(a.rows)):
        row = []
        for j in range(len(b.cols)):
            p = {}
            for k in range(len(a.cols)):
                p = padd(p, pmul(a.cells[i][k], b.cells[k][j]))
            row.append(p)
        cells.append(row)
    return Mat(ctx, a.rows, b.cols, cells, a.api)


def stack(ctx, rows, api):
    """block matrix of expressions"""
    out_rows, cols, cells = [], None, []
    rows = [[tomat(ctx, x, api) for x in r] for r in rows]
    # rows that are one zero cell take the partition of the others
    part = None
    for r in rows:
        q = [c for x in r for c in x.cols]
        if part is None or len(q) > len(part):
            part = q
    for r in rows:
        heights = r[0].rows
        for x in r[1:]:
            if len(x.rows) != len(heights):
                zero = x.plain and not x.cells[0][0]
                if not zero:
                    raise Unsupported('blocks of different partitions')
                needdim(ctx, total(heights), x.rows[0], 'blocks')
                x.rows, x.cells = list(heights), [
                    [{}] for _ in heights]
            for u, v in zip(heights, x.rows):
                needdim(ctx, u, v, 'blocks')
        cs = [c for x in r for c in x.cols]
        cl = [[p for x in r for p in x.cells[i]] for i in range(len(heights))]
        if len(cs) != len(part):
            if all(not p for q in cl for p in q):
                needdim(ctx, total(cs), total(part), 'blocks')
                cs, cl = part, [[{} for _ in part] for _ in heights]
            else:
                raise Unsupported('blocks of different partitions')
        for u, v in zip(cs, part):
            needdim(ctx, u, v, 'blocks')
        out_rows += heights
        cells += cl
    return known(ctx, Mat(ctx, out_rows, part, cells, api))


def known(ctx, m):
    """a numeric block matrix that is one of the constants"""
    def el(i, j):
        r = 0
        u = 0
        for h, row in zip(m.rows, m.cells):
            v = 0
            for w, p in zip(m.cols, row):
                if p:
                    inside = sand(sle(u, i), slt(i, sadd(u, h)), sle(v, j),
                                  slt(j, sadd(v, w)), True if T.same(h, 1) and
                                  T.same(w, 1) else seq(T.ssub(i, u), T.ssub(
                                      j, v)))
                    r = T.ite(inside, p[()], r)
                v = sadd(v, w)
            u = sadd(u, h)
        return r
    if m.plain or any(list(p) not in ([], [()]) for r in m.cells for p in r):
        return m
    r, c = m.shape
    if isinstance(r, int) and isinstance(c, int):
        return m
    for s in state(ctx)['consts']:
        for tr in (False, True):
            sh = s.shape[::-1] if tr else s.shape
            if samedim(ctx, sh[0], r) and samedim(ctx, sh[1], c) and eqarr(
                    ctx, s.arr, (lambda i, j: el(j, i)) if tr else el):
                return Mat(ctx, [r], [c], [[{((s, tr and not s.symmetric),):
                                             1}]], m.api)
    return m


def norm(ctx, m):
    if not (T.same(m.shape[1], 1) or T.same(m.shape[0], 1)):
        raise Unsupported('norm of a matrix')
    return node(ctx, 'norm2', whole(ctx, m))


def node(ctx, fn, m):
    nm = fn + '(' + m.key() + ')'
    for s in state(ctx).setdefault('nodes', []):
        if s.name == nm:
            break
    else:
        s = Sym(nm, (1, 1), True)
        s.fn, s.arg = fn, m
        state(ctx)['nodes'].append(s)
    return Mat(ctx, [1], [1], [[{((s, False),): 1}]], m.api)


def msum(ctx, m):
    r, c = m.shape
    o = [ones(ctx, 1, r), ones(ctx, c, 1)]
    m = whole(ctx, m)
    return Mat(ctx, [1], [1], [[pmul(pmul(o[0], m.cells[0][0]), o[1])]], m.api)


def sumseq(ctx, seq_, api):
    """sum of the elements v[0] .. v[n-1] given by a comprehension"""
    if isinstance(seq_, Mat):
        return msum(ctx, seq_)
    if isinstance(seq_, P.SIter):
        seq_ = list(seq_.items)
    if isinstance(seq_, (list, tuple)):
        r = tomat(ctx, 0, api)
        for x in seq_:
            r = add(ctx, r, tomat(ctx, x, api))
        return r
    if not isinstance(seq_, P.SSeq):
        raise Unsupported('sum of %r' % (seq_,))
    k = T.fresh(I, 'k')
    base = len(ctx.pc)
    ctx.pc.extend([T.lit(sle(0, k)), T.lit(slt(k, seq_.n))])
    e = seq_.fn(k)
    del ctx.pc[base:]
    if not isinstance(e, Mat) or not e.plain:
        raise Unsupported('sum of these terms')
    p = {}
    for m, c in e.cells[0][0].items():
        us = [q for q, f in enumerate(m) if getattr(f[0], 'index', None)
              is not None and T.same(f[0].index, k)]
        if len(us) != 1 or str(k) in {str(q) for q in T.free_consts(
                T.lit(c)).values()} if T.isz(c) else len(us) != 1:
            raise Unsupported('sum of these terms')
        q = us[0]
        n = m[q][0].shape[0]
        needdim(ctx, n, seq_.n, 'sum over all elements')
        o = list(ones(ctx, n, 1))[0]
        o = mt(o) if m[q][1] else o
        p = padd(p, {m[:q] + o + m[q + 1:]: c})
    return Mat(ctx, [1], [1], [[p]], e.api)


def value(ctx, m):
    """numeric value given by the solver"""
    st = state(ctx)
    if not st['programs']:
        return None
    s = [f for p in m.cells[0] for q in p for f in q]
    if not m.plain or len(m.cells[0][0]) != 1 or list(
            m.cells[0][0].values()) != [1] or len(s) != 1:
        raise Unsupported('value of an expression')
    s, tr = s[0]
    if s.value is None:
        # one coefficient function for vectors
        f = z3.Function('value.' + s.name, I, I, R)
        s.value = f
    f = s.value
    a = N.mkarr(m.shape, lambda ix: f(*[T.lit(q) for q in (
        ix[::-1] if tr else ix)]), 'f')
    if m.api == 'picos':
        n = T.smul(*m.shape)
        if ctx.branch(seq(n, 1)):
            return a.at(0, 0)
        a = Plain(a)
    return a


class Plain(Hooked):
    """cvxopt matrix: converts to an array, has T"""
    def __init__(self, arr):
        self.arr = arr

    def h_array(self, ctx):
        return self.arr

    def h_getattr(self, ctx, name):
        if name == 'T':
            a = self.arr
            return Plain(N.mkarr(a.shape[::-1], lambda ix: a.at(*ix[::-1]),
                                 'f'))
        if name == 'size':
            return self.arr.shape
        raise P.PyRaise(AttributeError, (name,))


# ---------------------------------------------------------------- constraints
class Con(Hooked):
    """psd: m >= 0 (semidefinite); eq: m == 0; le: m <= 0"""
    def __init__(self, kind, m):
        self.kind, self.m = kind, m

    def __repr__(self):
        return 'Con(%s)' % self.kind


def psd(ctx, m):
    if T.same(m.shape[0], 1) and m.plain:
        return Con('le', m.h_unary(ctx, 'USub'))
    return Con('psd', m)


class Marker:
    """constraints added by the iterations of a loop"""
    def __init__(self, loop):
        self.loop = loop


def psame(vc, name, facts, p, q):
    ks = set(p) | set(q)
    for m in ks:
        c, d = p.get(m, 0), q.get(m, 0)
        if not T.same(c, d) and not vc.ob(
                '%s: coefficient of %s' % (name, ' '.join(
                    f[0].name.split(':')[-1] + ("'" if f[1] else '')
                    for f in m)[:80] or '1'), facts, seq(T.real(c), T.real(
                        d))):
            return False
    return True


def msame(vc, name, facts, a, b):
    """two expressions have the same blocks: one obligation each"""
    if len(a.rows) != len(b.rows) or len(a.cols) != len(b.cols):
        return vc.holds(name + ': block structure', False, '%s / %s' % (
            a.shape, b.shape))
    ok = True
    for x, y in zip(a.rows + a.cols, b.rows + b.cols):
        if not T.same(x, y):
            ok = vc.ob(name + ': size', facts, seq(x, y)) and ok
    for i, (u, v) in enumerate(zip(a.cells, b.cells)):
        for j, (p, q) in enumerate(zip(u, v)):
            r = psame(vc, '%s[%d][%d]' % (name, i, j), facts, p, q)
            vc.holds('%s: block [%d][%d]' % (name, i, j), r)
            ok = ok and r
    return ok


def support(m):
    """monomials of each block"""
    return [[sorted(repr(k) for k in p) for p in r] for r in m.cells]


def distance(a, b):
    if len(a.rows) != len(b.rows) or len(a.cols) != len(b.cols):
        return 10 ** 6
    n = 0
    for u, v in zip(a.cells, b.cells):
        for p, q in zip(u, v):
            n += len(set(p) ^ set(q))
            n += sum(0 if T.same(p[k], q[k]) else 0.1 for k in set(p) & set(q))
    return n


def consame(vc, name, ctx, got, want):
    """the constraints got are exactly the ones of want [(label, Con)] (each at
    least once)"""
    facts = ctx.facts()
    used = set()
    for s in state(ctx)['vars']:
        if getattr(s, 'positive', False):
            got = got + [Con('psd', Mat(ctx, [s.shape[0]], [s.shape[1]],
                                        [[{((s, False),): 1}]], 'x'))]
    for label, w in want:
        best = None
        for k, g in enumerate(got):
            if not isinstance(g, Con):
                continue
            if g.kind != w.kind:
                continue
            alts = [g.m]
            if g.kind == 'eq':
                alts.append(g.m.h_unary(ctx, 'USub'))
            for a in alts:
                d = distance(a, w.m)
                if best is None or d < best[0]:
                    best = (d, k, a)
        if best is None:
            vc.holds('%s: %s' % (name, label), False, 'no such constraint')
            continue
        used.add(best[1])
        msame(vc, '%s: %s' % (name, label), facts, best[2], w.m)
        for k, g in enumerate(got):       # the same constraint once more
            if k not in used and isinstance(g, Con) and g.kind == w.kind \
                    and distance(g.m, w.m) == 0:
                used.add(k)
    extra = [g for k, g in enumerate(got) if k not in used]
    vc.holds('%s: no other constraint' % name, not extra, repr(extra))


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def bands_hook(check):
    """hook for opts['for']: a generic iteration is executed and the
    constraints it adds are given to check; afterwards the containers the body
    refers to hold a marker for the constraints of all the iterations"""
    def hook(ctx, st, env, it):
        if isinstance(it, P.SRange):
            lo, hi, item = it.lo, it.hi, lambda i: i
            if it.step != 1:
                return False
        else:
            s = ctx.symbolic_iter(it)
            if s is None:
                return False
            lo, hi, item = 0, s[0], s[1]
        cl = [x.id for b in st.body for x in ast.walk(b) if isinstance(
            x, ast.Name) and isinstance(env.vars.get(x.id), (list, Problem))]
        if not cl:
            return False
        boxes = {n: (env.vars[n].cons if isinstance(env.vars[n], Problem)
                     else env.vars[n]) for n in cl}
        for b in st.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) \
                        and x.id not in cl:
                    env.vars.pop(x.id, None)
                if isinstance(x, (ast.Break, ast.Return, ast.Global,
                                  ast.Nonlocal)):
                    raise Unsupported('way out of a loop over bands')
        if ctx.branch(T.fresh(T.B, 'after')):
            mk = Marker((lo, hi))
            ctx.assume(sle(lo, hi))
            for n in boxes:
                if isinstance(env.vars[n], Problem):
                    env.vars[n].cons.append(mk)
                else:
                    env.vars[n] = env.vars[n] + [mk]
            return
        k = T.fresh(I, 'idx')
        ctx.assume(sand(sle(lo, k), slt(k, hi)))
        old = {n: list(b) for n, b in boxes.items()}
        nv = len(state(ctx)['vars'])
        ctx.assign(st.target, item(k), env)
        try:
            ctx.exec_block(st.body, env)
        except P.ContinueSig:
            pass
        new = []
        for n in boxes:
            b = env.vars[n]
            b = b.cons if isinstance(b, Problem) else b
            if b[:len(old[n])] != old[n]:
                raise Unsupported('constraints dropped in a loop')
            new += b[len(old[n]):]
        check(ctx, k, list(flat(new)), state(ctx)['vars'][nv:])
        raise EndPath()
    return hook


class Problem(Hooked):
    """problem object of picos or cvxpy / program of cvxpy_tdr"""
    def __init__(self, api, sense=None, obj=None, cons=(), kw=None):
        self.api, self.sense, self.obj = api, sense, obj
        self.cons = list(cons)
        self.kw = kw or {}
        self.options = {}

    def h_getattr(self, ctx, name):
        if name == 'options' and self.api == 'tdr':
            return self.options
        if name == 'solve':
            return P.BoundModel(Problem.solve, self, 'solve')
        if name == 'add_constraint' and self.api == 'picos':
            return P.BoundModel(lambda ctx, o, c: o.cons.append(c), self, name)
        if name == 'add_list_of_constraints' and self.api == 'picos':
            return P.BoundModel(lambda ctx, o, c: o.cons.extend(
                flat(ctx.iterate(c))), self, name)
        if name == 'set_objective' and self.api == 'picos':
            def so(ctx, o, sense, e):
                o.sense, o.obj = sense, e
            return P.BoundModel(so, self, name)
        if name == 'minimize' and self.api == 'picos':
            raise Unsupported(name)
        raise Unsupported('%s of a problem' % name)

    def h_setattr(self, ctx, name, v):
        if name == 'options' and isinstance(v, dict):
            self.options = v
            return
        raise Unsupported(name)

    @staticmethod
    def solve(ctx, o, *args, **kw):
        state(ctx)['programs'].append(dict(
            api=o.api, sense=o.sense, obj=o.obj, cons=list(flat(o.cons)),
            args=args, kw=dict(kw), options=dict(o.options), made=o.kw))
        return T.fresh(R, 'optimum')


# --------------------------------------------------------------- the packages
def models():
    """contracts of the modelling packages, keyed by the real callables"""
    import cvxopt
    import cvxpy
    import picos
    from pydsm import cvxpy_tdr as tdr
    c = {}

    def on(*fs):
        def deco(g):
            for f in fs:
                c[id(f)] = g
            return g
        return deco

    def dims(ctx, shape):
        if isinstance(shape, (tuple, list)):
            shape = tuple(shape)
            return shape if len(shape) == 2 else shape + (1,) if shape else (
                1, 1)
        return shape, 1

    # cvxpy
    @on(cvxpy.Variable)
    def _(ctx, shape=(), name=None, symmetric=False, PSD=False, **kw):
        if kw:
            raise Unsupported('cvxpy variable %s' % sorted(kw))
        if not (isinstance(shape, tuple) and len(shape) in (0, 2)):
            raise Unsupported('one-dimensional cvxpy variable')
        r, k = dims(ctx, shape)
        return variable(ctx, name or 'var', r, k, 'cvxpy', symmetric or PSD,
                        PSD)

    @on(cvxpy.bmat)
    def _(ctx, rows):
        return stack(ctx, [ctx.iterate(r) for r in ctx.iterate(rows)],
                     'cvxpy')

    @on(cvxpy.vstack)
    def _(ctx, xs):
        return stack(ctx, [[x] for x in ctx.iterate(xs)], 'cvxpy')

    @on(cvxpy.hstack)
    def _(ctx, xs):
        return stack(ctx, [list(ctx.iterate(xs))], 'cvxpy')

    @on(cvxpy.norm2)
    def _(ctx, m):
        return norm(ctx, tomat(ctx, m, 'cvxpy'))

    @on(cvxpy.norm)
    def _(ctx, m, p=2, axis=None):
        if p != 2 or axis is not None:
            raise Unsupported('norm')
        return norm(ctx, tomat(ctx, m, 'cvxpy'))

    @on(cvxpy.max)
    def _(ctx, m):
        return node(ctx, 'max', tomat(ctx, m, 'cvxpy'))

    @on(cvxpy.sum)
    def _(ctx, m):
        return sumseq(ctx, m, 'cvxpy')

    @on(cvxpy.Minimize)
    def _(ctx, e):
        return ('min', e)

    @on(cvxpy.Maximize)
    def _(ctx, e):
        return ('max', e)

    @on(cvxpy.Problem)
    def _(ctx, objective, constraints=()):
        return Problem('cvxpy', objective[0], objective[1], flat(
            constraints))

    # picos
    @on(picos.RealVariable)
    def _(ctx, name, shape=(1, 1), **kw):
        if kw:
            raise Unsupported('picos variable %s' % sorted(kw))
        r, k = dims(ctx, shape)
        return variable(ctx, name if isinstance(name, str) else 'var', r, k,
                        'picos')

    @on(picos.SymmetricVariable)
    def _(ctx, name, shape=(1, 1), **kw):
        if kw:
            raise Unsupported('picos variable %s' % sorted(kw))
        r = shape[0] if isinstance(shape, tuple) else shape
        return variable(ctx, name if isinstance(name, str) else 'var', r, r,
                        'picos', True)

    @on(picos.Problem)
    def _(ctx, *a, **kw):
        if a:
            raise Unsupported('picos.Problem arguments')
        return Problem('picos', kw=kw)

    @on(picos.sum)
    def _(ctx, xs):
        return sumseq(ctx, xs, 'picos')

    @on(picos.max)
    def _(ctx, m):
        return node(ctx, 'max', tomat(ctx, m, 'picos'))

    @on(picos.sum_k_largest)
    def _(ctx, m, k):
        if k != 1:
            raise Unsupported('sum_k_largest')
        return node(ctx, 'max', tomat(ctx, m, 'picos'))

    @on(cvxopt.matrix)
    def _(ctx, x):
        return tomat(ctx, x, 'picos')

    # cvxpy_tdr
    def tvar(ctx, m=1, n=1, structure=None, name=None):
        if structure not in (None, 'symmetric'):
            raise Unsupported('structure')
        return variable(ctx, name if isinstance(name, str) else 'var', m, n,
                        'tdr', structure == 'symmetric')
    c[id(tdr.variable)] = c[id(tdr.arrays.cvxpy_var)] = tvar

    @on(tdr.matrix)
    def _(ctx, x):
        return tomat(ctx, x, 'tdr')

    @on(tdr.zeros)
    def _(ctx, shape):
        r, k = dims(ctx, shape)
        return zeromat(ctx, r, k, 'tdr')

    @on(tdr.ones)
    def _(ctx, shape):
        r, k = dims(ctx, shape)
        return Mat(ctx, [r], [k], [[ones(ctx, r, k)]], 'tdr')

    @on(tdr.eye)
    def _(ctx, n):
        return Mat(ctx, [n], [n], [[{(): 1}]], 'tdr')

    @on(tdr.vstack)
    def _(ctx, xs):
        return stack(ctx, [[x] for x in ctx.iterate(xs)], 'tdr')

    @on(tdr.hstack)
    def _(ctx, xs):
        return stack(ctx, [list(ctx.iterate(xs))], 'tdr')

    @on(tdr.norm2)
    def _(ctx, m):
        return norm(ctx, tomat(ctx, m, 'tdr'))

    @on(tdr.max)
    def _(ctx, m):
        return node(ctx, 'max', tomat(ctx, m, 'tdr'))

    @on(tdr.sum)
    def _(ctx, m):
        return sumseq(ctx, m, 'tdr')

    @on(tdr.belongs)
    def _(ctx, m, cone):
        if not (cone is tdr.semidefinite_cone or getattr(
                cone, 'real', None) is tdr.semidefinite_cone or getattr(
                cone, 'cls', None) is type(tdr.semidefinite_cone)):
            raise Unsupported('set %r' % (cone,))
        return psd(ctx, tomat(ctx, m, 'tdr'))

    @on(tdr.equals)
    def _(ctx, a, b):
        return tomat(ctx, a, 'tdr').h_compare(ctx, '==', b, False)

    @on(tdr.less_equals)
    def _(ctx, a, b):
        return tomat(ctx, a, 'tdr').h_compare(ctx, '<=', b, False)

    @on(tdr.greater_equals)
    def _(ctx, a, b):
        return tomat(ctx, a, 'tdr').h_compare(ctx, '>=', b, False)

    @on(tdr.minimize)
    def _(ctx, e):
        return ('min', e)

    @on(tdr.maximize)
    def _(ctx, e):
        return ('max', e)

    @on(tdr.program)
    def _(ctx, objective, constraints=(), *a, **kw):
        if a or kw:
            raise Unsupported('arguments of program')
        return Problem('tdr', objective[0], objective[1], flat(constraints))
    return c
