"""Models (assumed contracts) of the Python builtins and of the NumPy/SciPy
functions that the code under contract calls.  Every model used by a proof is
reported in the evidence as part of the trusted base."""
import builtins
import itertools
import math
import operator
import types
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import terms as T
from .interp import Hooked as P_Hooked
from .interp import (MODELS, Arr, Bound, BoundModel, Buf, Ctx, ExcObj, KINDS,
                     Opaque, Poison, PyRaise, SFunc, SIter, SObj, SRange, SList, OSet,
                     SSeq, _MISSING, _class_lookup, cast, concrete_shape,
                     indices, isarr, kind_of, kmax, lit_array, model)
from .terms import (Cx, I, Inf, R, Rz, Unsupported, isbool, isint, isnum,
                    isscalar, isz, ite, sabs, sadd, sand, sceil, scos, sdiv,
                    seq, sexp, sfloor, sfloordiv, sge, sgt, sle, slog, slog10,
                    slt, smax, smin, smod, smul, sne, sneg, snot, sor, spow,
                    sprod, ssin, ssqrt, ssub, ssum, tobool)


def dimval(d):
    if isz(d):
        return T.unlit(z3.simplify(d))
    return d


def memo_fn(fn):
    memo = {}

    def g(idx):
        k = tuple(x if isinstance(x, int) else ('z', x.get_id())
                  for x in idx)
        if k not in memo:
            memo[k] = (fn(idx), idx)
        return memo[k][0]
    return g


def mkarr(shape, fn, kind):
    a = Arr([dimval(d) for d in shape], memo_fn(fn), kind)
    return a


def const_arr(shape, v, kind=None):
    kind = kind or kind_of(v)
    v = cast(v, kind)
    return Arr([dimval(d) for d in shape], lambda idx: v, kind)


def items_of(ctx, x):
    if isinstance(x, (list, tuple)):
        return list(x)
    return ctx.iterate(x)


def asarr(ctx, x, copy=False):
    """np.asarray"""
    if isinstance(x, Arr):
        return x.copy() if copy else x
    if isinstance(x, Poison):
        raise Unsupported(x.why)
    if isscalar(x):
        return Arr((), lambda idx: x, kind_of(x))
    if isinstance(x, SSeq):
        probe = x.fn(0 if isinstance(x.n, int) and x.n > 0
                     else T.fresh(I, 'pr'))
        if isscalar(probe):
            kind = kind_of(probe)
            return mkarr((x.n,), lambda idx: cast(x.fn(idx[0]), kind), kind)
        pa = asarr(ctx, probe)
        return mkarr((x.n,) + pa.shape,
                     lambda idx: asarr(ctx, x.fn(idx[0])).at(*idx[1:]),
                     pa.kind)
    if isinstance(x, SRange):
        n = ssub(x.hi, x.lo)
        if x.step == 1:
            return mkarr((n,), lambda idx: sadd(x.lo, idx[0]), 'i')
        x = ctx.iterate(x)
    if isinstance(x, (list, tuple)):
        if not x:
            return Arr((0,), lambda idx: Fraction(0), 'f')
        els = [asarr(ctx, y) for y in x]
        nd = max(e.ndim for e in els)
        if any(e.ndim != nd for e in els):
            raise PyRaise(ValueError, ('inhomogeneous shape',))
        sh = els[0].shape
        for e in els[1:]:
            for p, q in zip(sh, e.shape):
                if not ctx.branch(seq(p, q)):
                    raise PyRaise(ValueError, ('inhomogeneous shape',))
        kind = kmax(*[e.kind for e in els])
        rd = [e.reader() for e in els]

        def fn(idx):
            j = idx[0]
            if isinstance(j, int):
                return cast(rd[j](idx[1:]), kind)
            j = T.unlit(z3.simplify(j))
            if isinstance(j, int):
                return cast(rd[j](idx[1:]), kind)
            acc = cast(rd[-1](idx[1:]), kind)
            for t in range(len(rd) - 2, -1, -1):
                acc = ite(seq(j, t), cast(rd[t](idx[1:]), kind), acc)
            return acc
        return mkarr((len(els),) + sh, fn, kind)
    if x is None or isinstance(x, (str, SObj, Opaque)):
        return Arr((), lambda idx: x, 'O')
    if hasattr(x, 'h_array'):
        return x.h_array(ctx)
    raise Unsupported('array of %r' % (x,))


def unbox(a):
    """0-d array -> scalar"""
    if isinstance(a, Arr) and a.ndim == 0:
        return a.at()
    return a


def isarraylike(x):
    return isinstance(x, (Arr, list, tuple, SSeq))


def bcast(ctx, shapes):
    nd = max([len(s) for s in shapes] + [0])
    out = []
    for ax in range(nd):
        d = 1
        for s in shapes:
            k = ax - (nd - len(s))
            if k < 0:
                continue
            e = dimval(s[k])
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            if isinstance(d, int) and isinstance(e, int):
                if d != e:
                    raise PyRaise(ValueError, ('operands could not be '
                                               'broadcast together',))
                continue
            v = ctx.decide(seq(d, e))
            if v is True:
                continue
            if ctx.branch(seq(d, e)):
                continue
            if ctx.branch(seq(e, 1)):
                continue
            if ctx.branch(seq(d, 1)):
                d = e
                continue
            raise PyRaise(ValueError, ('operands could not be broadcast '
                                       'together',))
        out.append(d)
    return tuple(out)


def bmap(ctx, shape, out):
    """index map from the broadcast shape to one operand"""
    off = len(out) - len(shape)
    sel = []
    for k, d in enumerate(shape):
        d = dimval(d)
        o = out[off + k]
        if isinstance(d, int) and d == 1:
            sel.append(None if not (isinstance(o, int) and o == 1) else
                       off + k)
            sel[-1] = None
        elif not isinstance(d, int) and not (d is o or T.same(d, o)) and \
                ctx.decide(seq(d, 1)) is True:
            sel.append(None)
        else:
            sel.append(off + k)
    return lambda idx: tuple(0 if s is None else idx[s] for s in sel)


@model(np.broadcast_arrays)
def np_broadcast_arrays(ctx, *xs, subok=False):
    xs = [asarr(ctx, x) for x in xs]
    out = bcast(ctx, [x.shape for x in xs])
    res = []
    for x in xs:
        m, rd = bmap(ctx, x.shape, out), x.reader()
        r = mkarr(out, lambda ix, m=m, rd=rd: rd(m(ix)), x.kind)
        res.append(r)
    return tuple(res)


class MArr(Arr):
    """x[mask] of symbolic length: known through x and the mask"""
    def __init__(self, full, kind, mask, mshape, n):
        Arr.__init__(self, (n,), self._no, kind)
        self.full, self.mask, self.mshape = full, mask, mshape

    @staticmethod
    def _no(idx):
        raise Unsupported('element of a masked selection')


def masked_elementwise(ctx, fn, args, kind):
    ms = [a for a in args if isinstance(a, MArr)]
    m0 = ms[0]
    for a in args:
        if isarr(a) and not isinstance(a, MArr) and a.ndim > 0:
            raise Unsupported('masked selection with another array')
        if isinstance(a, MArr) and not same_mask(ctx, a, m0):
            raise Unsupported('different masks')
    fs = [a.full if isinstance(a, MArr) else
          (lambda idx, a=unbox(a): a) for a in args]
    if kind is None:
        kind = kind_of(fn(*[kindprobe(a) for a in args]))
    return MArr(memo_fn(lambda idx: cast(fn(*[f(idx) for f in fs]), kind)),
                kind, m0.mask, m0.mshape, m0.shape[0])


def same_mask(ctx, a, b):
    if a.mask is b.mask:
        return True
    if len(a.mshape) != len(b.mshape):
        return False
    ix = tuple(T.fresh(I, 'mm') for _ in a.mshape)
    x, y = a.mask(ix), b.mask(ix)
    if T.same(x, y):
        return True
    from . import solver as S
    return S.prove(ctx.facts(), T.lit(x) == T.lit(y), 3000).ok


def elementwise(ctx, fn, args, kind=None):
    args = [asarr(ctx, a) if isarraylike(a) else a for a in args]
    if any(isinstance(a, MArr) for a in args):
        return masked_elementwise(ctx, fn, args, kind)
    if not any(isarr(a) for a in args):
        r = fn(*args)
        return cast(r, kind) if kind else r
    arrs = [a for a in args if isarr(a)]
    if all(a.ndim == 0 for a in arrs):
        r = fn(*[a.at() if isarr(a) else a for a in args])
        return cast(r, kind) if kind else r
    out = bcast(ctx, [a.shape for a in arrs])
    rd = []
    for a in args:
        if isarr(a):
            m = bmap(ctx, a.shape, out)
            f = a.reader()
            rd.append(lambda idx, f=f, m=m: f(m(idx)))
        else:
            rd.append(lambda idx, a=a: a)
    if kind is None:
        try:
            probe = fn(*[kindprobe(a) for a in args])
        except Unsupported:
            probe = fn(*[a if isnum(a) else kindprobe(a) for a in args])
        kind = kind_of(probe)
    r = mkarr(out, lambda idx: cast(fn(*[f(idx) for f in rd]), kind), kind)
    r.contig = all(a.contig for a in arrs)
    if any(a.dt == '?' for a in arrs):
        r.dt = '?'
    return r


def kindprobe(a):
    """a symbolic value of the kind of a"""
    k = kind_of(a)
    return {'b': z3.Bool('pb!'), 'i': z3.Int('pi!'), 'f': z3.Real('pf!'),
            'c': Cx(z3.Real('pf!'), z3.Real('pg!')),
            'z': Rz(z3.Real('pf!'))}.get(k, a)


def deg_pow(a, b):
    return spow(a, b)


_OPS = {'Add': sadd, 'Sub': ssub, 'Mult': smul, 'Div': None, 'Pow': None,
        'FloorDiv': sfloordiv, 'Mod': smod}


def npadd(a, b):
    if isbool(a) and isbool(b):
        return sor(a, b)
    return sadd(a, b)


def npmul(a, b):
    if isbool(a) and isbool(b):
        return sand(a, b)
    return smul(a, b)


def npdiv(a, b):
    a, b = T._arith(a), T._arith(b)
    if isnum(b) and b == 0 and isnum(a):
        if a == 0:
            return Inf(0)
        return Inf(1 if a > 0 else -1)
    if isinstance(a, int) and isinstance(b, int):
        return Fraction(a, b)
    return sdiv(a, b)


def nppow(a, b):
    if isnum(a) and isint(a) and isnum(b) and not isint(b):
        a = Fraction(a)
    if isz(a) and a.sort() == I and not isint(b):
        a = T.real(a)
    r = spow(a, b)
    if isnum(b) and isinstance(b, int) and b == 0:
        return 1 if isint(a) else Fraction(1)
    return r


def matmul_like(ctx, a, b):
    return np_dot(ctx, a, b)


def binop(ctx, op, a, b):
    if isinstance(a, SObj) or isinstance(b, SObj):
        return obj_binop(ctx, op, a, b)
    if op == 'Add' and isinstance(b, SList) and not isinstance(
            a, SList) and isinstance(a, list):
        return ctx.call(_class_lookup(b.cls, '__radd__'), (b, a))
    if op == 'Add' and isinstance(a, SList):
        return ctx.call(_class_lookup(a.cls, '__add__'), (a, b))
    h = ctx.opts.get('binop')
    if h is not None:
        r = h(ctx, op, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, str) and op == 'Mod':
        b = unbox(b) if isarr(b) else b
        if '%g' in a and isz(b):
            return Opaque('fmt', (a, b))
        if a == '%g' and isinstance(b, Fraction):
            return Opaque('fmt', (a, b))
        try:
            return a % (b if not isz(b) else '?')
        except Exception:
            return a
    if isinstance(a, (str,)) and isinstance(b, str) and op == 'Add':
        return a + b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            op == 'Add':
        if type(a) != type(b):
            raise PyRaise(TypeError, ('concatenate',))
        return a + b
    if op == 'Mult' and (isinstance(a, (list, tuple, str)) and isint(b) and
                         not isinstance(b, bool)):
        if isinstance(b, int):
            return a * b
        if isinstance(a, (list, tuple)) and len(a) == 1:
            n = smax(b, 0)
            return SSeq(n, lambda i: a[0])
        raise Unsupported('repetition of a sequence')
    if op == 'Mult' and isinstance(b, (list, tuple, str)) and isint(a):
        return binop(ctx, op, b, a)
    if op == 'Add' and (isinstance(a, SSeq) or isinstance(b, SSeq)) and \
            isinstance(a, (SSeq, list)) and isinstance(b, (SSeq, list)):
        na = a.n if isinstance(a, SSeq) else len(a)
        nb = b.n if isinstance(b, SSeq) else len(b)
        ra, rb = seqitem(a), seqitem(b)
        return SSeq(sadd(na, nb), lambda i: lazy_ite(
            slt(i, na), lambda: ra(i), lambda: rb(ssub(i, na))))
    isa = isinstance(a, Arr) or isinstance(b, Arr)
    if not isa and not (isscalar(a) and isscalar(b)):
        if isinstance(a, (set, frozenset)) and isinstance(
                b, (set, frozenset)):
            return {'Sub': a - b, 'BitOr': a | b, 'BitAnd': a & b}[op]
        if isinstance(a, (type(None), str, dict, list, tuple)) or isinstance(
                b, (type(None), str, dict, list, tuple)):
            raise PyRaise(TypeError, ('unsupported operand types',))
        raise Unsupported('%s on %r, %r' % (op, a, b))
    if not isa:
        if op == 'Div':
            if isnum(b) and b == 0:
                raise PyRaise(ZeroDivisionError, ())
            if not isnum(b) and not isinstance(b, (Inf, Rz)) and \
                    ctx.opts.get('zerodiv'):
                if ctx.branch(seq(b, 0)):
                    raise PyRaise(ZeroDivisionError, ())
            return npdiv(a, b)
        if op == 'Pow':
            return nppow(a, b)
        if op == 'MatMult':
            raise PyRaise(TypeError, ('matmul',))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return bitop(op, a, b)
        if op in ('LShift', 'RShift'):
            if isinstance(a, int) and isinstance(b, int):
                return a << b if op == 'LShift' else a >> b
        f = _OPS.get(op)
        if f is None:
            raise Unsupported('operator ' + op)
        if op in ('FloorDiv', 'Mod') and isnum(b) and b == 0:
            raise PyRaise(ZeroDivisionError, ())
        return f(a, b)
    if op == 'MatMult':
        return np_dot(ctx, a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        return elementwise(ctx, lambda x, y: bitop(op, x, y), [a, b])
    f = {'Add': npadd, 'Sub': ssub, 'Mult': npmul, 'Div': npdiv,
         'Pow': nppow, 'FloorDiv': sfloordiv, 'Mod': smod}.get(op)
    if f is None:
        raise Unsupported('operator ' + op)
    if (getattr(a, 'matrix', False) or getattr(b, 'matrix', False)) and \
            op in ('Mult', 'Pow'):
        raise Unsupported('np.matrix product')
    for x in (a, b):
        if not (isscalar(x) or isarraylike(x)):
            if isinstance(x, (Opaque,)):
                raise Unsupported('%s with %r' % (op, x))
            raise PyRaise(TypeError, ('unsupported operand types',))
    return elementwise(ctx, f, [a, b])


def bitop(op, a, b):
    if isbool(a) and isbool(b):
        if op == 'BitAnd':
            return sand(a, b)
        if op == 'BitOr':
            return sor(a, b)
        return sor(sand(a, snot(b)), sand(snot(a), b))
    if isinstance(a, int) and isinstance(b, int):
        return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
    raise Unsupported('bitwise operator')


def obj_binop(ctx, op, a, b):
    nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
          'Pow': 'pow', 'MatMult': 'matmul', 'Mod': 'mod',
          'FloorDiv': 'floordiv'}[op]
    if isinstance(a, SObj):
        f = _class_lookup(a.cls, '__%s__' % nm)
        if f is not None:
            r = ctx.call(f, (a, b))
            if r is not NotImplemented:
                return r
    if isinstance(b, SObj):
        f = _class_lookup(b.cls, '__r%s__' % nm)
        if f is not None:
            r = ctx.call(f, (b, a))
            if r is not NotImplemented:
                return r
    raise PyRaise(TypeError, ('unsupported operand types for ' + op,))


def compare(ctx, op, a, b):
    if isinstance(a, SObj) or isinstance(b, SObj):
        nm = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq',
              '!=': 'ne'}
        sw = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==',
              '!=': '!='}
        if isinstance(a, SObj):
            f = _class_lookup(a.cls, '__%s__' % nm[op])
            if f is not None:
                return ctx.call(f, (a, b))
        if isinstance(b, SObj):
            f = _class_lookup(b.cls, '__%s__' % nm[sw[op]])
            if f is not None:
                return ctx.call(f, (b, a))
        if op == '==':
            return a is b
        if op == '!=':
            return a is not b
        raise PyRaise(TypeError, ('not comparable',))
    h = ctx.opts.get('compare')
    if h is not None:
        r = h(ctx, op, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            r = op == '!='
            x = a if isinstance(a, Arr) else b
            return const_arr(x.shape, r, 'b')
        return elementwise(ctx, lambda x, y: T.scmp(op, x, y), [a, b], 'b')
    if isscalar(a) and isscalar(b):
        return T.scmp(op, a, b)
    if op in ('==', '!='):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) != type(b) or len(a) != len(b):
                return op == '!='
            r = sand(*[ctx.truth(compare(ctx, '==', x, y))
                       for x, y in zip(a, b)])
            return r if op == '==' else snot(r)
        if isscalar(a) and not isscalar(b) or isscalar(b) and not isscalar(a):
            return op == '!='
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return op == '=='
            if isinstance(a, (str, type(None))) or isinstance(
                    b, (str, type(None))):
                return op == '!='
            raise Unsupported('comparison of opaque values')
        r = a == b
        return bool(r) if op == '==' else not r
    if isinstance(a, str) and isinstance(b, str) or \
            isinstance(a, (set, frozenset)) or (
                isinstance(a, (tuple, list)) and isinstance(
                    b, (tuple, list))):
        if isinstance(a, (tuple, list)):
            for x, y in zip(a, b):
                if not (isscalar(x) and isscalar(y)):
                    raise Unsupported('ordering of sequences')
                if ctx.branch(sne(x, y)):
                    return T.scmp(op, x, y)
            return T.scmp(op, len(a), len(b))
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    raise PyRaise(TypeError, ('not comparable',))


def unary(ctx, op, v):
    if isinstance(v, (list, tuple, str)) or v is None:
        raise PyRaise(TypeError, ('bad operand type for unary',))
    if op == 'USub':
        if isscalar(v):
            return sneg(v)
        return elementwise(ctx, sneg, [v])
    if op == 'UAdd':
        return v
    if op == 'Invert':
        f = lambda x: snot(x) if isbool(x) else ssub(sneg(x), 1)
        if isscalar(v):
            return f(v)
        return elementwise(ctx, f, [v])
    raise Unsupported(op)


# ------------------------------------------------------------------ indexing
def seqitem(s):
    if isinstance(s, (list, tuple)):
        def g(i):
            if isinstance(i, int):
                return s[i]
            acc = s[-1]
            for t in range(len(s) - 2, -1, -1):
                acc = ite(seq(i, t), s[t], acc)
            return acc
        return g
    return s.fn


def lazy_ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a()
    if c is False:
        return b()
    return ite(c, a(), b())


def norm_index(ctx, j, d, checked=False):
    """resolve an integer index against a dimension"""
    if isinstance(j, Arr) and j.ndim == 0:
        j = j.at()
    if isbool(j) and not isinstance(j, bool):
        raise Unsupported('boolean index')
    if isinstance(j, Fraction) or (isz(j) and j.sort() == R):
        raise PyRaise(IndexError, ('only integers are valid indices',))
    if checked:
        return j
    if isinstance(j, int) and isinstance(d, int):
        if -d <= j < d:
            return j % d
        raise PyRaise(IndexError, ('index out of bounds',))
    if ctx.branch(sand(sle(0, j), slt(j, d))):
        return j
    if ctx.branch(sand(slt(j, 0), sle(sneg(d), j))):
        return sadd(j, d)
    raise PyRaise(IndexError, ('index out of bounds',))


def norm_slice(ctx, s, d):
    """(start, step, length)"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        raise Unsupported('symbolic slice step')
    if step == 0:
        raise PyRaise(ValueError, ('slice step',))

    def chk(x):
        if isinstance(x, Arr) and x.ndim == 0:
            x = x.at()
        if isinstance(x, Fraction) or (isz(x) and x.sort() == R):
            raise PyRaise(TypeError, ('slice indices must be integers',))
        return x
    lo, hi = chk(s.start), chk(s.stop)
    if isinstance(d, int) and all(x is None or isinstance(x, int)
                                  for x in (lo, hi)):
        r = range(*slice(lo, hi, step).indices(d))
        return r.start, step, len(r)

    def clip(x, low, high):
        # python rules: negative values count from the end, then clipped
        if ctx.branch(slt(x, 0)):
            x = sadd(x, d)
            if ctx.branch(slt(x, low)):
                return low
            return x
        if ctx.branch(sgt(x, high)):
            return high
        return x
    if step > 0:
        start = 0 if lo is None else clip(lo, 0, d)
        stop = d if hi is None else clip(hi, 0, d)
        if step == 1:
            n = ssub(stop, start)
        else:
            n = sfloordiv(sadd(ssub(stop, start), step - 1), step)
    else:
        start = ssub(d, 1) if lo is None else clip(lo, -1, ssub(d, 1))
        stop = -1 if hi is None else clip(hi, -1, ssub(d, 1))
        if step == -1:
            n = ssub(start, stop)
        else:
            n = sfloordiv(sadd(ssub(start, stop), -step - 1), -step)
    n = dimval(n)
    if isinstance(n, int):
        n = max(n, 0)
    elif not ctx.branch(sge(n, 0)):
        n = 0
    return dimval(start), step, dimval(n)


def getitem(ctx, o, k, checked=False):
    if isinstance(o, SObj):
        f = _class_lookup(o.cls, '__getitem__')
        if f is None:
            raise PyRaise(TypeError, ('not subscriptable',))
        return ctx.call(f, (o, k))
    if isinstance(o, SRange) and isinstance(k, int) and all(
            isinstance(x, int) for x in (o.lo, o.hi, o.step)):
        try:
            return range(o.lo, o.hi, o.step)[k]
        except IndexError:
            raise PyRaise(IndexError, ())
    if isinstance(o, dict):
        if isz(k):
            raise Unsupported('symbolic dictionary key')
        if k not in o:
            raise PyRaise(KeyError, (k,))
        return o[k]
    if isinstance(o, (list, tuple, str)):
        if isinstance(k, Arr) and k.ndim == 0:
            k = k.at()
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            raise PyRaise(IndexError, ('list index out of range',))
        if isinstance(k, slice):
            a, b, c = k.start, k.stop, k.step
            if all(x is None or isinstance(x, int) for x in (a, b, c)):
                return o[k]
            raise Unsupported('symbolic slice of a list')
        if isz(k) and k.sort() == I:
            # ITE over the elements; bounds by branching
            n = len(o)
            if ctx.branch(sand(sle(0, k), slt(k, n))):
                pass
            elif ctx.branch(sand(sle(-n, k), slt(k, 0))):
                k = sadd(k, n)
            else:
                raise PyRaise(IndexError, ('list index out of range',))
            if all(isscalar(x) for x in o):
                return seqitem(o)(k)
            for t in range(n):
                if ctx.branch(seq(k, t)):
                    return o[t]
            raise Unsupported('unreachable index')
        raise PyRaise(TypeError, ('list indices must be integers',))
    if isinstance(o, SSeq):
        if isinstance(k, slice):
            st, step, n = norm_slice(ctx, k, o.n)
            return SSeq(n, lambda i: o.fn(sadd(st, smul(step, i))))
        return o.fn(norm_index(ctx, k, o.n, checked))
    if isinstance(o, SRange):
        n = ssub(o.hi, o.lo)
        if o.step == 1 and not isinstance(k, slice):
            return sadd(o.lo, norm_index(ctx, k, n))
    if isinstance(o, Arr):
        return arr_getitem(ctx, o, k, checked)
    if isscalar(o) or o is None:
        raise PyRaise(TypeError, ('not subscriptable',))
    h = ctx.opts.get('opaque_item')
    if isinstance(o, Opaque):
        if 'getitem' in o.attrs:
            return o.attrs['getitem'](ctx, k)
        if 'items' in o.attrs:
            return getitem(ctx, o.attrs['items'], k, checked)
        if h is not None:
            return h(ctx, o, k)
    raise Unsupported('subscript of %r' % (o,))


def arr_getitem(ctx, a, k, checked=False):
    if not isinstance(k, tuple):
        k = (k,)
    k = [asarr(ctx, x) if isinstance(x, (list, SSeq)) else x for x in k]
    if len(k) == 1 and a.ndim == 0 and (
            T.isbool(k[0]) or isinstance(k[0], Arr) and k[0].ndim == 0 and
            k[0].kind == 'b'):
        n = 1 if ctx.branch(unbox(k[0])) else 0
        v = a.at()
        return Arr((n,), lambda idx: v, a.kind)
    # boolean masks
    if len(k) == 1 and isinstance(k[0], Arr) and k[0].kind == 'b' and \
            k[0].ndim > 0:
        return mask_get(ctx, a, k[0])
    n_real = sum(1 for x in k if x is not None and x is not Ellipsis)
    if n_real > a.ndim:
        raise PyRaise(IndexError, ('too many indices for array',))
    if Ellipsis in [x for x in k if not isinstance(x, Arr) and not isz(x)]:
        p = [i for i, x in enumerate(k) if x is Ellipsis][0]
        k = k[:p] + [slice(None)] * (a.ndim - n_real) + k[p + 1:]
    else:
        k = k + [slice(None)] * (a.ndim - n_real)
    fancy = [x for x in k if isinstance(x, Arr) and x.ndim > 0]
    if fancy:
        return fancy_get(ctx, a, k)
    # basic indexing: a view
    spec = []          # per base axis: ('i', j) or ('s', start, step, n, vax)
    shape = []
    ax = 0
    newax = []
    for x in k:
        if x is None:
            shape.append(1)
            continue
        d = a.shape[ax]
        if isinstance(x, slice):
            st, step, n = norm_slice(ctx, x, d)
            spec.append(('s', st, step, n, len(shape)))
            shape.append(n)
        else:
            spec.append(('i', norm_index(ctx, x, d, checked)))
        ax += 1
    if not shape:
        return a.at(*[s[1] for s in spec])

    def fwd1(idx):
        return tuple(s[1] if s[0] == 'i' else
                     sadd(s[1], smul(s[2], idx[s[4]])) for s in spec)

    nv = len(shape)

    def inv1(b):
        cond = []
        out = [0] * nv
        for s, x in zip(spec, b):
            if s[0] == 'i':
                cond.append(seq(x, s[1]))
            else:
                _, st, step, n, v = s
                df = ssub(x, st)
                if step == 1:
                    out[v] = df
                    if isinstance(st, int) and st == 0:
                        cond.append(slt(x, n)) if not T.same(
                            n, None) else None
                    else:
                        cond.append(sand(sge(df, 0), slt(df, n)))
                elif step == -1:
                    out[v] = sneg(df)
                    cond.append(sand(sle(df, 0), slt(sneg(df), n)))
                else:
                    if step < 0:
                        df, step = sneg(df), -step
                    out[v] = sfloordiv(df, step)
                    cond.append(sand(seq(smod(df, step), 0), sge(df, 0),
                                     slt(out[v], n)))
        return sand(*cond), tuple(out)
    return subview(a, shape, fwd1, inv1)


def subview(a, shape, fwd1, inv1):
    fwd0, inv0 = a.fwd, a.inv

    def fwd(idx):
        return fwd0(fwd1(idx))

    def inv(b):
        c0, m = inv0(b)
        if c0 is False:
            return False, None
        c1, r = inv1(m)
        return sand(c0, c1), r
    r = Arr([dimval(d) for d in shape], kind=a.kind, buf=a.buf, fwd=fwd,
            inv=inv)
    r.ro = a.ro
    r.dt = a.dt
    return r


def alias(a, dtype=None):
    """the same elements, C-contiguous and of the given element type (numpy
    copies when needed; sharing is the conservative case)"""
    r = subview(a, a.shape, lambda idx: idx, lambda b: (True, b))
    r.contig = True
    r.dt = dtype_name(dtype) or a.dt
    return r


def dtype_name(d):
    if d is None or isinstance(d, DType):
        return None
    try:
        return np.dtype(d).name
    except TypeError:
        return None


def mask_get(ctx, a, m):
    if m.ndim > a.ndim:
        raise PyRaise(IndexError, ('too many indices',))
    for p, q in zip(m.shape, a.shape):
        if not ctx.branch(seq(p, q)):
            raise PyRaise(IndexError, ('boolean index did not match',))
    if m.ndim == 1:
        if concrete_shape(m):
            sel = [i for i in range(m.shape[0]) if ctx.branch(m.at(i))]
            rd = a.reader()
            src = lit_array((len(sel),), {(i,): s for i, s in
                                          enumerate(sel)}, 'i') if sel else \
                None
            return mkarr((len(sel),) + a.shape[1:],
                         lambda idx: rd((sel[idx[0]] if isinstance(
                             idx[0], int) else src.at(idx[0]),) + idx[1:]),
                         a.kind)
        j = T.fresh(I, 'mk')
        e = m.at(j)
        facts = [j >= 0, j < T.lit(m.shape[0])]
        from . import solver as S
        if e is True or (isz(e) and S.decide(ctx.facts() + facts, e) is True):
            return a.copy()
        if e is False or (isz(e) and
                          S.decide(ctx.facts() + facts, e) is False):
            return mkarr((0,) + a.shape[1:], lambda idx: a.at(*idx), a.kind)
        return MArr(a.reader(), a.kind, m.reader(), m.shape,
                    T.fresh(I, 'cnt'))
    if m.ndim == a.ndim and not concrete_shape(m):
        return MArr(a.reader(), a.kind, m.reader(), m.shape,
                    T.fresh(I, 'cnt'))
    if concrete_shape(m) and m.ndim == a.ndim:
        sel = [i for i in indices(m.shape) if ctx.branch(m.at(*i))]
        vals = [a.at(*i) for i in sel]
        return mkarr((len(sel),), lambda idx: seqitem(vals)(idx[0]), a.kind)
    raise Unsupported('boolean mask')


def fancy_get(ctx, a, k):
    pos = [i for i, x in enumerate(k) if not isinstance(x, slice) and
           x is not None]
    if None in [x for x in k if not isz(x) and not isinstance(x, Arr)]:
        raise Unsupported('newaxis with fancy index')
    adv = {}
    for i in pos:
        x = k[i]
        if isinstance(x, Arr) and x.kind == 'b':
            raise Unsupported('mixed mask index')
        adv[i] = asarr(ctx, x)
    out = bcast(ctx, [v.shape for v in adv.values()])
    if any(b - a_ != 1 for a_, b in zip(pos, pos[1:])):
        raise Unsupported('separated fancy indices')
    maps = {i: (bmap(ctx, v.shape, out), v.reader()) for i, v in adv.items()}
    for i, v in adv.items():
        d = a.shape[i]
        if concrete_shape(v):
            for t in indices(v.shape):
                x = v.at(*t)
                if not ctx.branch(sand(sle(sneg(d), x), slt(x, d))):
                    raise PyRaise(IndexError, ('index out of bounds',))
        else:
            ts = [T.fresh(I, 'fi') for _ in v.shape]
            x = v.at(*ts)
            facts = [sand(sle(0, t), slt(t, d2))
                     for t, d2 in zip(ts, v.shape)]
            from . import solver as S
            inb = sand(sle(0, x), slt(x, d))
            if S.decide(ctx.facts() + facts, inb) is not True and not (
                    S.LIGHT[0] and S.prove(ctx.facts() + facts, inb,
                                           5000).ok):
                raise Unsupported('fancy index bounds')
    sl = {}
    shape = []
    vax = {}
    first = pos[0]
    for i, x in enumerate(k):
        if i == first:
            vax['adv'] = len(shape)
            shape.extend(out)
        if isinstance(x, slice):
            st, step, n = norm_slice(ctx, x, a.shape[i])
            sl[i] = (st, step, len(shape))
            shape.append(n)
    rd = a.reader()

    def fn(idx):
        av = idx[vax['adv']:vax['adv'] + len(out)]
        b = []
        for i in range(a.ndim):
            if i in sl:
                st, step, v = sl[i]
                b.append(sadd(st, smul(step, idx[v])))
            else:
                m, r = maps[i]
                j = r(m(av))
                d = a.shape[i]
                if isinstance(j, int):
                    b.append(j if j >= 0 else sadd(j, d))
                else:
                    b.append(ite(slt(j, 0), sadd(j, d), j)
                             if ctx.decide(sge(j, 0)) is not True else j)
        return rd(tuple(b))
    return mkarr(shape, fn, a.kind)


class DictFn:
    """buffer contents with individually assigned elements"""
    def __init__(self, base, d):
        self.base, self.d = base, d

    def __call__(self, idx):
        if all(isinstance(x, int) for x in idx):
            if idx in self.d:
                return self.d[idx]
            return self.base(idx)
        acc = self.base(idx)
        for k in self.d:
            c = sand(*[seq(x, y) for x, y in zip(idx, k)])
            acc = lazy_ite(c, lambda: self.d[k], lambda: acc)
        return acc


def store(ctx, view, _k, val):
    """view[...] = val"""
    if view.ro:
        raise PyRaise(ValueError, ('assignment destination is read-only',))
    if view.buf.ro:
        raise Unsupported('write through a copy of unknown aliasing')
    val = asarr(ctx, val) if isarraylike(val) else val
    buf = view.buf
    old = buf.fn
    kind = buf.kind
    if buf.owner is not None:
        ctx.events.append(('write', buf.owner))
    if isarr(val):
        vs = val.shape
        while len(vs) > view.ndim and isinstance(vs[0], int) and vs[0] == 1:
            v0 = val
            val = subview(v0, vs[1:], lambda idx: (0,) + tuple(idx),
                          lambda b: (True, b[1:]))
            vs = val.shape
        if len(vs) > view.ndim:
            raise PyRaise(ValueError, ('could not broadcast',))
        out = bcast(ctx, [view.shape, vs])
        for p, q in zip(out, view.shape):
            if not ctx.branch(seq(p, q)):
                raise PyRaise(ValueError, ('could not broadcast',))
        m = bmap(ctx, vs, view.shape)
        rd = val.reader()
        get = lambda idx: cast(rd(m(idx)), kind)
    else:
        if not isscalar(val) and kind != 'O':
            if isinstance(val, (Opaque, SObj)) or val is None:
                raise PyRaise(TypeError, ('cannot store',))
            raise Unsupported('store of %r' % (val,))
        cv = cast(val, kind)
        get = lambda idx: cv
    # single concrete element
    if all(isinstance(d, int) for d in view.shape):
        tot = 1
        for d in view.shape:
            tot *= d
        if tot == 0:
            return
        if tot <= 4096:
            try:
                tgt = {}
                for t in indices(view.shape):
                    b = view.fwd(t)
                    if not all(isinstance(x, int) for x in b):
                        raise KeyError
                    tgt[b] = get(t)
                if isinstance(old, DictFn):
                    d = dict(old.d)
                    d.update(tgt)
                    ctx.setfn(buf, DictFn(old.base, d))
                else:
                    ctx.setfn(buf, DictFn(old, tgt))
                return
            except KeyError:
                pass
    inv = view.inv

    def fn(idx):
        c, v = inv(idx)
        c = tobool(c)
        if c is False:
            return old(idx)
        if c is True:
            return get(v)
        return ite(c, get(v), old(idx))
    ctx.setfn(buf, memo_fn(fn))


def setitem(ctx, o, k, v):
    if isinstance(o, SObj):
        f = _class_lookup(o.cls, '__setitem__')
        if f is None:
            raise PyRaise(TypeError, ('no item assignment',))
        return ctx.call(f, (o, k, v))
    if isinstance(o, (list, dict)):
        if isz(k):
            raise Unsupported('symbolic key')
        if isinstance(o, list):
            if isinstance(k, int) and not -len(o) <= k < len(o):
                raise PyRaise(IndexError, ())
            if isinstance(k, slice):
                v = ctx.iterate(v)
        ctx.touch(o)
        o[k] = v
        return
    if isinstance(o, Arr):
        kk = k if isinstance(k, tuple) else (k,)
        kk = tuple(asarr(ctx, x) if isinstance(x, (list, SSeq)) else x
                   for x in kk)
        if len(kk) == 1 and o.ndim == 0 and (
                T.isbool(kk[0]) or isinstance(kk[0], Arr) and
                kk[0].ndim == 0 and kk[0].kind == 'b'):
            if ctx.branch(unbox(kk[0])):
                if isarr(v) and v.ndim:
                    v = v.at(*([0] * v.ndim))
                store(ctx, o, None, unbox(v))
            return
        if len(kk) == 1 and isinstance(kk[0], Arr) and kk[0].kind == 'b' \
                and kk[0].ndim > 0:
            m = kk[0]
            for p, q in zip(m.shape, o.shape):
                if not ctx.branch(seq(p, q)):
                    raise PyRaise(IndexError, ('boolean index',))
            if isinstance(v, MArr):
                m2 = MArr(None, 'b', m.reader(), m.shape, 0)
                if not same_mask(ctx, m2, v):
                    raise Unsupported('different masks')
                old, rm = o.reader(), m.reader()
                new = mkarr(o.shape, lambda idx: ite(
                    rm(idx), cast(v.full(idx), o.kind), old(idx)), o.kind)
                return store(ctx, o, None, new)
            if isarr(v) and v.ndim == 1 and concrete_shape(m):
                sel = [i for i in indices(m.shape) if ctx.branch(m.at(*i))]
                if isinstance(v.shape[0], int) and v.shape[0] not in (
                        1, len(sel)):
                    raise PyRaise(ValueError, ('mask assignment',))
                for t, ix in enumerate(sel):
                    setitem(ctx, o, ix, v.at(t if v.shape[0] != 1 else 0))
                return
            if m.ndim != o.ndim:
                raise Unsupported('partial mask assignment')
            if isarr(v) and v.ndim > 0:
                raise Unsupported('mask assignment of an array')
            v = unbox(v)
            old, rm = o.reader(), m.reader()
            new = mkarr(o.shape, lambda idx: ite(
                rm(idx), cast(v, o.kind), old(idx)), o.kind)
            return store(ctx, o, None, new)
        if any(isinstance(x, Arr) and x.ndim > 0 for x in kk):
            return fancy_set(ctx, o, kk, v)
        if all(not isinstance(x, slice) and x is not None and
               x is not Ellipsis for x in kk) and len(kk) == o.ndim:
            idx = tuple(norm_index(ctx, x, d) for x, d in zip(kk, o.shape))
            view = subview(
                o, (), lambda _i: idx,
                lambda b: (sand(*[seq(x, y) for x, y in zip(b, idx)]), ()))
            return store(ctx, view, None, unbox(v) if not isarr(v) or
                         v.ndim == 0 else v)
        view = arr_getitem(ctx, o, kk)
        return store(ctx, view, None, v)
    if isinstance(o, Opaque) and 'setitem' in o.attrs:
        return o.attrs['setitem'](ctx, k, v)
    raise Unsupported('item assignment on %r' % (o,))


def fancy_set(ctx, o, kk, v):
    if len(kk) == 1 and o.ndim == 1 and concrete_shape(kk[0]):
        n = kk[0].shape[0]
        va = asarr(ctx, v) if isarraylike(v) else v
        for t in range(n):
            x = va.at(t if va.shape[0] != 1 else 0) if isarr(va) and \
                va.ndim else unbox(va)
            setitem(ctx, o, kk[0].at(t), x)
        return
    raise Unsupported('fancy assignment')


# ---------------------------------------------------------------- attributes
def total(shape):
    n = 1
    for d in shape:
        n = smul(n, d)
    return dimval(n)


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return 'dtype(%s)' % self.kind

    def __eq__(self, o):
        return isinstance(o, DType) and o.kind == self.kind or (
            kind_of_dtype(o) == self.kind)

    def __hash__(self):
        return hash(self.kind)


def kind_of_dtype(d):
    if isinstance(d, DType):
        return d.kind
    if d is None:
        return None
    if d in (float, np.float64, np.double, 'float', 'd', 'f8', 'float64',
             np.float32):
        return 'f'
    if d in (int, np.int64, np.intp, 'int', np.int32, np.integer, 'i', 'l'):
        return 'i'
    if d in (complex, np.complex128, 'complex', 'D'):
        return 'c'
    if d in (bool, np.bool_, 'bool'):
        return 'b'
    if d is object:
        return 'O'
    raise Unsupported('dtype %r' % (d,))


def m_(f, name):
    return lambda o: BoundModel(f, o, name)


def attribute(ctx, o, name):
    if isinstance(o, Arr):
        if name == 'shape':
            return tuple(o.shape)
        if name == 'ndim':
            return o.ndim
        if name == 'size':
            return total(o.shape)
        if name == 'T':
            return np_transpose(ctx, o)
        if name == 'dtype':
            return DType(o.kind)
        if name == 'real':
            return np_real(ctx, o)
        if name == 'imag':
            return np_imag(ctx, o)
        if name == 'flat':
            return np_ravel(ctx, o)
        f = ARR_METHODS.get(name)
        if f is not None:
            return BoundModel(f, o, 'ndarray.' + name)
        raise PyRaise(AttributeError, ('ndarray.' + name,))
    if isinstance(o, DType):
        if name == 'kind':
            return o.kind
        if name == 'type':
            return {'f': np.float64, 'i': np.int64, 'c': np.complex128,
                    'b': np.bool_}[o.kind]
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, list):
        f = LIST_METHODS.get(name)
        if f:
            return BoundModel(f, o, 'list.' + name)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, dict):
        f = DICT_METHODS.get(name)
        if f:
            return BoundModel(f, o, 'dict.' + name)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, (set, frozenset)):
        f = SET_METHODS.get(name)
        if f:
            return BoundModel(f, o, 'set.' + name)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, str):
        if hasattr(o, name):
            return getattr(o, name)
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return BoundModel(LIST_METHODS[name], o, 'tuple.' + name)
        raise PyRaise(AttributeError, (name,))
    if isscalar(o):
        if name == 'real':
            return np_real(ctx, o)
        if name == 'imag':
            return np_imag(ctx, o)
        if name == 'size':
            return 1
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'dtype':
            return DType(kind_of(o))
        if name in ('conjugate', 'conj'):
            return BoundModel(lambda c, x: np_conj(c, x), o, 'conj')
        if name == 'item':
            return BoundModel(lambda c, x: x, o, 'item')
        if name in ('reshape', 'ravel', 'flatten', 'sum', 'any', 'all',
                    'astype', 'T', 'copy', 'dot', 'squeeze', 'tolist',
                    'round', 'min', 'max'):
            if name == 'T':
                return o
            return BoundModel(lambda c, x, *a, **k: ARR_METHODS[name](
                c, asarr(c, x), *a, **k), o, 'scalar.' + name)
        if name in ('numerator', 'is_integer'):
            raise Unsupported(name)
        raise PyRaise(AttributeError, (name,))
    if o is None:
        raise PyRaise(AttributeError, ('NoneType.' + name,))
    if isinstance(o, (SRange, SSeq)):
        raise PyRaise(AttributeError, (name,))
    if isinstance(o, ExcObj):
        raise Unsupported('exception attribute ' + name)
    h = ctx.opts.get('attr')
    if h is not None:
        return h(ctx, o, name)
    v = getattr(o, name, _MISSING)
    if v is not _MISSING:
        return ctx.lift(v)
    raise Unsupported('attribute %s of %r' % (name, o))


def set_shape(ctx, a, shape):
    r = np_reshape(ctx, a, shape)
    a.shape, a.fwd, a.inv = r.shape, r.fwd, r.inv


# -------------------------------------------------------------------- models
@model(np.asarray, np.array, np.asanyarray)
def np_asarray(ctx, x, dtype=None, order=None, copy=None, ndmin=0):
    a = asarr(ctx, x)
    k = kind_of_dtype(dtype)
    isnew = not isinstance(x, Arr)
    if k is not None and k != a.kind:
        a = a.copy() if False else astype(ctx, a, k)
        isnew = True
        a.dt = dtype_name(dtype)
        a.contig = isnew if not isinstance(x, Arr) else x.contig
    elif isnew and k is not None:
        a.dt = dtype_name(dtype)
    if copy and not isnew:
        c, dt = a.contig, a.dt
        a = a.copy()
        a.contig, a.dt = c, dtype_name(dtype) or dt
    if order == 'C' and not isnew or order == 'C' and not a.contig:
        a = alias(a, dtype)
    while a.ndim < ndmin:
        a = arr_getitem(ctx, a, (None, Ellipsis))
    return a


def _np_array(ctx, x, dtype=None, order=None, copy=True, ndmin=0, **kw):
    return np_asarray(ctx, x, dtype, order, copy, ndmin)


MODELS[id(np.array)] = (np.array, _np_array)


@model(np.ascontiguousarray)
def np_ascontig(ctx, x, dtype=None):
    a = np_asarray(ctx, x, dtype, 'C')
    return np_reshape(ctx, a, (1,)) if a.ndim == 0 else a


def astype(ctx, a, k):
    if a.kind == 'z' and k != 'c':
        raise Unsupported('conversion of an abstract complex array')
    if a.kind == 'z' and k == 'c':
        return a.copy()
    if a.kind == 'c' and k in 'fi':
        ctx.events.append(('warn', 'ComplexWarning', ''))
    if a.kind in 'OU' and k != 'O':
        for t in (indices(a.shape) if concrete_shape(a) else ()):
            if not isscalar(a.at(*t)):
                raise PyRaise(TypeError, ('cannot convert to array',))
    rd = a.reader()
    return mkarr(a.shape, lambda idx: cast(rd(idx), k), k)


def _ones_like_kind(ctx, x, dtype):
    a = asarr(ctx, x)
    return a, (kind_of_dtype(dtype) or a.kind)


@model(np.ones_like)
def np_ones_like(ctx, x, dtype=None):
    a, k = _ones_like_kind(ctx, x, dtype)
    return const_arr(a.shape, cast(1, k), k)


@model(np.full_like)
def np_full_like(ctx, x, fill_value, dtype=None):
    a, k = _ones_like_kind(ctx, x, dtype)
    return const_arr(a.shape, cast(unbox(fill_value), k), k)


@model(np.zeros_like)
def np_zeros_like(ctx, x, dtype=None):
    a, k = _ones_like_kind(ctx, x, dtype)
    return const_arr(a.shape, cast(0, k), k)


@model(np.empty_like)
def np_empty_like(ctx, x, dtype=None):
    a, k = _ones_like_kind(ctx, x, dtype)
    r = np_empty(ctx, a.shape, k)
    r.contig, r.dt = a.contig, dtype_name(dtype) or a.dt
    return r


def mkshape(ctx, shape):
    if isinstance(shape, Arr):
        shape = tuple(ctx.iterate(shape)) if shape.ndim else (shape.at(),)
    if isscalar(shape):
        shape = (shape,)
    out = []
    for d in shape:
        d = unbox(d)
        if isinstance(d, Fraction) or (isz(d) and d.sort() == R):
            raise PyRaise(TypeError, ('float dimension',))
        d = dimval(d)
        if isinstance(d, bool):
            d = int(d)
        if isinstance(d, int):
            if d < 0:
                raise PyRaise(ValueError, ('negative dimensions',))
        elif not ctx.branch(sge(d, 0)):
            raise PyRaise(ValueError, ('negative dimensions',))
        out.append(d)
    return tuple(out)


@model(np.zeros)
def np_zeros(ctx, shape, dtype=float, order=None):
    k = kind_of_dtype(dtype) if not isinstance(dtype, str) or len(
        dtype) > 1 else dtype
    r = const_arr(mkshape(ctx, shape), cast(0, k), k)
    r.dt, r.contig = dtype_name(dtype), order in (None, 'C')
    return r


@model(np.ones)
def np_ones(ctx, shape, dtype=float, order=None):
    k = kind_of_dtype(dtype)
    r = const_arr(mkshape(ctx, shape), cast(1, k), k)
    r.dt, r.contig = dtype_name(dtype), order in (None, 'C')
    return r


@model(np.empty)
def np_empty(ctx, shape, dtype=float, order=None):
    k = dtype if isinstance(dtype, str) and len(dtype) == 1 and \
        dtype in KINDS else kind_of_dtype(dtype)
    from .interp import HavocBuf
    shape = mkshape(ctx, shape)
    if k == 'O':
        return Arr(shape, lambda idx: None, 'O')
    r = Arr(shape, HavocBuf(Buf(shape, None, k)).fn, k)
    r.dt = None if isinstance(dtype, str) and len(dtype) == 1 else \
        dtype_name(dtype)
    r.contig = order in (None, 'C')
    return r


@model(np.full)
def np_full(ctx, shape, v, dtype=None):
    v = unbox(v)
    return const_arr(mkshape(ctx, shape), v, kind_of_dtype(dtype))


@model(np.eye, np.identity)
def np_eye(ctx, n, m=None, k=0, dtype=float):
    kk = kind_of_dtype(dtype)
    m = n if m is None else m
    return mkarr(mkshape(ctx, (n, m)), lambda idx: cast(ite(
        seq(sadd(idx[0], k), idx[1]), 1, 0), kk), kk)


@model(np.arange)
def np_arange(ctx, a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    a, b, step = unbox(a), unbox(b), unbox(step)
    kind = kind_of_dtype(dtype) or kmax(kind_of(a), kind_of(b),
                                        kind_of(step))
    if isint(a) and isint(b) and step == 1:
        n = ssub(b, a)
    elif isint(a) and isint(b) and step == -1:
        n = ssub(a, b)
    elif isnum(step) and step > 0 or isz(step):
        n = sceil(sdiv(ssub(b, a), step))
    elif isnum(step) and step < 0:
        n = sceil(sdiv(ssub(b, a), step))
    n = dimval(n)
    if isinstance(n, int):
        n = max(n, 0)
    elif not ctx.branch(sge(n, 0)):
        n = 0
    return mkarr((n,), lambda idx: cast(sadd(a, smul(step, idx[0])), kind),
                 kind)


@model(np.linspace)
def np_linspace(ctx, a, b, num=50, endpoint=True, retstep=False):
    a, b, num = unbox(a), unbox(b), unbox(num)
    if retstep:
        raise Unsupported('linspace retstep')
    div = ssub(num, 1) if endpoint else num
    div = dimval(div)
    num = mkshape(ctx, num)[0]
    kind = 'z' if isinstance(a, Rz) or isinstance(b, Rz) else kmax(
        'f', kind_of(a), kind_of(b))
    if isinstance(div, int) and div <= 0:
        return mkarr((num,), lambda idx: cast(a, kind), kind)
    if isz(div) and ctx.decide(T.sne(div, 0)) is not True:
        # a single point (num is 1) is the first one
        return mkarr((num,), lambda idx: ite(seq(div, 0), cast(a, kind), cast(
            sadd(a, sdiv(smul(ssub(b, a), idx[0]), div)), kind)), kind)
    return mkarr((num,), lambda idx: cast(
        sadd(a, sdiv(smul(ssub(b, a), idx[0]), div)), kind), kind)


@model(np.isscalar)
def np_isscalar(ctx, x):
    return isscalar(x) or isinstance(x, str)


@model(np.size)
def np_size(ctx, x, axis=None):
    a = asarr(ctx, x)
    return total(a.shape) if axis is None else a.shape[axis]


@model(np.shape)
def np_shape(ctx, x):
    return tuple(asarr(ctx, x).shape)


@model(np.ndim)
def np_ndim(ctx, x):
    return asarr(ctx, x).ndim


@model(np.copy)
def np_copy(ctx, x):
    return asarr(ctx, x).copy()


def _re(x):
    if isinstance(x, Rz):
        raise Unsupported('real part of an abstract complex value')
    return x.re if isinstance(x, Cx) else x


def _im(x):
    if isinstance(x, Rz):
        raise Unsupported('imaginary part of an abstract complex value')
    return x.im if isinstance(x, Cx) else (0 if isint(x) else Fraction(0))


@model(np.real)
def np_real(ctx, x):
    if isscalar(x):
        return _re(x)
    if isarr(x) and x.kind not in 'cz':
        return x
    return elementwise(ctx, _re, [x])


@model(np.imag)
def np_imag(ctx, x):
    if isscalar(x):
        return _im(x)
    return elementwise(ctx, _im, [x])


@model(np.conj, np.conjugate)
def np_conj(ctx, x):
    f = lambda v: Cx(v.re, sneg(v.im)) if isinstance(v, Cx) else _re(v)
    if isscalar(x):
        return f(x)
    return elementwise(ctx, f, [x])


def ufunc(fn):
    def g(ctx, x, **kw):
        if kw:
            raise Unsupported('ufunc options')
        if isscalar(x):
            return fn(x)
        if isinstance(x, SObj) or x is None or isinstance(x, (str, Opaque)):
            raise PyRaise(TypeError, ('bad operand for ufunc',))
        return elementwise(ctx, fn, [x])
    return g


def realf(fn):
    """function with a floating point result"""
    def g(x):
        if isinstance(x, Rz):
            raise Unsupported('function of an abstract complex value')
        x = T._arith(x)
        r = fn(x)
        if isinstance(r, int):
            return Fraction(r)
        if isz(r) and r.sort() == I:
            return T.real(r)
        return r
    return g


def _cx_only_real(fn):
    def g(x):
        if isinstance(x, Cx):
            raise Unsupported('complex argument')
        return fn(x)
    return g


def sqrt0(x):
    if isnum(x) and x < 0:
        return Inf(0)
    return ssqrt(x)


def log0(fn):
    def g(x):
        if isnum(x) and x == 0:
            return Inf(-1)
        if isnum(x) and x < 0:
            return Inf(0)
        return fn(x)
    return g


def sexp_rz(x):
    if isinstance(x, Rz):
        return Rz(T.uf('exp', x.e))
    return realf(sexp)(x)


MODELS[id(np.abs)] = (np.abs, ufunc(lambda x: sabs(x)))
MODELS[id(np.fabs)] = (np.fabs, ufunc(realf(sabs)))
MODELS[id(np.sqrt)] = (np.sqrt, ufunc(realf(sqrt0)))
MODELS[id(np.exp)] = (np.exp, ufunc(sexp_rz))
MODELS[id(np.log)] = (np.log, ufunc(realf(_cx_only_real(log0(slog)))))
MODELS[id(np.log10)] = (np.log10, ufunc(realf(_cx_only_real(log0(slog10)))))
MODELS[id(np.cos)] = (np.cos, ufunc(realf(_cx_only_real(scos))))
MODELS[id(np.sin)] = (np.sin, ufunc(realf(_cx_only_real(ssin))))
MODELS[id(math.sqrt)] = (math.sqrt, ufunc(realf(sqrt0)))
MODELS[id(math.log10)] = (math.log10, ufunc(realf(slog10)))
MODELS[id(math.log)] = (math.log, ufunc(realf(slog)))
MODELS[id(math.exp)] = (math.exp, ufunc(realf(sexp)))
MODELS[id(math.cos)] = (math.cos, ufunc(realf(scos)))
MODELS[id(math.sin)] = (math.sin, ufunc(realf(ssin)))
MODELS[id(np.floor)] = (np.floor, ufunc(realf(sfloor)))
MODELS[id(np.ceil)] = (np.ceil, ufunc(realf(sceil)))
MODELS[id(math.ceil)] = (math.ceil, ufunc(sceil))
MODELS[id(math.floor)] = (math.floor, ufunc(sfloor))
MODELS[id(np.square)] = (np.square, ufunc(lambda x: smul(x, x)))
MODELS[id(np.negative)] = (np.negative, ufunc(sneg))
MODELS[id(np.logical_not)] = (np.logical_not, ufunc(
    lambda x: snot(tobool(x))))
MODELS[id(np.invert)] = (np.invert, ufunc(lambda x: snot(tobool(x))))


def _isinf(x):
    if isinstance(x, Inf):
        return x.s != 0
    if isinstance(x, Cx):
        return sor(_isinf(x.re), _isinf(x.im))
    if isz(x) and x.sort() == R and (T.INFSYM.get_id() in T.free_consts(x)):
        if x.eq(T.INFSYM):
            return True
        raise Unsupported('infinity inside a term')
    return False


def _isnan(x):
    if isinstance(x, Inf):
        return x.s == 0
    if isinstance(x, Cx):
        return sor(_isnan(x.re), _isnan(x.im))
    return False


MODELS[id(np.isinf)] = (np.isinf, ufunc(_isinf))
MODELS[id(np.isnan)] = (np.isnan, ufunc(_isnan))
MODELS[id(np.isfinite)] = (np.isfinite, ufunc(
    lambda x: snot(sor(_isinf(x), _isnan(x)))))
MODELS[id(np.sign)] = (np.sign, ufunc(lambda x: ite(
    sgt(x, 0), 1, ite(slt(x, 0), -1, 0)) if isint(x) else ite(
        sgt(x, 0), Fraction(1), ite(slt(x, 0), Fraction(-1), Fraction(0)))))


def binuf(fn, kind=None):
    def g(ctx, a, b, **kw):
        if kw:
            raise Unsupported('ufunc options')
        if isscalar(a) and isscalar(b):
            return fn(a, b)
        return elementwise(ctx, fn, [a, b], kind)
    return g


for _f, _g in ((np.add, npadd), (np.subtract, ssub), (np.multiply, npmul),
               (np.divide, npdiv), (np.true_divide, npdiv),
               (np.power, nppow), (np.maximum, smax), (np.minimum, smin),
               (np.mod, smod), (np.remainder, smod),
               (np.floor_divide, sfloordiv),
               (np.fmod, lambda a, b: ssub(a, smul(b, T.strunc(sdiv(
                   T.real(a), b))))),
               (np.logical_and, lambda a, b: sand(tobool(a), tobool(b))),
               (np.logical_or, lambda a, b: sor(tobool(a), tobool(b))),
               (np.less, slt), (np.less_equal, sle), (np.greater, sgt),
               (np.greater_equal, sge), (np.equal, seq),
               (np.not_equal, sne)):
    MODELS[id(_f)] = (_f, binuf(_g))


@model(np.iscomplexobj)
def np_iscomplexobj(ctx, x):
    return asarr(ctx, x).kind in 'cz'


@model(np.isrealobj)
def np_isrealobj(ctx, x):
    return asarr(ctx, x).kind not in 'cz'


@model(np.where)
def np_where(ctx, c, a=None, b=None):
    if a is None:
        raise Unsupported('where')
    return elementwise(ctx, lambda p, x, y: ite(p, x, y), [c, a, b],
                       kmax(kind_of(asarr(ctx, a)), kind_of(asarr(ctx, b))))


@model(np.clip)
def np_clip(ctx, x, lo, hi):
    f = lambda v, p, q: smin(smax(v, p), q)
    if isscalar(x):
        return f(x, lo, hi)
    return elementwise(ctx, f, [x, lo, hi])


# ---- reductions
def axis_reduce(ctx, a, axis, kind, op, keepdims=False, empty_ok=True):
    """op(n, fn) reduces fn(0..n-1)"""
    a = asarr(ctx, a)
    rd = a.reader()
    if axis is None:
        if a.ndim == 0:
            return op(1, lambda k: rd(()))

        def go(pre, ax):
            if ax == a.ndim:
                return rd(tuple(pre))
            return op(a.shape[ax], lambda k: go(pre + [k], ax + 1))
        r = go([], 0)
        if keepdims:
            return const_arr((1,) * a.ndim, r)
        return r
    if axis < 0:
        axis += a.ndim
    if not 0 <= axis < a.ndim:
        raise PyRaise(ValueError, ('axis out of bounds',))
    shape = a.shape[:axis] + ((1,) if keepdims else ()) + a.shape[axis + 1:]

    def fn(idx):
        i0 = idx[:axis]
        i1 = idx[axis + (1 if keepdims else 0):]
        return op(a.shape[axis],
                  lambda k: rd(tuple(i0) + (k,) + tuple(i1)))
    if not shape:
        return fn(())
    return mkarr(shape, fn, kind)


def _sumkind(a):
    return 'i' if a.kind in 'bi' else a.kind


@model(np.sum)
def np_sum(ctx, x, axis=None, keepdims=False, dtype=None):
    if isinstance(x, SIter):
        x = ctx.iterate(x)
    a = asarr(ctx, x)
    k = _sumkind(a)
    return axis_reduce(ctx, a, axis, k, lambda n, f: cast(ssum(
        0, n, lambda j: T._arith(f(j)), ctx.decide), k), keepdims)


@model(np.prod)
def np_prod(ctx, x, axis=None, keepdims=False, dtype=None):
    a = asarr(ctx, x)
    k = _sumkind(a)
    return axis_reduce(ctx, a, axis, k, lambda n, f: cast(sprod(
        0, n, f, ctx.decide), k), keepdims)


@model(np.mean)
def np_mean(ctx, x, axis=None, keepdims=False):
    a = asarr(ctx, x)
    n = total(a.shape) if axis is None else a.shape[axis]
    s = np_sum(ctx, a, axis, keepdims)
    return binop(ctx, 'Div', s, n)


def red_max(ctx, n, f, better):
    if isinstance(n, int):
        if n == 0:
            raise PyRaise(ValueError, ('zero-size array to reduction',))
        acc = f(0)
        for j in range(1, n):
            x = f(j)
            acc = ite(better(x, acc), x, acc)
        return acc
    return opq_extreme(ctx, n, f, better)


def opq_extreme(ctx, n, f, better):
    """maximum / minimum over a symbolic range: axiomatised value"""
    if ctx.branch(sle(n, 0)):
        raise PyRaise(ValueError, ('zero-size array to reduction',))
    k = T.fresh(I, 'kx')
    body = T.real(f(k))
    nm = 'MAX!' if better is sgt else 'MIN!'
    F = z3.Function(nm, I, z3.ArraySort(I, R), R)
    b = T.mkbig(F, n, k, body)
    return b


@model(np.max, np.amax)
def np_max(ctx, x, axis=None, **kw):
    a = asarr(ctx, x)
    return axis_reduce(ctx, a, axis, a.kind,
                       lambda n, f: red_max(ctx, n, f, sgt))


@model(np.min, np.amin)
def np_min(ctx, x, axis=None, **kw):
    a = asarr(ctx, x)
    return axis_reduce(ctx, a, axis, a.kind,
                       lambda n, f: red_max(ctx, n, f, slt))


def quant(ctx, x, axis, isall):
    a = asarr(ctx, x)

    def op(n, f):
        n = dimval(n)
        if isinstance(n, int):
            xs = [tobool(f(j)) for j in range(n)]
            return sand(*xs) if isall else sor(*xs)
        k = T.fresh(I, 'q')
        b = tobool(f(k))
        if isinstance(b, bool):
            if b == isall:
                return b
            return sle(n, 0) if isall else sgt(n, 0)
        rng = z3.And(k >= 0, k < T.lit(n))
        if isall:
            return z3.ForAll([k], z3.Implies(rng, b))
        return z3.Exists([k], z3.And(rng, b))
    return axis_reduce(ctx, a, axis, 'b', op)


@model(np.all)
def np_all(ctx, x, axis=None):
    return quant(ctx, x, axis, True)


@model(np.any)
def np_any(ctx, x, axis=None):
    return quant(ctx, x, axis, False)


@model(np.dot, np.matmul)
def np_dot(ctx, a, b):
    a, b = asarr(ctx, a), asarr(ctx, b)
    if a.ndim == 0 or b.ndim == 0:
        return binop(ctx, 'Mult', unbox(a), unbox(b))
    na = a.shape[-1]
    nb = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not ctx.branch(seq(na, nb)):
        raise PyRaise(ValueError, ('shapes not aligned',))
    ra, rb = a.reader(), b.reader()
    kind = kmax(a.kind, b.kind, 'i')
    if isinstance(nb, int):
        na = nb
    sa, sb = a.shape[:-1], (b.shape[:-2] + b.shape[-1:] if b.ndim > 1
                            else ())
    if b.ndim > 2 and a.ndim > 2:
        raise Unsupported('dot of higher rank arrays')

    def fn(idx):
        i = tuple(idx[:len(sa)])
        j = tuple(idx[len(sa):])
        return cast(ssum(0, na, lambda k: smul(
            T._arith(ra(i + (k,))),
            T._arith(rb((j[:-1] + (k,) + j[-1:]) if b.ndim > 1 else (k,)))),
            ctx.decide), kind)
    shape = tuple(sa) + tuple(sb)
    if not shape:
        return fn(())
    r = mkarr(shape, fn, kind)
    return r


@model(np.cumsum)
def np_cumsum(ctx, x, axis=None):
    a = asarr(ctx, x)
    if a.ndim != 1:
        raise Unsupported('cumsum')
    rd = a.reader()
    return mkarr(a.shape, lambda idx: ssum(
        0, sadd(idx[0], 1), lambda k: rd((k,)), ctx.decide), a.kind)


@model(np.transpose)
def np_transpose(ctx, x, axes=None):
    a = asarr(ctx, x)
    if axes is None:
        axes = tuple(range(a.ndim))[::-1]
    else:
        axes = [unbox(t) for t in ctx.iterate(axes)]
        if not all(isinstance(t, int) for t in axes):
            raise Unsupported('symbolic axes')
        axes = [t % a.ndim for t in axes]
        if sorted(axes) != list(range(a.ndim)):
            raise PyRaise(ValueError, ('axes do not match array',))
    shape = [a.shape[t] for t in axes]
    pos = {t: i for i, t in enumerate(axes)}

    def f1(idx):
        return tuple(idx[pos[t]] for t in range(a.ndim))

    def i1(b):
        return True, tuple(b[t] for t in axes)
    return subview(a, shape, f1, i1)


@model(np.reshape)
def np_reshape(ctx, x, *shape, **kw):
    a = asarr(ctx, x)
    r = _reshape(ctx, a, *shape, **kw)
    if isarr(r):
        r.contig, r.dt = a.contig, a.dt
    return r


def _reshape(ctx, x, *shape, **kw):
    order = kw.pop('order', 'C')
    if 'newshape' in kw:
        shape = (kw.pop('newshape'),)
    a = asarr(ctx, x)
    if len(shape) == 2 and isinstance(shape[1], str):
        order, shape = shape[1], shape[:1]
    if len(shape) == 1 and not isscalar(shape[0]):
        shape = tuple(ctx.iterate(shape[0]))
    shape = [dimval(unbox(d)) for d in shape]
    for d in shape:
        if isinstance(d, Fraction) or (isz(d) and d.sort() == R):
            raise PyRaise(TypeError, ('float dimension',))
    tot = total(a.shape)
    neg = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if len(neg) > 1:
        raise PyRaise(ValueError, ('one unknown dimension',))
    if neg:
        rest = total([d for i, d in enumerate(shape) if i not in neg])
        if isinstance(tot, int) and isinstance(rest, int):
            if rest == 0 or tot % rest:
                raise PyRaise(ValueError, ('cannot reshape',))
            shape[neg[0]] = tot // rest
        elif isinstance(rest, int) and rest == 1:
            shape[neg[0]] = tot
        else:
            big = [d for d in a.shape if not (isinstance(d, int) and d == 1)]
            got = [d for i, d in enumerate(shape) if i not in neg and
                   not (isinstance(d, int) and d == 1)]
            for g in got:
                for b in big:
                    if T.same(g, b) or ctx.decide(seq(g, b)) is True:
                        big.remove(b)
                        break
                else:
                    raise Unsupported('reshape -1')
            shape[neg[0]] = total(big) if big else 1
    if not ctx.branch(seq(total(shape), tot)):
        raise PyRaise(ValueError, ('cannot reshape array',))
    # squeeze / unsqueeze views
    nz = lambda s: [(i, d) for i, d in enumerate(s)
                    if not (isinstance(d, int) and d == 1)]
    na, ns = nz(a.shape), nz(shape)
    if len(na) != len(ns):
        unit = lambda s: [(i, d) for i, d in s
                          if not (isz(d) and ctx.decide(seq(d, 1)) is True)]
        na, ns = unit(na), unit(ns)
    if len(na) == len(ns) and all(
            T.same(p[1], q[1]) or ctx.decide(seq(p[1], q[1])) is True
            for p, q in zip(na, ns)):
        m = {p[0]: q[0] for p, q in zip(na, ns)}

        def f1(idx):
            return tuple(idx[m[i]] if i in m else 0 for i in range(a.ndim))
        w = {q: p for p, q in m.items()}
        nsh = len(shape)

        def i1(b):
            return True, tuple(b[w[i]] if i in w else 0 for i in range(nsh))
        return subview(a, shape, f1, i1)
    # dims not decided equal to one: compare up to provable unit dims
    rd = a.reader()
    if order == 'F' and not (a.ndim <= 1 and len(shape) <= 1):
        oa, os_ = list(range(a.ndim))[::-1], list(range(len(shape)))[::-1]
    else:
        oa, os_ = list(range(a.ndim)), list(range(len(shape)))

    def lin(idx, sh, od):
        r = 0
        for t in od:
            r = sadd(smul(r, sh[t]), idx[t])
        return r

    def unlin(k, sh, od):
        out = [None] * len(sh)
        for n_, t in enumerate(reversed(od)):
            d = sh[t]
            if n_ == len(od) - 1:
                out[t] = k
            else:
                out[t] = smod(k, d)
                k = sfloordiv(k, d)
        return tuple(out)
    ash = a.shape
    if a.ndim == 0:
        return const_arr(shape, a.at(), a.kind)
    r = mkarr(shape, lambda idx: rd(unlin(lin(idx, shape, os_), ash, oa)),
              a.kind)
    if concrete_shape(a) and all(isinstance(d, int) for d in shape):
        return subview(
            a, shape,
            lambda idx: unlin(lin(idx, shape, os_), ash, oa),
            lambda b: (True, unlin(lin(b, ash, oa), shape, os_)))
    r.buf.ro = True
    return r


@model(np.ravel)
def np_ravel(ctx, x, order='C'):
    return np_reshape(ctx, x, -1)


@model(np.squeeze)
def np_squeeze(ctx, x, axis=None):
    a = asarr(ctx, x)
    if axis is not None:
        if not ctx.branch(seq(a.shape[axis], 1)):
            raise PyRaise(ValueError, ('cannot squeeze',))
        sh = [d for i, d in enumerate(a.shape) if i != axis % a.ndim]
        return np_reshape(ctx, a, tuple(sh))
    return np_reshape(ctx, a, tuple(
        d for d in a.shape if not ctx.branch(seq(d, 1))))


@model(np.atleast_1d)
def np_atleast_1d(ctx, x):
    a = asarr(ctx, x)
    return arr_getitem0(a) if a.ndim == 0 else a


def arr_getitem0(a):
    return subview(a, (1,), lambda idx: (), lambda b: (True, (0,)))


@model(np.atleast_2d)
def np_atleast_2d(ctx, x):
    a = asarr(ctx, x)
    if a.ndim == 0:
        return np_reshape(ctx, a, (1, 1))
    if a.ndim == 1:
        return np_reshape(ctx, a, (1, a.shape[0]))
    return a


def concat(ctx, arrs, axis):
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise PyRaise(ValueError, ('dimensions must match',))
    if nd == 0:
        raise PyRaise(ValueError, ('zero-dimensional arrays',))
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise PyRaise(IndexError if False else ValueError,
                      ('axis out of bounds',))
    base = list(arrs[0].shape)
    for a in arrs[1:]:
        for i in range(nd):
            if i != axis and not ctx.branch(seq(a.shape[i], base[i])):
                raise PyRaise(ValueError, ('dimensions must match',))
    kind = kmax(*[a.kind for a in arrs])
    offs = [0]
    for a in arrs:
        offs.append(dimval(sadd(offs[-1], a.shape[axis])))
    rds = [a.reader() for a in arrs]

    def fn(idx):
        j = idx[axis]

        def at(t):
            i = list(idx)
            i[axis] = dimval(ssub(j, offs[t]))
            return cast(rds[t](tuple(i)), kind)
        if isinstance(j, int) and all(isinstance(o, int) for o in offs):
            for t in range(len(rds)):
                if offs[t] <= j < offs[t + 1]:
                    return at(t)
            raise Unsupported('concatenation index')
        live = [t for t in range(len(rds))
                if not (isinstance(arrs[t].shape[axis], int) and
                        arrs[t].shape[axis] == 0)]
        acc = at(live[-1])
        for t in reversed(live[:-1]):
            c = slt(j, offs[t + 1])
            acc = lazy_ite(c, lambda: at(t), lambda: acc)
        return acc
    base[axis] = offs[-1]
    return mkarr(base, fn, kind)


@model(np.concatenate)
def np_concatenate(ctx, xs, axis=0, dtype=None):
    arrs = [asarr(ctx, x) for x in ctx.iterate(xs)]
    if axis is None:
        arrs = [np_ravel(ctx, a) for a in arrs]
        axis = 0
    if not arrs:
        raise PyRaise(ValueError, ('need at least one array',))
    return concat(ctx, arrs, axis)


@model(np.hstack)
def np_hstack(ctx, xs):
    arrs = [np_atleast_1d(ctx, x) for x in ctx.iterate(xs)]
    return concat(ctx, arrs, 0 if arrs[0].ndim == 1 else 1)


@model(np.vstack)
def np_vstack(ctx, xs):
    arrs = [np_atleast_2d(ctx, x) for x in ctx.iterate(xs)]
    return concat(ctx, arrs, 0)


@model(np.append)
def np_append(ctx, a, b, axis=None):
    if axis is None:
        return concat(ctx, [np_ravel(ctx, a), np_ravel(ctx, b)], 0)
    return concat(ctx, [asarr(ctx, a), asarr(ctx, b)], axis)


@model(np.stack)
def np_stack(ctx, xs, axis=0):
    if axis != 0:
        raise Unsupported('stack')
    return asarr(ctx, [asarr(ctx, x) for x in ctx.iterate(xs)])


@model(np.tile)
def np_tile(ctx, x, reps):
    a = asarr(ctx, x)
    if a.ndim <= 1 and isscalar(reps):
        a = np_atleast_1d(ctx, a)
        if isinstance(reps, int):
            return concat(ctx, [a] * reps, 0)
    raise Unsupported('tile')


@model(np.repeat)
def np_repeat(ctx, x, reps, axis=None):
    a = np_ravel(ctx, x) if axis is None else asarr(ctx, x)
    if a.ndim == 1 and isinstance(reps, int):
        rd = a.reader()
        return mkarr((smul(a.shape[0], reps),),
                     lambda idx: rd((sfloordiv(idx[0], reps),)), a.kind)
    raise Unsupported('repeat')


@model(np.diag)
def np_diag(ctx, x, k=0):
    a = asarr(ctx, x)
    rd = a.reader()
    if a.ndim == 1 and isinstance(k, int):
        n = sadd(a.shape[0], abs(k))
        z = cast(0, a.kind)
        return mkarr((n, n), lambda idx: lazy_ite(
            seq(sadd(idx[0], k), idx[1]),
            lambda: rd((idx[0] if k >= 0 else idx[1],)), lambda: z), a.kind)
    if a.ndim == 2 and k == 0:
        n = smin(a.shape[0], a.shape[1])
        return mkarr((n,), lambda idx: rd((idx[0], idx[0])), a.kind)
    raise Unsupported('diag')


@model(np.diagflat)
def np_diagflat(ctx, x, k=0):
    return np_diag(ctx, np_ravel(ctx, x), k)


@model(np.roll)
def np_roll(ctx, x, shift, axis=None):
    a = asarr(ctx, x)
    if a.ndim != 1:
        raise Unsupported('roll')
    n = a.shape[0]
    rd = a.reader()
    if isinstance(n, int) and isinstance(shift, int):
        return mkarr((n,), lambda idx: rd((smod(ssub(idx[0], shift), n),)),
                     a.kind)
    raise Unsupported('symbolic roll')


@model(np.flipud, np.flip)
def np_flip(ctx, x, axis=None):
    a = asarr(ctx, x)
    if a.ndim == 1:
        return arr_getitem(ctx, a, slice(None, None, -1))
    raise Unsupported('flip')


@model(np.polyval)
def np_polyval(ctx, p, x):
    a = asarr(ctx, p)
    if a.ndim != 1:
        raise Unsupported('polyval')
    n = a.shape[0]
    rd = a.reader()
    if isinstance(n, int):
        def f(v):
            acc = 0
            for j in range(n):
                acc = sadd(smul(acc, v), rd((j,)))
            return acc
    else:
        def f(v):
            F = 'powk'
            return ssum(0, n, lambda k: smul(rd((k,)), powint(
                v, ssub(ssub(n, 1), k))), ctx.decide)
    if isscalar(x):
        return f(x)
    return elementwise(ctx, f, [x])


_POWK = z3.Function('powk', R, I, R)


def powint(v, k):
    """v**k for an integer term k >= 0"""
    if isinstance(k, int):
        return spow(v, k)
    if isinstance(v, (Rz, Cx)):
        return Rz(_POWK(T.nfexpr(T.rz(v).e), T.toint(T.nfexpr(k))))
    return _POWK(T.nfexpr(T.real(v)), T.toint(T.nfexpr(k)))


@model(np.poly)
def np_poly(ctx, r):
    a = asarr(ctx, r)
    if a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 12:
        c = [1]
        for j in range(a.shape[0]):
            z = a.at(j)
            c = [ssub(x, smul(z, y)) for x, y in zip(c + [0], [0] + c)]
        return asarr(ctx, c)
    raise Unsupported('np.poly of symbolic length')


@model(np.polymul)
def np_polymul(ctx, a, b):
    return np_convolve(ctx, a, b)


@model(np.convolve)
def np_convolve(ctx, a, b, mode='full'):
    a, b = np_atleast_1d(ctx, a), np_atleast_1d(ctx, b)
    if mode != 'full':
        raise Unsupported('convolve mode')
    na, nb = a.shape[0], b.shape[0]
    ra, rb = a.reader(), b.reader()
    k = kmax(a.kind, b.kind)
    if isinstance(na, int) and isinstance(nb, int):
        return mkarr((na + nb - 1,), lambda idx: _convc(ra, rb, na, nb, idx),
                     k)
    return mkarr((ssub(sadd(na, nb), 1),), lambda idx: ssum(
        0, na, lambda j: ite(sand(sge(ssub(idx[0], j), 0),
                                  slt(ssub(idx[0], j), nb)),
                             smul(ra((j,)), rb((ssub(idx[0], j),))), 0),
        ctx.decide), k)


def _convc(ra, rb, na, nb, idx):
    acc = 0
    for j in range(na):
        t = ssub(idx[0], j)
        if isinstance(t, int):
            if 0 <= t < nb:
                acc = sadd(acc, smul(ra((j,)), rb((t,))))
        else:
            acc = sadd(acc, ite(sand(sge(t, 0), slt(t, nb)),
                                smul(ra((j,)), rb((t,))), 0))
    return acc


@model(np.sort)
def np_sort(ctx, x, axis=-1):
    a = asarr(ctx, x)
    if a.ndim == 1 and a.kind != 'c' and axis in (-1, 0) and \
            not isinstance(a, MArr):
        if isinstance(a.shape[0], int) and a.shape[0] <= 40:
            v = [a.at(i) for i in range(a.shape[0])]
            und = 0
            for i in range(len(v)):
                for j in range(len(v) - 1 - i):
                    c = sle(v[j], v[j + 1])
                    d = ctx.decide(c)
                    if d is True:
                        continue
                    if d is False:
                        v[j], v[j + 1] = v[j + 1], v[j]
                        continue
                    und += 1
                    if und > 20:
                        raise Unsupported('sort')
                    v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(
                        c, v[j + 1], v[j])
            return asarr(ctx, v) if v else a.copy()
        i, j = T.fresh(I, 'si'), T.fresh(I, 'sj')
        if ctx.decide(T.simplies(sand(sle(0, i), sle(i, j), slt(
                j, a.shape[0])), sle(a.at(i), a.at(j)))) is True:
            return a.copy()
    if a.ndim == 1 and axis in (-1, 0):
        from .rules import sort
        return sort(ctx, a)
    raise Unsupported('sort')


@model(np.argsort)
def np_argsort(ctx, x, axis=-1):
    from .rules import argsort
    return argsort(ctx, x)


@model(np.finfo)
def np_finfo(ctx, d):
    k = kind_of_dtype(d if not isscalar(d) else DType(kind_of(d)))
    if k not in ('f', 'c', 'z'):
        raise PyRaise(ValueError, ('data type not inexact',))
    e = 23 if d is np.float32 or (isinstance(d, np.dtype) and
                                  d == np.float32) else 52
    return Opaque('finfo', (), {'eps': Fraction(1, 2 ** e)})


@model(np.seterr)
def np_seterr(ctx, *a, **k):
    return {}


@model(np.errstate)
def np_errstate(ctx, *a, **k):
    return Opaque('nullcontext')


@model(warnings.catch_warnings)
def w_catch(ctx, *a, **k):
    return Opaque('nullcontext')


@model(warnings.simplefilter, warnings.filterwarnings)
def w_simple(ctx, *a, **k):
    return None


@model(warnings.warn)
def w_warn(ctx, msg, category=UserWarning, stacklevel=1, **k):
    if isinstance(msg, ExcObj):
        category, msg = msg.cls, msg.args
    ctx.events.append(('warn', category, msg))
    return None


@model(np.isclose)
def np_isclose(ctx, a, b, rtol=Fraction(1, 10 ** 5),
               atol=Fraction(1, 10 ** 8)):
    f = lambda x, y: sle(sabs(ssub(x, y)), sadd(atol, smul(rtol, sabs(y))))
    if isscalar(a) and isscalar(b):
        return f(a, b)
    return elementwise(ctx, f, [a, b], 'b')


@model(np.allclose)
def np_allclose(ctx, a, b, **k):
    r = np_isclose(ctx, a, b, **k)
    return np_all(ctx, r)


@model(np.isrealobj)
def np_isrealobj2(ctx, x):
    return asarr(ctx, x).kind not in 'cz'


@model(np.iscomplex)
def np_iscomplex(ctx, x):
    f = lambda v: sne(_im(v), 0)
    if isscalar(x):
        return f(x)
    return elementwise(ctx, f, [x], 'b')


@model(np.real_if_close)
def np_ric(ctx, x, **k):
    raise Unsupported('real_if_close')


# ----------------------------------------------------------------- builtins
@model(len)
def b_len(ctx, x):
    if isinstance(x, P_Hooked):
        return x.h_len(ctx)
    if isinstance(x, (list, tuple, dict, str, set, frozenset)):
        return len(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise PyRaise(TypeError, ('len() of unsized object',))
        return dimval(x.shape[0])
    if isinstance(x, SSeq):
        return dimval(x.n)
    if isinstance(x, SRange):
        n = dimval(ssub(x.hi, x.lo))
        if x.step == 1:
            return smax(n, 0)
        return len(ctx.iterate(x))
    if isinstance(x, SObj):
        f = _class_lookup(x.cls, '__len__')
        if f is None:
            raise PyRaise(TypeError, ('no len()',))
        return ctx.call(f, (x,))
    if isinstance(x, Opaque) and 'items' in x.attrs:
        return len(x.attrs['items'])
    if isscalar(x) or x is None:
        raise PyRaise(TypeError, ('no len()',))
    raise Unsupported('len of %r' % (x,))


@model(range)
def b_range(ctx, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    a, b, step = unbox(a), unbox(b), unbox(step)
    for v in (a, b, step):
        if isinstance(v, Fraction) or (isz(v) and v.sort() == R):
            raise PyRaise(TypeError, ('float in range()',))
    if not isinstance(step, int) and not ctx.decide(sgt(step, 0)):
        raise Unsupported('symbolic range step')
    a, b = dimval(a), dimval(b)
    return SRange(a, b, step)


@model(enumerate)
def b_enumerate(ctx, x, start=0):
    return Opaque('enumerate', (x, start))


@model(zip)
def b_zip(ctx, *xs):
    return Opaque('zip', tuple(xs))


@model(map)
def b_map(ctx, f, x):
    s = ctx.symbolic_iter(x)
    if s is not None:
        return SSeq(s[0], lambda i: ctx.merged(lambda: ctx.call(
            f, (s[1](i),))))
    return SIter([ctx.call(f, (y,)) for y in ctx.iterate(x)])


@model(reversed)
def b_reversed(ctx, x):
    if isinstance(x, SRange) and x.step == 1 and not (
            isinstance(x.lo, int) and isinstance(x.hi, int)):
        return SRange(ssub(x.hi, 1), ssub(x.lo, 1), -1)
    if isinstance(x, Arr) and not isinstance(x.shape[0], int):
        return arr_getitem(ctx, x, slice(None, None, -1))
    return SIter(list(reversed(ctx.iterate(x))))


@model(iter)
def b_iter(ctx, x):
    return SIter(ctx.iterate(x))


@model(next)
def b_next(ctx, x, *d):
    if isinstance(x, SIter):
        if x.pos < len(x.items):
            ctx.touch(x)
            x.pos += 1
            return x.items[x.pos - 1]
        if d:
            return d[0]
        raise PyRaise(StopIteration, ())
    if isinstance(x, Opaque) and x.name == 'filtered':
        from .rules import first
        return first(ctx, *x.args, d)
    raise Unsupported('next of %r' % (x,))


@model(abs)
def b_abs(ctx, x):
    if isinstance(x, P_Hooked):
        return x.h_abs(ctx)
    if isinstance(x, SObj):
        f = _class_lookup(x.cls, '__abs__')
        if f is not None:
            return ctx.call(f, (x,))
    return MODELS[id(np.abs)][1](ctx, x)


def _minmax(ctx, args, key, better, kw):
    if key is not None:
        raise Unsupported('min/max with key')
    xs = ctx.iterate(args[0]) if len(args) == 1 else list(args)
    if not xs:
        if 'default' in kw:
            return kw['default']
        raise PyRaise(ValueError, ('empty sequence',))
    acc = xs[0]
    for x in xs[1:]:
        if isscalar(x) and isscalar(acc):
            c = better(x, acc)
            if isint(x) != isint(acc) and not isinstance(tobool(c), bool):
                acc = ite(c, x, acc)
            else:
                acc = ite(c, x, acc)
        else:
            c = ctx.branch(ctx.truth(compare(
                ctx, '<' if better is slt else '>', x, acc)))
            acc = x if c else acc
    return acc


@model(min)
def b_min(ctx, *args, key=None, **kw):
    if len(args) == 1 and ctx.symbolic_iter(args[0]) is not None:
        return np_min(ctx, args[0])
    return _minmax(ctx, args, key, slt, kw)


@model(max)
def b_max(ctx, *args, key=None, **kw):
    if len(args) == 1 and ctx.symbolic_iter(args[0]) is not None:
        return np_max(ctx, args[0])
    return _minmax(ctx, args, key, sgt, kw)


@model(sum)
def b_sum(ctx, x, start=0):
    s = ctx.symbolic_iter(x)
    if s is not None:
        return sadd(start, ssum(0, s[0], s[1], ctx.decide))
    acc = start
    for v in ctx.iterate(x):
        acc = binop(ctx, 'Add', acc, v)
    return acc


@model(any)
def b_any(ctx, x):
    if isinstance(x, (Arr, SSeq)):
        return np_any(ctx, x)
    return sor(*[ctx.truth(v) for v in ctx.iterate(x)])


@model(all)
def b_all(ctx, x):
    if isinstance(x, (Arr, SSeq)):
        return np_all(ctx, x)
    return sand(*[ctx.truth(v) for v in ctx.iterate(x)])


@model(int)
def b_int(ctx, x=0):
    x = unbox(x)
    if isinstance(x, Arr):
        x = item(ctx, x)
    if isinstance(x, Inf):
        raise PyRaise(OverflowError if x.s else ValueError, ())
    if isinstance(x, Cx):
        raise PyRaise(TypeError, ())
    if isinstance(x, str):
        return int(x)
    if isscalar(x):
        return T.strunc(T._arith(x))
    raise PyRaise(TypeError, ('int()',))


@model(float, np.float64, np.double)
def b_float(ctx, x=0):
    x = unbox(x)
    if isinstance(x, Arr):
        x = item(ctx, x)
    if isinstance(x, (Cx, Rz)):
        raise PyRaise(TypeError, ())
    if isinstance(x, str):
        return T.fromfloat(float(x))
    if isscalar(x):
        return cast(x, 'f')
    raise PyRaise(TypeError, ('float()',))


@model(complex)
def b_complex(ctx, x=0, y=0):
    x, y = unbox(x), unbox(y)
    if isinstance(x, Rz) or isinstance(y, Rz):
        return sadd(x, smul(Cx(0, 1), y))
    return cast(sadd(x, smul(Cx(0, 1), y)), 'c')


@model(bool, np.bool_)
def b_bool(ctx, x=False):
    return ctx.truth(x)


@model(list)
def b_list(ctx, x=()):
    s = ctx.symbolic_iter(x)
    if s is not None:
        return SSeq(s[0], s[1])
    return list(ctx.iterate(x))


@model(tuple)
def b_tuple(ctx, x=()):
    s = ctx.symbolic_iter(x)
    if s is not None:
        return SSeq(s[0], s[1])
    return tuple(ctx.iterate(x))


@model(set, frozenset)
def b_set(ctx, x=()):
    return OSet(ctx.iterate(x))


@model(object.__getattribute__)
def object_getattribute(ctx, o, name):
    return ctx.getattr(o, name, raw=True)


@model(object.__setattr__)
def object_setattr(ctx, o, name, v):
    return ctx.setattr(o, name, v, raw=True)


@model(dict)
def b_dict(ctx, x=(), **kw):
    d = {}
    if isinstance(x, dict):
        d.update(x)
    else:
        for p in ctx.iterate(x):
            a, b = ctx.iterate(p)
            d[a] = b
    d.update(kw)
    return d


@model(str)
def b_str(ctx, x=''):
    if isinstance(x, (str, int)):
        return str(x)
    if isinstance(x, SObj):
        f = _class_lookup(x.cls, '__str__')
        if f is not None:
            return ctx.call(f, (x,))
    return '?'


@model(repr)
def b_repr(ctx, x):
    return '?'


@model(slice)
def b_slice(ctx, *a):
    return slice(*a)


@model(sorted)
def b_sorted(ctx, x, key=None, reverse=False):
    xs = ctx.iterate(x)
    keys = [ctx.call(key, (v,)) for v in xs] if key else xs
    if all(isinstance(k, (int, str, Fraction)) for k in keys):
        o = sorted(range(len(xs)), key=lambda i: keys[i], reverse=reverse)
        return [xs[i] for i in o]
    raise Unsupported('sorted')


@model(print)
def b_print(ctx, *a, **k):
    return None


@model(round)
def b_round(ctx, x, n=None):
    x = unbox(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction) and n is None:
        return round(x)
    raise Unsupported('round')


@model(isinstance)
def b_isinstance(ctx, x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(ctx, x, u) for u in t)
    if isinstance(x, Poison):
        raise Unsupported(x.why)
    if isinstance(x, P_Hooked):
        return x.h_isinstance(ctx, t)
    if isinstance(x, SObj):
        return isinstance(t, type) and issubclass(x.cls, t)
    if isinstance(x, ExcObj):
        return issubclass(x.cls, t)
    if isinstance(x, DType):
        return t is np.dtype
    if isinstance(x, Arr):
        return t in (np.ndarray, object)
    if isinstance(x, bool) or (isz(x) and x.sort() == T.B):
        return t in (bool, int, object)
    import numbers
    if isint(x):
        return t in (int, object, numbers.Number, numbers.Integral,
                     numbers.Real, numbers.Complex)
    if isinstance(x, (Cx, Rz)):
        return t in (complex, object, numbers.Number, numbers.Complex)
    if isscalar(x):
        return t in (float, object, numbers.Number, numbers.Real,
                     numbers.Complex)
    if isinstance(x, SSeq):
        return t in (list, object)
    if isinstance(x, SRange):
        return t in (range, object)
    if isinstance(x, (SFunc, Bound, BoundModel)):
        return t in (types.FunctionType, object, types.MethodType)
    if isinstance(x, Opaque):
        h = x.attrs.get('__class__')
        if h is not None:
            return isinstance(h, type) and issubclass(h, t)
        if t in (list, tuple, dict, str, int, float, np.ndarray, type(None)):
            return False
        raise Unsupported('isinstance of %r' % (x,))
    return isinstance(x, t)


@model(issubclass)
def b_issubclass(ctx, a, b):
    return issubclass(a, b)


@model(type)
def b_type(ctx, x):
    if isinstance(x, (SObj, SList)):
        return x.cls
    if isinstance(x, ExcObj):
        return x.cls
    if isinstance(x, P_Hooked) and hasattr(x, 'h_type'):
        return x.h_type(ctx)
    if isinstance(x, Arr):
        return np.ndarray
    if isbool(x):
        return bool
    if isint(x):
        return int
    if isinstance(x, (Cx, Rz)):
        return complex
    if isscalar(x):
        return float
    if isinstance(x, Opaque):
        if '__class__' in x.attrs:
            return x.attrs['__class__']
        raise Unsupported('type of %r' % (x,))
    if isinstance(x, SSeq):
        return list
    if isinstance(x, (SFunc,)):
        return types.FunctionType
    return type(x)


@model(hasattr)
def b_hasattr(ctx, x, n):
    if isinstance(x, (str, bytes, list, tuple, dict, set, frozenset)):
        return hasattr(x, n)
    if isinstance(x, Arr) and n in ('__len__', '__iter__', '__getitem__'):
        return True if n != '__len__' else True
    if isscalar(x) and n in ('__len__', '__iter__', '__getitem__'):
        return False
    try:
        ctx.getattr(x, n)
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(getattr)
def b_getattr(ctx, x, n, *d):
    try:
        return ctx.getattr(x, n)
    except PyRaise as e:
        if d and issubclass(e.cls, AttributeError):
            return d[0]
        raise


@model(setattr)
def b_setattr(ctx, x, n, v):
    ctx.setattr(x, n, v)


@model(callable)
def b_callable(ctx, x):
    if isinstance(x, SObj):
        return _class_lookup(x.cls, '__call__') is not None
    return isinstance(x, (SFunc, Bound, BoundModel, types.FunctionType,
                          types.BuiltinFunctionType, type))


@model(id)
def b_id(ctx, x):
    return id(x)


@model(hash)
def b_hash(ctx, x):
    return hash(x)


@model(pow)
def b_pow(ctx, a, b):
    return binop(ctx, 'Pow', a, b)


@model(operator.add)
def o_add(ctx, a, b):
    return binop(ctx, 'Add', a, b)


@model(operator.mul)
def o_mul(ctx, a, b):
    return binop(ctx, 'Mult', a, b)


@model(np.vectorize)
def np_vectorize(ctx, f, **kw):
    def go(c, _o, *xs):
        return elementwise(c, lambda *v: c.merged(
            lambda: unbox(c.call(f, v))), list(xs))
    return BoundModel(go, None, 'vectorize')


import copy as _copy
import functools as _ft


@model(_copy.copy)
def c_copy(ctx, x):
    if isinstance(x, (list, dict, set)):
        return x.copy()
    if isinstance(x, Arr):
        return x.copy()
    if isscalar(x) or isinstance(x, (str, tuple)) or x is None:
        return x
    if isinstance(x, SObj):
        o = SObj(x.cls)
        o.attrs = dict(x.attrs)
        return o
    raise Unsupported('copy')


@model(_copy.deepcopy)
def c_deepcopy(ctx, x):
    if isinstance(x, dict):
        return {k: c_deepcopy(ctx, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(c_deepcopy(ctx, v) for v in x)
    return c_copy(ctx, x)


@model(_ft.reduce)
def ft_reduce(ctx, f, xs, *init):
    xs = ctx.iterate(xs)
    if init:
        acc = init[0]
    else:
        if not xs:
            raise PyRaise(TypeError, ('reduce of empty sequence',))
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = ctx.call(f, (acc, x))
    return acc


# ------------------------------------------------------------------- methods
def item(ctx, a, *k):
    if k:
        return getitem(ctx, a, k if len(k) > 1 else k[0])
    n = total(a.shape)
    if not ctx.branch(seq(n, 1)):
        raise PyRaise(ValueError, ('can only convert an array of size 1',))
    return a.at(*([0] * a.ndim))


def a_flatten(ctx, a, order='C'):
    r = np_reshape(ctx, a, -1)
    return r.copy()


def a_tolist(ctx, a):
    if a.ndim == 0:
        return a.at()
    if isinstance(a.shape[0], int):
        r = [getitem(ctx, a, i) for i in range(a.shape[0])]
        return [a_tolist(ctx, x) if isarr(x) else x for x in r]
    rd = a.reader()
    if a.ndim == 1:
        return SSeq(a.shape[0], lambda i: rd((i,)))
    raise Unsupported('tolist')


def a_astype(ctx, a, d, copy=True):
    return astype(ctx, a, kind_of_dtype(d))


def a_fill(ctx, a, v):
    store(ctx, a, None, v)


ARR_METHODS = {
    'reshape': np_reshape, 'ravel': np_ravel, 'flatten': a_flatten,
    'dot': np_dot, 'sum': np_sum, 'prod': np_prod, 'mean': np_mean,
    'max': np_max, 'min': np_min, 'any': np_any, 'all': np_all,
    'copy': lambda c, a, *k: a.copy(), 'astype': a_astype, 'item': item,
    'tolist': a_tolist, 'transpose': lambda c, a, *ax: np_transpose(
        c, a, None if not ax else (ax[0] if not isscalar(ax[0]) else ax)),
    'conj': np_conj, 'conjugate': np_conj, 'fill': a_fill,
    'squeeze': np_squeeze, 'cumsum': np_cumsum,
    'clip': np_clip,
}


def l_append(ctx, l, x):
    ctx.touch(l)
    l.append(x)


def l_extend(ctx, l, x):
    ctx.touch(l)
    l.extend(ctx.iterate(x))


def l_insert(ctx, l, i, x):
    ctx.touch(l)
    l.insert(i, x)


def l_pop(ctx, l, i=-1):
    if not l:
        raise PyRaise(IndexError, ('pop from empty list',))
    ctx.touch(l)
    return l.pop(i)


def l_remove(ctx, l, x):
    for i, y in enumerate(l):
        if y is x or ctx.branch(ctx.truth(compare(ctx, '==', y, x))):
            ctx.touch(l)
            del l[i]
            return
    raise PyRaise(ValueError, ('list.remove',))


def l_index(ctx, l, x):
    for i, y in enumerate(l):
        if y is x or ctx.branch(ctx.truth(compare(ctx, '==', y, x))):
            return i
    raise PyRaise(ValueError, ('index',))


def l_count(ctx, l, x):
    return sum(1 for y in l if y is x or ctx.branch(
        ctx.truth(compare(ctx, '==', y, x))))


def l_sort(ctx, l, key=None, reverse=False):
    r = b_sorted(ctx, l, key, reverse)
    ctx.touch(l)
    l[:] = r


def l_reverse(ctx, l):
    ctx.touch(l)
    l.reverse()


LIST_METHODS = {'append': l_append, 'extend': l_extend, 'insert': l_insert,
                'pop': l_pop, 'remove': l_remove, 'index': l_index,
                'copy': lambda c, l: list(l), 'count': l_count,
                'sort': l_sort, 'reverse': l_reverse}


def d_update(ctx, d, o=(), **kw):
    ctx.touch(d)
    d.update(b_dict(ctx, o))
    d.update(kw)


def d_pop(ctx, d, k, *de):
    if k in d:
        ctx.touch(d)
        return d.pop(k)
    if de:
        return de[0]
    raise PyRaise(KeyError, (k,))


def d_setdefault(ctx, d, k, v=None):
    if k not in d:
        ctx.touch(d)
        d[k] = v
    return d[k]


DICT_METHODS = {'update': d_update, 'pop': d_pop,
                'copy': lambda c, d: dict(d),
                'get': lambda c, d, k, v=None: d.get(k, v),
                'keys': lambda c, d: list(d.keys()),
                'values': lambda c, d: list(d.values()),
                'items': lambda c, d: [(k, v) for k, v in d.items()],
                'setdefault': d_setdefault}


def s_mut(name):
    def f(ctx, s, *xs):
        ctx.touch(s)
        xs = [set(ctx.iterate(x)) if name == 'update' else x for x in xs]
        getattr(s, name)(*xs)
    return f


SET_METHODS = {'add': s_mut('add'), 'update': s_mut('update'),
               'remove': s_mut('remove'), 'discard': s_mut('discard'),
               'copy': lambda c, s: set(s),
               'union': lambda c, s, *o: set(s).union(*[
                   set(c.iterate(x)) for x in o]),
               'difference': lambda c, s, *o: set(s).difference(*[
                   set(c.iterate(x)) for x in o]),
               'issubset': lambda c, s, o: set(s) <= set(c.iterate(o))}


@model(np.linalg.norm)
def np_norm(ctx, x, ord=None, axis=None, keepdims=False):
    a = asarr(ctx, x)
    if ord is None or (ord == 2 and a.ndim == 1):
        if a.kind == 'z':
            q = elementwise(ctx, lambda v: smul(sabs(v), sabs(v)), [a])
        elif a.kind == 'c':
            q = elementwise(ctx, lambda v: sadd(smul(v.re, v.re),
                                                smul(v.im, v.im)), [a])
        else:
            q = elementwise(ctx, lambda v: smul(v, v), [a])
        s = np_sum(ctx, q, axis, keepdims)
        return elementwise(ctx, ssqrt, [s]) if isarr(s) else ssqrt(s)
    raise Unsupported('norm')


def arr_setflat(ctx, a, v):
    if not concrete_shape(a):
        raise Unsupported('flat of an array of symbolic size')
    ixs = list(indices(a.shape))
    if isscalar(v):
        vs = [v] * len(ixs)
    else:
        vs = [asarr(ctx, v).at(j) for j in range(
            asarr(ctx, v).shape[0])] if isarr(v) else list(items_of(ctx, v))
        vs = [unbox(x) for x in vs]
        if ixs and not vs:
            raise PyRaise(ValueError, ('empty',))
        vs = [vs[j % len(vs)] for j in range(len(ixs))]
    for ix, x in zip(ixs, vs):
        ctx.setitem(a, ix, x)


MODELS['arr_setflat'] = (None, arr_setflat)
