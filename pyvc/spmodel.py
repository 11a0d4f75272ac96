"""Assumed contracts of scipy functions."""
import numpy as np
import scipy as sp
import scipy.integrate
import scipy.fftpack
import scipy.linalg
import scipy.signal
import z3

from . import npmodel as N
from . import terms as T
from .interp import Arr, Opaque, PyRaise, isarr, model
from .terms import Cx, I, R, Unsupported, isscalar, sadd, smul, ssub, ssum


@model(sp.integrate.quad)
def sp_quad(ctx, func, a, b, args=(), **opts):
    """the integral of func from a to b (and an error estimate)"""
    if args != ():
        raise Unsupported('quad with args')
    a, b = [T._arith(x.at() if isarr(x) else x) for x in (a, b)]
    for x in (a, b):
        if isinstance(x, (Cx, T.Inf)):
            raise Unsupported('quad bounds')
    chk = ctx.opts.get('quad_check')
    if chk is not None:
        chk(ctx, opts)
    f = T.fresh(R, 'fq')
    base = len(ctx.pc)
    ctx.pc.extend([f >= T.real(T.smin(a, b)), f <= T.real(T.smax(a, b))])
    try:
        v = ctx.merged(lambda: ctx.call(func, (f,)))
    finally:
        del ctx.pc[base:]
    if isarr(v):
        if v.ndim and not all(d == 1 for d in v.shape):
            raise Unsupported('array integrand')
        v = v.at(*([0] * v.ndim))
    if isinstance(v, Cx):
        if T.same(v.im, 0):
            v = v.re
        else:
            raise PyRaise(TypeError, ('complex integrand',))
    if not isscalar(v):
        raise PyRaise(TypeError, ('integrand is not a number: %r' % (v,),))
    e = T.fresh(R, 'qerr')
    return (T.mkint(a, b, f, T._arith(v)), e)


def dft(a, n, k):
    def term(j):
        t = T.sdiv(smul(smul(2, T.PI), smul(k, j)), n)
        return T.smul(T._arith(a((j,))), Cx(T.scos(t), T.sneg(T.ssin(t))))
    return ssum(0, n, term)


@model(sp.fftpack.fft, np.fft.fft)
def sp_fft(ctx, x, n=None, axis=-1, **kw):
    """discrete Fourier transform of a vector (periodic in its index)"""
    if n is not None or axis not in (-1, 0) or kw.pop(
            'overwrite_x', False) or kw:
        raise Unsupported('fft with options')
    x = N.asarr(ctx, x)
    if x.ndim != 1:
        raise Unsupported('fft of a matrix')
    rd = x.reader()
    m = x.shape[0]
    f = lambda ix: T.cx(dft(rd, m, ix[0]))
    r = N.mkarr((m,), f, 'c')
    r.periodic = f
    return r


def _shift(ctx, x, axes, s):
    x = N.asarr(ctx, x)
    p = getattr(x, 'periodic', None)
    if x.ndim != 1 or axes not in (None, 0, -1):
        raise Unsupported('fftshift of a matrix')
    m = x.shape[0]
    h = T.sfloordiv(m, 2)
    if p is not None:
        f = lambda ix: p((ssub(ix[0], h) if s > 0 else sadd(ix[0], h),))
    else:
        rd = x.reader()
        q = h if s > 0 else ssub(m, h)

        def f(ix):
            j = ssub(ix[0], q)
            return T.ite(T.sge(j, 0), rd((j,)), rd((sadd(j, m),)))
    r = N.mkarr((m,), f, x.kind)
    if p is not None:
        r.periodic = f
    return r


@model(np.fft.fftshift)
def sp_fftshift(ctx, x, axes=None):
    return _shift(ctx, x, axes, 1)


@model(np.fft.ifftshift)
def sp_ifftshift(ctx, x, axes=None):
    return _shift(ctx, x, axes, -1)


@model(sp.linalg.toeplitz)
def sp_toeplitz(ctx, c, r=None):
    """T[i, j] = c[i - j] below and on the diagonal, r[j - i] above"""
    c = N.asarr(ctx, c)
    if c.ndim != 1:
        raise Unsupported('toeplitz of a matrix')
    rc = c.reader()
    if r is None:
        rr, m, k = (lambda ix: Cx(rc(ix).re, T.sneg(rc(ix).im)) if isinstance(
            rc(ix), Cx) else rc(ix)), c.shape[0], c.kind
    else:
        r = N.asarr(ctx, r)
        if r.ndim != 1:
            raise Unsupported('toeplitz of a matrix')
        rr, m, k = r.reader(), r.shape[0], N.kmax(c.kind, r.kind)

    def el(ix):
        d = ssub(ix[0], ix[1])
        if isinstance(d, int):
            return rc((d,)) if d >= 0 else rr((-d,))
        return T.ite(T.sge(d, 0), rc((d,)), rr((T.sneg(d),)))
    return N.mkarr((c.shape[0], m), el, k)
