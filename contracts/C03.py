"""Modulator given by its noise transfer function.  The three simulators are
executed symbolically on a (zeros, poles, gain) tuple of any order: the loop
filter handed to the sample loop is proved to be (S A S', S B, e1) of the
realisation (A, B, C) of -poles/zeros, with S S' = 1 and C S' = e1, and every
result to follow the loop equations with v the quantizer's answer (C01) to y.
A Lean lemma, checked on every run, concludes that v - u is the noise transfer
function applied to v - y.  scipy's zpk2ss, orth and inv and numpy's norm are
assumed to meet their own contracts (checked on samples at run time)."""
import os
import scipy.linalg
import scipy.signal
from .base import *
from .C02 import Mod, backends, squeezed, pick
from .C01 import PYX
import pydsm.delsig as D

PROP = Prop('C03')
PROP.assume(
    'scipy.signal.zpk2ss(z, p, k) realises k prod(x-z)/prod(x-p): '
    'k + C (xI-A)^-1 B',
    'scipy.linalg.orth([c, I]) is a square matrix whose first column is '
    'c/|c| up to its sign and whose other columns are orthogonal to c',
    'scipy.linalg.inv(M) M = I; numpy.linalg.norm(c) = |c| > 0 (the noise '
    'transfer function is not identically one)')


class Ntf(Mod):
    """modulator given as (zeros, poles, gain)"""
    def __init__(self, vc, sigma, u='vector', x0='zero', nlev='scalar'):
        Mod.__init__(self, vc, u, x0, nlev)
        o = self.order
        self.z = lambda: vc.arr('z', (o,), 'c')
        self.p = lambda: vc.arr('p', (o,), 'c')
        self.realise(vc, sigma)

    def realise(self, vc, sigma):
        self.sigma = sigma
        self.a_, self.b_, self.c_ = vc.fn('A', 2), vc.fn('B'), vc.fn('C')
        self.q_, self.s_ = vc.fn('Q', 2), vc.fn('S', 2)
        self.nrm = vc.real('normC')
        self.hyps += [self.nrm > 0, T.lit(seq(self.CQ(0), smul(
            sigma, self.nrm)))]

    def CQ(self, j):
        return ssum(0, self.order, lambda k: smul(
            self.c_(T.lit(k)), self.q_(T.lit(k), T.lit(j))))

    def arg2(self):
        return (self.z(), self.p(), self.vc.real('gain'))

    # the loop: X' = (S A S') X + (S B)(v - u), y = X_0 + u
    def S_(self, i, j):
        return smul(self.sigma, self.s_(T.lit(i), T.lit(j)))

    def Si(self, i, j):
        return smul(self.sigma, sdiv(self.q_(T.lit(i), T.lit(j)), self.nrm))

    def Ah(self, i, j):
        o = self.order
        return ssum(0, o, lambda k: ssum(0, o, lambda l: smul(
            smul(self.S_(i, l), self.a_(T.lit(l), T.lit(k))),
            self.Si(k, j))))

    def Bh(self, i):
        return ssum(0, self.order, lambda k: smul(self.S_(i, k),
                                                  self.b_(T.lit(k))))

    def Y(self, i, q):
        return sadd(self.Xat(i, 0), self.u_at(0, i))

    def Xnext(self, i, r):
        return sadd(ssum(0, self.order, lambda j: smul(
            self.Ah(r, j), self.Xat(i, j))), smul(self.Bh(r), ssub(
                self.V(i, 0), self.u_at(0, i))))

    def contracts(self):
        o = self.order

        def mat(f, r, c):
            return Arr((r, c), lambda ix: f(*map(T.lit, ix)), 'f')

        def same(ctx, name, got, shape, at):
            got = N.asarr(ctx, got)
            if got.ndim != len(shape):
                ctx.oblige(name + ': dimensions', False)
                return
            for d, e in zip(got.shape, shape):
                ctx.oblige(name + ': shape', seq(d, e))
            ix = [T.fresh(I, 'a') for _ in shape]
            g, w = got.at(*ix), at(*ix)
            ins = sand(*[sand(sle(0, x), slt(x, d))
                         for x, d in zip(ix, shape)])
            g, w = T.cx(g), T.cx(w)
            ctx.oblige(name + ': entries', T.simplies(ins, sand(
                seq(g.re, w.re), seq(g.im, w.im))))

        def zpk2ss(ctx, z, p, k):
            za, pa = self.z(), self.p()
            same(ctx, 'zpk2ss: zeros are the poles of the NTF', z, (o,),
                 lambda i: pa.at(i))
            same(ctx, 'zpk2ss: poles are the zeros of the NTF', p, (o,),
                 lambda i: za.at(i))
            ctx.oblige('zpk2ss: gain -1', seq(k, -1))
            return (mat(self.a_, o, o), mat(lambda i, j: self.b_(i), o, 1),
                    mat(lambda i, j: self.c_(j), 1, o),
                    Arr((1, 1), lambda ix: -1, 'f'))

        def orth(ctx, m):
            same(ctx, 'orth: argument', m, (o, sadd(1, o)), lambda i, j: ite(
                seq(j, 0), self.c_(T.lit(i)), ite(
                    seq(ssub(j, 1), i), 1, 0)))
            return mat(self.q_, o, o)

        def norm(ctx, c):
            same(ctx, 'norm: argument', c, (1, o),
                 lambda i, j: self.c_(T.lit(j)))
            return self.nrm

        def inv(ctx, m):
            same(ctx, 'inv: argument', m, (o, o), lambda i, j: sdiv(
                self.q_(T.lit(i), T.lit(j)), self.nrm))
            return mat(self.s_, o, o)
        return {id(scipy.signal.zpk2ss): zpk2ss, id(scipy.linalg.orth): orth,
                id(np.linalg.norm): norm, id(scipy.linalg.inv): inv}


def run(vc, b, m, flags):
    name, fn, con = backends()[b]
    nm = '%s(sign %d, %s)' % (name, m.sigma, ' '.join(t for f, t in zip(
        flags, ('xn', 'xmax', 'y')) if f))
    live = 0
    for p in vc.call(fn, lambda: (m.u(), m.arg2(), m.nlev(), m.x0()),
                     dict(zip(('store_xn', 'store_xmax', 'store_y'), flags)),
                     hyps=m.hyps, name=nm, contracts={**con,
                                                      **m.contracts()},
                     ghosts=m.ghosts()):
        if not vc.returns(nm, p):
            continue
        live += 1
        vc.frame(nm, p)
        N_, o = m.N, m.order
        v, x, xmax, y = p.value
        vc.equal(nm + ': output', p, v, squeezed(
            p, 1, N_, lambda q, i: m.V(i, q)))
        if flags[2]:
            vc.equal(nm + ': quantizer input', p, y, squeezed(
                p, 1, N_, lambda q, i: m.Y(i, q)))
        if flags[0]:
            vc.equal(nm + ': state after each sample', p, x, squeezed(
                p, o, N_, lambda r, i: m.Xnext(i, r)))
        else:
            vc.equal(nm + ': final state', p, x, squeezed(
                p, o, 1, lambda r, i: m.final(m.X, m.x0_at, r)))
        if flags[1]:
            vc.equal(nm + ': largest state magnitudes', p, xmax, Arr(
                (o, 1), lambda ix: m.final(m.M, lambda r: sabs(
                    m.x0_at(r)), ix[0]), 'f'))
    vc.holds(nm + ': some path returns', live)


def _units():
    for b in range(3):
        for sg in (1, -1):
            for fl in ((0, 0, 0), (1, 1, 1)):
                def f(vc, b=b, sg=sg, fl=fl):
                    run(vc, b, Ntf(vc, sg), fl)
                PROP.unit('%s, sign %d, %s' % ((('scipy',) + PYX)[b], sg, fl)
                          )(f)


_units()


@PROP.unit('conclusion')
def u_lemma(vc):
    """the loop equations of the other units imply v - u = h (v - y)"""
    vc.lean('loop equations imply the shaping (lemmas/C03.lean)',
            'lemmas/C03.lean')
    for sg in (1, -1):
        m = Ntf(vc, sg)
        for t in (0, 1):
            # contract of orth for the first column and for another one
            j = z3.Int('j!') if t else 0
            orth = T.lit(seq(m.CQ(j), 0 if t else smul(sg, m.nrm)))
            nm = 'sign %d: (C S\')%s' % (sg, '[j]' if t else '[0]')
            cq = smul(sg, sdiv(m.CQ(j), m.nrm))
            vc.equal(nm + ' is (C Q)/|C|', m.hyps, ssum(
                0, m.order, lambda k: smul(m.c_(T.lit(k)), m.Si(k, j))), cq)
            vc.ob(nm, m.hyps + [orth], seq(cq, 1 - t))
        # contract of inv
        i, j = z3.Int('i!'), z3.Int('j!')
        inv = T.lit(seq(ssum(0, m.order, lambda k: smul(
            m.s_(T.lit(i), T.lit(k)), sdiv(m.q_(T.lit(k), T.lit(j)),
                                           m.nrm))), ite(seq(i, j), 1, 0)))
        vc.ob('sign %d: S S\' = 1' % sg, m.hyps + [inv], seq(
            ssum(0, m.order, lambda k: smul(m.S_(i, k), m.Si(k, j))),
            ite(seq(i, j), 1, 0)))


VARIANTS = [('row', 'zero', 'one'), ('integers', 'zero', 'scalar'),
            ('vector', 'vector', 'scalar')]


def _variants():
    for b in range(3):
        for u, x0, nl in VARIANTS:
            def f(vc, b=b, u=u, x0=x0, nl=nl):
                m = Ntf(vc, 1, u, x0, nl)
                run(vc, b, m, (0, 1, 1))
            PROP.unit('%s: u %s, x0 %s, nlev %s' % (
                (('scipy',) + PYX)[b], u, x0, nl))(f)


_variants()


# ------------------------------------------------------------------ run time
def rand_ntf(d, o):
    """zeros and poles closed under conjugation, poles inside the circle"""
    def roots(rmax):
        n = int(d.rng.integers(0, o // 2 + 1))
        c = d.rng.uniform(.1, rmax, n) * np.exp(
            1j * d.rng.uniform(.1, 3, n))
        r = d.rng.uniform(-rmax, rmax, o - 2 * n)
        out = np.concatenate((c, c.conj(), r + 0j))
        return out[d.rng.permutation(o)]
    z = roots(1.)
    if d.rng.integers(0, 3) == 0:
        z = np.ones(o)
    return z, roots(.8)


@PROP.dyn('run-time comparison')
def d_main(d):
    import warnings
    warnings.simplefilter('ignore')
    from pydsm.delsig import _simulateDSM as FR
    bk = ['auto', 'scipy', 'scipy_blas'] + ['cblas'] * FR.HAS_CBLAS
    while d.more():
        o = int(d.rng.integers(1, 6))
        z, p = rand_ntf(d, o)
        n = int(d.rng.integers(2, 40))
        u = d.rng.uniform(-.6, .6, n)
        nlev = int(d.rng.integers(2, 9))
        k = pick(d, 1, 1., 2.)
        b = pick(d, *bk)
        fl = [bool(t) for t in d.rng.integers(0, 2, 2)]
        form = pick(d, tuple, list)
        spec = (z, p, k) if form is tuple else (list(z), list(p), k)
        d.case(z=z, p=p, u=u, nlev=nlev, backend=b, flags=fl)
        v, xn, xm, y = D.simulateDSM(pick(d, u, u[None], list(u)), spec,
                                     pick(d, nlev, [nlev]), 0, *fl, True,
                                     backend=b)
        num, den = np.real(np.poly(z)), np.real(np.poly(p))
        w = scipy.signal.lfilter(num, den, v - y)
        sc = max(1, np.abs(w).max(), np.abs(y).max())
        if sc < 1e6:
            d.close(v, u + w, 'shaped error', 1e-6, 1e-6 * sc)
        q = np.clip(2 * np.floor(y / 2) + 1 if nlev % 2 == 0 else
                    2 * np.floor((y + 1) / 2), 1 - nlev, nlev - 1)
        d.close(v, q, 'quantized', 0, 0)


@PROP.dyn('assumed contracts of scipy')
def d_assumed(d):
    while d.more():
        o = int(d.rng.integers(1, 6))
        z, p = rand_ntf(d, o)
        d.case(z=z, p=p)
        A, B, C, Dd = scipy.signal.zpk2ss(p, z, -1)
        x = 1.7 * np.exp(1j * d.rng.uniform(0, 6.28))
        g = (Dd + C @ np.linalg.solve(x * np.eye(o) - A, B))[0, 0]
        d.close(g, -np.prod(x - p) / np.prod(x - z), 'zpk2ss', 1e-6, 1e-9)
        C = np.real(C)
        nc = np.linalg.norm(C)
        if nc < 1e-9:
            continue
        Q = scipy.linalg.orth(np.hstack((C.T, np.eye(o))))
        e = C @ Q
        d.close(np.abs(e), nc * (np.arange(o) == 0)[None], 'orth', 1e-6,
                1e-9 * nc)
        d.close(scipy.linalg.inv(Q) @ Q, np.eye(o), 'inv', 1e-9, 1e-9)
