"""Sorting into complex pairs.  relab.cplxpair is executed on a vector of any
length (alone or along either axis of a matrix).  Boolean selection and sorting
are index maps with their defining facts; the pairing loop has a stated
invariant (pairs done so far: exact conjugates, negative imaginary part first,
non-decreasing real parts, each value taken from a position of its own) and a
variant, both proved for an arbitrary iteration."""
from .base import *
from pyvc import rules as L
from pydsm import relab

PROP = Prop('C06')
PROP.assume(
    'x[mask] selects the elements at which the mask holds, in their order; '
    'numpy.sort and argsort return a sorted permutation (complex numbers by '
    'real, then imaginary part)',
    'numpy.apply_along_axis applies the function to every vector along the '
    'axis; numpy.abs of a complex number is some non-negative number, zero '
    'only for zero')

CABS = z3.Function('cabs', R, R, R)


def cabs(v):
    v = T.cx(v)
    return CABS(T.real(T.lit(v.re)), T.real(T.lit(v.im)))


def np_abs(ctx, x):
    a = N.asarr(ctx, x)
    if a.kind != 'c':
        return N.elementwise(ctx, sabs, [a])
    r = N.elementwise(ctx, cabs, [a], 'f')
    return N.unbox(r)


class Pairs(L.Invariant):
    """invariant of the pairing loop"""
    forget = True

    def __init__(self, tol):
        self.tol = tol

    def begin(self, ctx, env, mods):
        ints = [(key, o) for kd, o, key, old in mods.values() if
                kd == 'var' and T.isscalar(old) and T.isint(old)]
        bufs = [o for kd, o, key, old in mods.values() if kd == 'buf']
        if len(ints) != 1 or len(bufs) != 1:
            raise Unsupported('pairing loop: %s, %s' % (ints, bufs))
        (self.pos, self.env), self.buf = ints[0], bufs[0]
        self.m = self.buf.shape[0]
        x0 = self.buf.fn
        k = T.fresh(I, 'q')
        nm = T.fresh(I, 'o').decl().name()
        fr = z3.Function(nm + '.re', I, R)
        fi = z3.Function(nm + '.im', I, R)
        self.x0 = lambda ix: Cx(fr(T.lit(ix[0])), fi(T.lit(ix[0])))
        ctx.assume(z3.ForAll([k], T.lit(same(self.orig(k), T.cx(x0((k,))))),
                             patterns=[fr(k)]))
        self.g = lambda k: k
        self.srt = None
        # the sort that produced the array
        ctx.pairs = self

    def derive(self, ctx, env):
        k, l = z3.Int('k?'), z3.Int('l?')
        a, b = self.orig(k), self.orig(l)
        rng = sand(sle(0, k), slt(k, self.m))
        yield 'sorted by real part', z3.ForAll([k, l], T.lit(T.simplies(
            sand(sle(0, k), sle(k, l), slt(l, self.m)), sle(a.re, b.re))),
            patterns=[z3.MultiPattern(a.re, b.re)])
        yield 'imaginary parts above the tolerance', z3.ForAll(
            [k], T.lit(T.simplies(rng, sgt(sabs(a.im), smul(
                self.tol, cabs(a))))), patterns=[a.re])

    def start(self):
        return self.env.vars[self.pos]

    def at(self, k):
        return T.cx(self.buf.fn((k,)))

    def orig(self, k):
        return T.cx(self.x0((k,)))

    def havoc(self, ctx, env):
        g = z3.Function(T.fresh(I, 'g').decl().name(), I, I)
        self.g = lambda k: g(T.lit(k))
        self.gpat = lambda k: g(k)
        self.before = self.start()

    def variant(self, ctx, env):
        return ssub(self.m, self.start())

    def step(self, ctx, env):
        """ghost: where the values of the new group come from"""
        srt, sig = [p.fn for p in ctx.perms if p.kind in (
            'argsort', 'sort')][-2:]
        s0, s1, g = self.before, self.start(), self.g
        h = (T.lit(s1) - s0) / 2

        def new(k):
            k = T.lit(k)
            t = sig((k - s0) / 2)
            return z3.If(k < s0, T.lit(g(k)), s0 + z3.If(
                (k - s0) % 2 == 0, srt(h - 1 - t), srt(h + t)))
        self.g = new

    def facts(self, ctx, env):
        for name, vs, pre, post in self.parts():
            b = T.simplies(pre, post)
            yield name, b if isinstance(b, bool) or not vs else z3.ForAll(
                vs, T.lit(b))

    def goals(self, ctx, env):
        """by cases: before the group, in it, parity of the positions"""
        s0 = self.before
        k, l = z3.Int('k?'), z3.Int('l?')
        odd = lambda x: seq(T.smod(ssub(x, s0), 2), 1)
        par = lambda x: [('even', snot(odd(x))), ('odd', odd(x))]
        one = [('old', slt(k + 1, s0)), ('edge', seq(k + 1, s0))] + [
            (t, sand(sge(k, s0), c)) for t, c in par(k)]
        two = [('old', slt(l, s0)), ('old, new', sand(slt(k, s0),
                                                      sge(l, s0)))] + [
            ('%s, %s' % (t, u), sand(sge(k, s0), c, e)) for t, c in par(k)
            for u, e in par(l)]
        for name, vs, pre, post in self.parts():
            cases = [('', True)] if not vs else one if len(vs) == 1 or (
                'below' in name) else two
            for t, c in cases:
                b = T.simplies(sand(pre, c), post)
                yield '%s%s' % (name, t and ' (%s)' % t), b if isinstance(
                    b, bool) or not vs else z3.ForAll(vs, T.lit(b))

    def parts(self):
        s, m, tol = self.start(), self.m, self.tol
        yield 'position in range', (), True, sand(sle(0, s), sle(s, m))
        yield 'whole pairs done', (), True, seq(T.smod(s, 2), 0)
        k, l = z3.Int('k?'), z3.Int('l?')
        v, w = self.at(k), self.at(k + 1)
        yield 'the rest is untouched', [k], sand(sle(s, k), slt(k, m)), \
            same(v, self.orig(k))
        done = sand(sle(0, k), slt(k, s))
        even = sand(done, seq(T.smod(k, 2), 0))
        yield 'conjugate pairs', [k], even, sand(
            seq(v.re, w.re), seq(v.im, sneg(w.im)), sgt(w.im, 0))
        yield 'real parts in order', [k], sand(
            sle(0, k), slt(k + 1, s)), sle(v.re, w.re)
        u = self.orig(l)
        yield 'real parts below the rest', [k, l], sand(
            done, sle(s, l), slt(l, m)), sle(v.re, u.re)
        gk, gl = self.g(k), self.g(l)
        o = self.orig(gk)
        yield 'values come from positions done', [k], done, sand(
            sle(0, gk), slt(gk, s))
        yield 'positive imaginary parts are kept', [k], sand(
            done, seq(T.smod(k, 2), 1)), same(v, o)
        yield 'negative imaginary parts within the tolerance', [k], even, \
            sle(sabs(ssub(v.im, o.im)), smul(tol, cabs(o)))
        yield 'every position is used once', [k, l], sand(
            sle(0, k), slt(k, l), slt(l, s)), sne(gk, gl)


def same(a, b):
    a, b = T.cx(a), T.cx(b)
    return sand(seq(a.re, b.re), seq(a.im, b.im))


def along(vec):
    """numpy.apply_along_axis: the function is applied to one vector, any of
    them"""
    def m(ctx, f, axis, a, *args):
        a = N.asarr(ctx, a)
        r0 = a.reader()
        axis = axis % a.ndim if isinstance(axis, int) else axis
        ctx.axis = axis
        if a.ndim == 1:
            v = a
        elif axis == 0:
            v = Arr((a.shape[0],), lambda ix: r0((ix[0], vec)), a.kind)
        else:
            v = Arr((a.shape[1],), lambda ix: r0((vec, ix[0])), a.kind)
        v.dt = getattr(a, 'dt', None)
        r = N.asarr(ctx, ctx.call(f, (v,) + args))
        # the result is known by the elements of this vector
        ctx.vector = r
        ctx.oblige('every vector keeps its length', seq(
            r.shape[0], a.shape[axis]))
        fr, fi = (z3.Function('Y.' + t, *([I] * a.ndim + [R]))
                  for t in ('re', 'im'))
        ctx.result = lambda ix: Cx(fr(*map(T.lit, ix)), fi(*map(T.lit, ix)))
        rd = r.reader()
        k = T.fresh(I, 'q')
        own = (k,) if a.ndim == 1 else (k, vec) if axis == 0 else (vec, k)
        ctx.assume(z3.ForAll([k], T.lit(T.simplies(
            sand(sle(0, k), slt(k, a.shape[axis])), same(
                ctx.result(own), T.cx(rd((k,)))))),
            patterns=[ctx.result(own).re]))
        return Arr(a.shape, ctx.result, 'c')
    return m


def run(vc, form, dim):
    S.LIGHT[0] = True
    try:
        run_(vc, form, dim)
    finally:
        S.LIGHT[0] = False


def run_(vc, form, dim):
    n, tol, j = vc.int('n'), vc.real('tol'), vc.int('j')
    hyps = [n >= 1, tol >= 0]
    a, b = z3.Real('a?'), z3.Real('b?')
    hyps += [z3.ForAll([a, b], z3.And(CABS(a, b) >= 0,
                                      tol * CABS(a, b) >= 0),
                       patterns=[CABS(a, b)])]
    if form == 'vector':
        xf = lambda: vc.arr('x', (n,), 'c')
        ax = 0
        xv = lambda k: xf().at(k)
    else:
        r = vc.int('r')
        hyps += [r >= 1, j >= 0, j < r]
        ax = dim
        if dim is None:
            ax = 0
            hyps += [n >= 2, r >= 2]
        sh = (n, r) if ax == 0 else (r, n)
        xf = lambda: vc.arr('x', sh, 'c')
        xv = lambda k: xf().at(*((k, j) if ax == 0 else (j, k)))
    name = '%s, axis %s' % (form, dim)
    inv = []

    def make():
        inv.append(Pairs(tol))
        return inv[-1]
    paths = vc.call(relab.cplxpair, lambda: (xf(), tol), {} if dim is None
                    else {'dim': dim}, hyps=hyps, name=name,
                    contracts={id(np.abs): np_abs,
                               id(np.apply_along_axis): along(j)},
                    **{'while': L.while_rule(make)})
    live = 0
    for p in paths:
        if p.kind == 'raise':
            if not issubclass(p.value.cls, ValueError):
                vc.ob(name + ': %s does not happen' % p.value.cls.__name__,
                      p.hyps, False)
                continue
            vc.raises(name, p, ValueError)
            continue
        live += 1
        vc.frame(name, p)
        post(vc, name, p, n, tol, xv, ax, form, j)
    vc.holds(name + ': returns on some path', live)


def post(vc, name, p, n, tol, xv, ax, form, j):
    y = p.value
    nd = 1 if form == 'vector' else 2
    vc.holds(name + ': the axis', p.ctx.axis == ax, str(p.ctx.axis))
    if not vc.holds(name + ': dimensions', isarr(y) and y.ndim == nd):
        return
    own = (lambda k: (k,)) if nd == 1 else (lambda k: (k, j)) if ax == 0 \
        else (lambda k: (j, k))
    vc.ob(name + ': length', p.hyps, seq(y.shape[ax], n))
    k = vc.int('k')
    vc.ob(name + ': the vectors as they were sorted', p.hyps + [
        k >= 0, k < n], same(y.at(*own(k)), p.ctx.result(own(k))))
    r = p.ctx.vector
    vc.ob(name + ': length of the vector', p.hyps, seq(r.shape[0], n))
    yv = lambda k: T.cx(r.at(k))
    sel = [q for q in p.ctx.perms if q.kind == 'select']
    srt = [q for q in p.ctx.perms if q.kind == 'sort']
    if not vc.holds(name + ': two selections', len(sel) == 2 and
                    len(srt) >= 2, '%d, %d' % (len(sel), len(srt))):
        return
    # reals are selected first
    re_, cx_ = sel
    sr, sc = srt[0], srt[1]
    m = cx_.n
    inv = getattr(p.ctx, 'pairs', None)
    l = vc.int('l')
    h = p.hyps
    if inv is not None:
        src = lambda t: cx_.fn(sc.fn(T.lit(inv.g(t))))
    else:
        h = h + [T.lit(seq(m, 0))]
        vc.ob(name + ': nothing complex', p.hyps, seq(m, 0))
        src = lambda t: t
    orig = lambda t: T.cx(xv(t))
    vc.ob(name + ': an even number of complex values', h,
          seq(T.smod(m, 2), 0))
    ev = [k >= 0, k < m, k % 2 == 0]
    if inv is not None:
        a, b = yv(k), yv(k + 1)
        vc.ob(name + ': exact conjugates', h + ev, sand(
            seq(a.re, b.re), seq(a.im, sneg(b.im))))
        vc.ob(name + ': negative imaginary part first', h + ev, slt(a.im, 0))
        vc.ob(name + ': pairs by real part', h + [k >= 0, k + 1 < m],
              sle(yv(k).re, yv(k + 1).re))
        o = orig(src(k))
        rng = [k >= 0, k < m]
        vc.ob(name + ': source of the pairs', h + rng, sand(
            sle(0, src(k)), slt(src(k), n)))
        vc.ob(name + ': source of the pairs is complex', h + rng, sgt(
            sabs(o.im), smul(tol, cabs(o))))
        vc.ob(name + ': sources differ', h + [k >= 0, k < l, l < m],
              sne(src(k), src(l)))
        vc.ob(name + ': values with positive imaginary part', h + rng + [
            k % 2 == 1], same(yv(k), o))
        vc.ob(name + ': values with negative imaginary part', h + ev, sle(
            sabs(ssub(yv(k).im, o.im)), smul(tol, cabs(o))))
    # the reals
    rr = lambda t: re_.fn(sr.fn(T.lit(t)))
    t = k - T.lit(m)
    rng = [k >= T.lit(m), k < n]
    o = orig(rr(t))
    vc.ob(name + ': reals: source', h + rng, sand(
        sle(0, rr(t)), slt(rr(t), n), sle(sabs(o.im), smul(tol, cabs(o)))))
    vc.ob(name + ': reals: sources differ', h + rng + [l > k, l < n],
          sne(rr(t), rr(l - T.lit(m))))
    vc.ob(name + ': reals: values', h + rng, sand(
        seq(yv(k).re, o.re), seq(yv(k).im, 0)))
    vc.ob(name + ': reals in order', h + rng + [k + 1 < n],
          sle(yv(k).re, yv(k + 1).re))


@PROP.unit('vector')
def u_vector(vc):
    run(vc, 'vector', None)


@PROP.unit('matrix, axis 0')
def u_m0(vc):
    run(vc, 'matrix', 0)


@PROP.unit('matrix, axis 1')
def u_m1(vc):
    run(vc, 'matrix', 1)


@PROP.unit('matrix, default axis')
def u_md(vc):
    run(vc, 'matrix', None)


# ------------------------------------------------------------------ run time
def collection(d, exact=True):
    """reals and conjugate pairs, repeated values and real parts included"""
    k = int(d.rng.integers(0, 5))
    grid = d.rng.integers(0, 2)
    if grid:
        re = d.rng.integers(-2, 3, k) / 4.
        im = d.rng.integers(1, 5, k) / 4.
        rl = d.rng.integers(-3, 4, int(d.rng.integers(0, 4))) / 4.
    else:
        re, im = d.rng.uniform(-1, 1, k), d.rng.uniform(.05, 1, k)
        if k and d.rng.integers(0, 3) == 0:
            re = re[d.rng.integers(0, k, k)] + d.rng.integers(
                -2, 3, k) * d.rng.choice([0, 1e-16, 1e-15, 1e-9])
            im = im * d.rng.choice([1, 1e-3, 30.], k)
        rl = d.rng.uniform(-1, 1, int(d.rng.integers(0, 4)))
    c = re + 1j * im
    if exact and d.rng.integers(0, 4) == 0:
        # of very different sizes
        c = c * 10. ** d.rng.integers(-12, 13, k)
        rl = rl * 10. ** d.rng.integers(-12, 16, len(rl))
    x = np.concatenate((c, c.conj(), rl))
    if len(x) == 0:
        x = np.array([.5 + 0j])
    return d.rng.permutation(x), len(c), len(rl)


def expected(x):
    """of an exact collection"""
    x = np.asarray(x) + 0j
    c = np.sort_complex(x[x.imag > 0])
    out = []
    for v in c:
        out += [np.conj(v), v]
    return np.array(out + list(np.sort(x[x.imag == 0].real)))


@PROP.dyn('exact collections')
def d_exact(d):
    while d.more():
        x, nc, nr = collection(d)
        tol = [None, None, 1e-12, 1e-6][int(d.rng.integers(0, 4))]
        y0 = expected(x)
        if nc and tol is not None and np.min(np.abs(x[x.imag != 0].imag) /
                                             np.abs(x[x.imag != 0])) < 2 * tol:
            continue
        k = int(d.rng.integers(0, 5))
        d.case(x=x, tol=tol, form=k)
        was = x.copy()
        if k < 2:
            y = relab.cplxpair(x, tol)
            d.close(y, y0 if nc else y0.real, 'pairs', 0, 0)
        elif k == 2:
            y = relab.cplxpair(x[None], tol, **{} if len(x) > 1 else {
                'dim': 1})
            d.close(y, y0[None] if nc else y0.real[None], 'row', 0, 0)
        else:
            # several vectors, the reals among them included
            w = d.rng.permutation(x)
            r = -x.real[::-1] + 0j if d.rng.integers(0, 2) else x
            m = np.stack((x, w, r))
            e = np.stack((y0, y0, expected(r)))
            if not np.any(e.imag):
                e = e.real
            if k == 3:
                d.close(relab.cplxpair(m, tol, 1), e, 'rows', 0, 0)
            else:
                d.close(relab.cplxpair(m.T, tol, 0), e.T, 'columns', 0, 0)
        d.expect(np.array_equal(was, x), 'input modified')
        if not nc:
            d.close(relab.cplxpair(list(x.real), tol), y0.real, 'reals', 0,
                    0)


@PROP.dyn('near collections and unpairable ones')
def d_near(d):
    import signal

    def late(*a):
        raise TimeoutError()
    while d.more():
        x, nc, nr = collection(d, False)
        bad = int(d.rng.integers(0, 4))
        tol = 1e-10 if bad else None
        n = len(x)
        if bad == 0:
            # within a few units of the last place
            e = d.rng.integers(-4, 5, n) * 2.2e-16 * np.abs(x)
            x = x + e + 1j * np.where(x.imag != 0, d.rng.integers(
                -4, 5, n) * 2.2e-16 * np.abs(x), 0)
            if nc and np.min(np.abs(x[x.imag != 0].imag) / np.abs(
                    x[x.imag != 0])) < 1e-10:
                continue
            # real parts of different pairs apart, not to be confused
            s = np.sort(x.real[x.imag > 0])
            if len(s) > 1 and np.min(np.diff(s)) < 1e-6:
                continue
        elif nc == 0:
            continue
        elif bad == 1:
            j = np.flatnonzero(x.imag)[0]
            x = np.delete(x, j)
        elif bad == 2:
            j = np.flatnonzero(x.imag)[0]
            x = x.copy()
            x[j] += 1e-3j * x[j].imag
        else:
            j = np.flatnonzero(x.imag)[0]
            x = x.copy()
            x[j] += .013
        if bad and np.min(np.abs(x[x.imag != 0].imag), initial=1.) < .01:
            continue
        d.case(x=x, tol=tol, bad=bad)
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(20)
        try:
            y = relab.cplxpair(x, tol)
        except TimeoutError:
            d.expect(False, 'does not terminate')
        except ValueError:
            d.expect(bad, 'pairs within the tolerance rejected')
            continue
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        d.expect(not bad, 'unpairable collection accepted', got=y)
        y = y + 0j
        a, b = y[:2 * nc:2], y[1:2 * nc:2]
        d.expect(np.all(a == b.conj()) and np.all(b.imag > 0), 'conjugates',
                 got=y)
        d.expect(np.all(np.diff(a.real) >= 0), 'order of the pairs', got=y)
        d.expect(np.all(np.diff(y[2 * nc:].real) >= 0) and not np.any(
            y[2 * nc:].imag), 'order of the reals', got=y)
        d.close(np.sort_complex(b), np.sort_complex(x[x.imag > 0]),
                'positive imaginary parts', 0, 0)
        d.close(np.sort(y[2 * nc:].real), np.sort(x[x.imag == 0].real),
                'reals', 0, 0)


@PROP.dyn('other arguments')
def d_other(d):
    d.case(x='scalars and empty')
    d.close(relab.cplxpair(1), np.array([1]), 'integer', 0, 0)
    d.close(relab.cplxpair([]), np.array([]), 'empty', 0, 0)
    d.close(relab.cplxpair([[5, 6, 4], [3, 2, 1]]),
            np.array([[3, 2, 1], [5, 6, 4]]), 'first axis', 0, 0)
    d.close(relab.cplxpair([[5, 6, 4]]), np.array([[4, 5, 6]]),
            'first axis longer than one', 0, 0)
    for t in (np.complex64, np.complex128, np.complex256):
        d.case(dtype=t)
        x = np.array([1 + 2j, .5, 1 - 2j, -3], t)
        y = relab.cplxpair(x)
        d.close(y, np.array([1 - 2j, 1 + 2j, -3, .5], t), 'pairs', 0, 0)
        # tolerance: 100 times the accuracy of the type
        e = np.finfo(t).eps
        for k, ok in ((50, True), (400, False)):
            z = x.copy()
            z[0] += t(1j * k * e * np.abs(x[0]))
            d.case(dtype=t, off=k)
            try:
                relab.cplxpair(z)
                got = True
            except ValueError:
                got = False
            d.expect(got == ok, 'default tolerance')
