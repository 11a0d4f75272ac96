"""Discharging obligations: normal form (exact rational identities), z3, cvc5."""
import re
import time
from fractions import Fraction
import os as _os

import z3
from . import terms as T
from .terms import R, I, B

STATS = {'nf': [0, 0.0], 'z3': [0, 0.0], 'cvc5': [0, 0.0], 'trivial': [0, 0.0],
         'sign': [0, 0.0]}


class Result:
    def __init__(self, status, backend='', model=None, info=''):
        self.status = status        # proved / refuted / unknown
        self.backend = backend
        self.model = model
        self.info = info

    @property
    def ok(self):
        return self.status == 'proved'


def _zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


_uf10 = {}


def axioms(es):
    """ground instances of the axioms of the uninterpreted functions"""
    ax = []
    apps = T.uf_apps(es)
    by = {}
    for a in apps:
        by.setdefault(T.ufname(a), []).append(a)
    for a in by.get('sqrt', []):
        t = a.arg(0)
        ax.append(z3.Implies(t >= 0, z3.And(a >= 0, a * a == t)))
    for a in by.get('exp', []):
        ax.append(a > 0)
    for a in by.get('log', []):
        ax.append(z3.Implies(a.arg(0) == 1, a == 0))
    for a in by.get('pow', []):
        ax.append(z3.Implies(a.arg(0) > 0, a > 0))
        ax.append(z3.Implies(z3.And(a.arg(0) > 0, a.arg(1) == 0), a == 1))
    for n in ('cos', 'sin'):
        for a in by.get(n, []):
            ax.append(z3.And(a >= -1, a <= 1))
    for a in by.get('cos', []):
        ax.append(z3.Implies(a.arg(0) == 0, a == 1))
        for s in by.get('sin', []):
            if s.arg(0).eq(a.arg(0)):
                ax.append(a * a + s * s == 1)
    names = set()
    for e in es:
        for c in T.free_consts(e).values():
            names.add(c.decl().name())
    if 'PI!' in names:
        ax.append(z3.And(T.PI > z3.RealVal('3.14159265358979'),
                         T.PI < z3.RealVal('3.14159265358980')))
    return ax


def purify(es):
    """replace big-operator terms and uninterpreted applications with lambdas
    by constants (congruence by syntactic equality of canonical forms)"""
    memo = {}
    pool = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(x):
            memo[i] = x
            return x
        if T.bigop(x):
            if x.get_id() not in pool:
                pool[x.get_id()] = (z3.Real('big!%d' % x.get_id()), x)
            r = pool[x.get_id()][0]
        elif not x.children():
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                k = x.decl().kind()
                if k == z3.Z3_OP_AND:
                    r = z3.And(*ch)
                elif k == z3.Z3_OP_OR:
                    r = z3.Or(*ch)
                elif k == z3.Z3_OP_ADD:
                    r = z3.Sum(ch)
                elif k == z3.Z3_OP_MUL:
                    r = z3.Product(ch)
                else:
                    r = x.decl()(*ch)
        memo[i] = r
        return r
    return [go(e) for e in es], pool


_nn_cache = {}


def nonneg_sum(x):
    """SUM! term whose summand is provably nonnegative"""
    i = x.get_id()
    if i not in _nn_cache:
        ok = False
        if T.bigop(x) == 'SUM!' and z3.is_quantifier(x.arg(1)):
            k = T.fresh(I, 'nn')
            b = z3.substitute_vars(x.arg(1).body(), k)
            es, _ = purify([b >= 0])
            ok = squares(b) or z3check(axioms(es) + [z3.Not(es[0])],
                                       300)[0] == z3.unsat
        _nn_cache[i] = (ok, x)
    return _nn_cache[i][0]


def squares(b):
    """polynomial that is a perfect square of a sum (syntactic test)"""
    return False


def bigfacts(pool):
    out = []
    for c, x in pool.values():
        if nonneg_sum(x):
            out.append(c >= 0)
    return out


def has_quant(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def z3check(assertions, timeout_ms, tactic=None):
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    for a in assertions:
        s.add(_zb(a))
    r = s.check()
    return r, s


def relevant(hyps, goal):
    return hyps


# ------------------------------------------------------------ sign analysis
_NEG = {'p': 'n', 'n': 'p', 'nn': 'np', 'np': 'nn', 'z': 'z', None: None}


def _smulsign(a, b):
    if a == 'z' or b == 'z':
        return 'z'
    if a is None or b is None:
        return None
    neg = (a in ('n', 'np')) != (b in ('n', 'np'))
    strict = a in 'pn' and b in 'pn'
    return ('n' if neg else 'p') if strict else ('np' if neg else 'nn')


def _saddsign(a, b):
    if a == 'z':
        return b
    if b == 'z':
        return a
    if a is None or b is None:
        return None
    na, nb = a in ('n', 'np'), b in ('n', 'np')
    if na != nb:
        return None
    strict = a in 'pn' or b in 'pn'
    return ('n' if na else 'p') if strict else ('np' if na else 'nn')


def signfacts(hyps):
    f = {}
    for h in hyps:
        if not z3.is_app(h):
            continue
        k = h.decl().kind()
        neg = False
        if k == z3.Z3_OP_NOT:
            h = h.arg(0)
            if not z3.is_app(h):
                continue
            k = h.decl().kind()
            neg = True
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            continue
        a, b = h.arg(0), h.arg(1)
        if neg:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LE,
                 z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE}[k]
        if z3.is_rational_value(a) or z3.is_int_value(a):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE,
                 z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
        if not (z3.is_rational_value(b) or z3.is_int_value(b)):
            continue
        c = b.as_fraction() if z3.is_rational_value(b) else b.as_long()
        s = None
        if k == z3.Z3_OP_GE and c >= 0:
            s = 'p' if c > 0 else 'nn'
        elif k == z3.Z3_OP_GT and c >= 0:
            s = 'p'
        elif k == z3.Z3_OP_LE and c <= 0:
            s = 'n' if c < 0 else 'np'
        elif k == z3.Z3_OP_LT and c <= 0:
            s = 'n'
        if s and f.get(a.get_id(), (None,))[0] not in ('p', 'n'):
            f[a.get_id()] = (s, a)
    return f


def sign(t, facts, memo=None):
    """'p', 'nn', 'n', 'np', 'z' or None: sign of a term by its structure"""
    if memo is None:
        memo = {}
    i = t.get_id()
    if i in memo:
        return memo[i][0]
    r = _sign(t, facts, memo)
    memo[i] = (r, t)           # t kept alive: its id must not be reused
    return r


def _sign(t, facts, memo):
    if not z3.is_app(t):
        return None
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
        return 'p' if v > 0 else 'n' if v < 0 else 'z'
    if t.get_id() in facts:
        return facts[t.get_id()][0]
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = 'z'
        for c in ch:
            r = _saddsign(r, sign(c, facts, memo))
        if r is None:
            r = _polysign(t)
        if r is None:
            r = _common(t, facts, memo)
        return r
    if k == z3.Z3_OP_SUB:
        r = sign(ch[0], facts, memo)
        for c in ch[1:]:
            r = _saddsign(r, _NEG[sign(c, facts, memo)])
        return r
    if k == z3.Z3_OP_UMINUS:
        return _NEG[sign(ch[0], facts, memo)]
    if k == z3.Z3_OP_MUL:
        cnt = {}

        def flat(c):
            if c.decl().kind() == z3.Z3_OP_MUL:
                for q in c.children():
                    flat(q)
            else:
                cnt.setdefault(c.get_id(), [c, 0])[1] += 1
        flat(t)
        r = 'p'
        for c, m in cnt.values():
            s = sign(c, facts, memo)
            if m % 2 == 0:
                s = {'p': 'p', 'n': 'p', 'z': 'z'}.get(s, 'nn')
            r = _smulsign(r, s)
        return r
    if k == z3.Z3_OP_DIV:
        d = sign(ch[1], facts, memo)
        return _smulsign(sign(ch[0], facts, memo), d) if d in ('p', 'n') \
            else None
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
        e = ch[1].as_fraction()
        s = sign(ch[0], facts, memo)
        if e.denominator == 1:
            if e == 0:
                return 'p'
            if e % 2 == 0 and e > 0:
                return {'p': 'p', 'n': 'p', 'z': 'z'}.get(s, 'nn')
            if s in ('p', 'n') or e > 0:
                return s
        return 'p' if s == 'p' else None
    if k == z3.Z3_OP_ITE:
        a, b = sign(ch[1], facts, memo), sign(ch[2], facts, memo)
        return a if a == b else None
    if k == z3.Z3_OP_TO_REAL:
        return sign(ch[0], facts, memo)
    n = T.ufname(t)
    if n == 'exp':
        return 'p'
    if n == 'sqrt':
        s = sign(ch[0], facts, memo)
        return s if s in ('p', 'nn', 'z') else None
    if n == 'pow' and sign(ch[0], facts, memo) == 'p':
        return 'p'
    if T.same(t, T.PI):
        return 'p'
    return None


def _common(t, facts, memo):
    """sum with common factors: sign of the factors times that of the rest"""
    terms = []
    for c in t.children():
        fs = {}

        def flat(x):
            if x.decl().kind() == z3.Z3_OP_MUL:
                for q in x.children():
                    flat(q)
            else:
                fs.setdefault(x.get_id(), [x, 0])[1] += 1
        flat(c)
        terms.append(fs)
    com = {}
    for i, (x, m) in terms[0].items():
        if z3.is_rational_value(x):
            continue
        m = min([m] + [fs[i][1] if i in fs else 0 for fs in terms[1:]])
        if m:
            com[i] = (x, m)
    if not com:
        return None
    r = 'p'
    for x, m in com.values():
        s = sign(x, facts, memo)
        if m % 2 == 0:
            s = {'p': 'p', 'n': 'p', 'z': 'z'}.get(s, 'nn')
        r = _smulsign(r, s)
    if r is None:
        return None
    rest = []
    for fs in terms:
        q = z3.RealVal(1)
        for i, (x, m) in fs.items():
            for _ in range(m - (com[i][1] if i in com else 0)):
                q = q * x
        rest.append(q)
    rest = z3.simplify(z3.Sum(rest))
    s = sign(rest, facts, memo)
    if s is None:
        s = _polysign(rest)
    return _smulsign(r, s)


def _sturm(p):
    """sign of a univariate polynomial without real roots (Sturm)"""
    co = {}
    var0 = None
    for m, c in p.items():
        e = 0
        for a, x in m:
            at = T._atoms[a]
            if x < 0 or var0 not in (None, a):
                return None
            var0 = a
            e += x
        co[e] = c
    if not co:
        return 'z'
    if 0 not in co:
        return None
    step = 2 if all(e % 2 == 0 for e in co) else 1
    n = max(co) // step
    q = [Fraction(co.get(step * j, 0)) for j in range(n, -1, -1)]
    if step == 1 and n % 2:
        return None

    def trim(a):
        while a and a[0] == 0:
            a = a[1:]
        return a

    def rem(a, b):
        a = list(a)
        while len(a) >= len(b):
            f = a[0] / b[0]
            for j in range(len(b)):
                a[j] -= f * b[j]
            a = a[1:]
        return trim(a)
    seqs = [q, [c * (n - j) for j, c in enumerate(q[:-1])]]
    while seqs[-1]:
        r = [-c for c in rem(seqs[-2], seqs[-1])]
        if not r:
            break
        m = max(abs(c) for c in r)
        seqs.append([c / m for c in r])

    def var(vals):
        v = [x for x in vals if x != 0]
        return sum((a > 0) != (b > 0) for a, b in zip(v, v[1:]))
    pinf = var([s[0] for s in seqs if s])
    if step == 2:
        lo = var([s[-1] for s in seqs if s])
    else:
        lo = var([s[0] * (-1) ** (len(s) - 1) for s in seqs if s])
    if lo - pinf != 0:
        return None
    return 'p' if co[0] > 0 else 'n'


_poly_cache = {}


def _polysign(t):
    """univariate polynomial of constant sign (decided by z3)"""
    i = t.get_id()
    if i not in _poly_cache:
        r = None
        try:
            r = _sturm(T.nf(t))
        except (T.Unsupported, z3.Z3Exception, ArithmeticError):
            r = None
        _poly_cache[i] = (r, t)
    return _poly_cache[i][0]


class _NotClosed(Exception):
    pass


_closed = {}


def enclosure(e, memo=None):
    """mpmath interval containing the value of a closed term"""
    from mpmath import iv
    iv.prec = 200
    memo = {} if memo is None else memo

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_int_value(x):
            r = iv.mpf(x.as_long())
        elif z3.is_rational_value(x):
            r = iv.mpf(x.numerator_as_long()) / iv.mpf(
                x.denominator_as_long())
        elif not z3.is_app(x):
            raise _NotClosed
        else:
            k = x.decl().kind()
            if x.eq(T.PI):
                r = iv.pi
            elif not x.children():
                raise _NotClosed
            elif k == z3.Z3_OP_ITE:
                c = z3.simplify(x.arg(0))
                d = True if z3.is_true(c) else False if z3.is_false(c) \
                    else sign_decide([], c)
                if d is None:
                    raise _NotClosed
                r = go(x.arg(1) if d else x.arg(2))
            else:
                if k == z3.Z3_OP_UNINTERPRETED and T.ufname(x) not in (
                        'sqrt', 'exp', 'cos', 'sin', 'log', 'log10', 'pow'):
                    raise _NotClosed
                ch = [go(c) for c in x.children()]
                if k == z3.Z3_OP_ADD:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r + c
                elif k == z3.Z3_OP_SUB:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r - c
                elif k == z3.Z3_OP_MUL:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r * c
                elif k == z3.Z3_OP_UMINUS:
                    r = -ch[0]
                elif k == z3.Z3_OP_TO_REAL:
                    r = ch[0]
                elif k == z3.Z3_OP_DIV:
                    if 0 in ch[1]:
                        raise _NotClosed
                    r = ch[0] / ch[1]
                elif k == z3.Z3_OP_UNINTERPRETED:
                    n = T.ufname(x)
                    if n in ('sqrt', 'log', 'log10', 'pow') and not \
                            ch[0].a > 0:
                        raise _NotClosed
                    r = {'sqrt': iv.sqrt, 'exp': iv.exp, 'cos': iv.cos,
                         'sin': iv.sin, 'log': iv.log,
                         'log10': lambda t: iv.log(t) / iv.log(10),
                         'pow': lambda t, y: iv.exp(y * iv.log(t))}[n](*ch)
                else:
                    raise _NotClosed
        memo[i] = r
        return r
    return go(e)


def closed_sign(e):
    """sign of a term without free constants, by interval arithmetic"""
    i = e.get_id()
    if i in _closed:
        return _closed[i][1]
    r = None
    fc = T.free_consts(e)
    if all(c.eq(T.PI) for c in fc.values()):
        try:
            v = enclosure(e)
            r = 'p' if v.a > 0 else 'n' if v.b < 0 else None
        except _NotClosed:
            pass
    _closed[i] = (e, r)
    return r


def sign_decide(hyps, c):
    """sign test t <> 0 (or a <> b) decided by structure, or None"""
    if not z3.is_app(c):
        return None
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = sign_decide(hyps, c.arg(0))
        return None if r is None else not r
    if k == z3.Z3_OP_DISTINCT and len(c.children()) == 2:
        r = sign_decide(hyps, c.arg(0) == c.arg(1))
        return None if r is None else not r
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                 z3.Z3_OP_EQ) or c.arg(0).sort() not in (R, I):
        return None
    a, b = c.arg(0), c.arg(1)
    s = closed_sign(a - b)
    if s is not None and not (s == 'z'):
        return {z3.Z3_OP_LE: s == 'n', z3.Z3_OP_LT: s == 'n',
                z3.Z3_OP_GE: s == 'p', z3.Z3_OP_GT: s == 'p',
                z3.Z3_OP_EQ: False}[k]
    f = signfacts(hyps)
    s = _saddsign(sign(a, f), _NEG[sign(b, f)])
    if s is None:
        return None
    if k == z3.Z3_OP_EQ:
        return {'p': False, 'n': False, 'z': True}.get(s)
    tab = {z3.Z3_OP_LE: {'p': False, 'n': True, 'np': True, 'z': True},
           z3.Z3_OP_GE: {'p': True, 'nn': True, 'n': False, 'z': True},
           z3.Z3_OP_LT: {'p': False, 'nn': False, 'n': True, 'z': False},
           z3.Z3_OP_GT: {'p': True, 'n': False, 'np': False, 'z': False}}
    return tab[k].get(s)


_canon = {}


def canon(e):
    """arithmetic atoms over big operators in normal form (one side zero)"""
    if isinstance(e, bool) or not z3.is_expr(e):
        return e
    i = e.get_id()
    if i in _canon:
        return _canon[i][0]
    r = e
    if z3.is_bool(e) and not z3.is_quantifier(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            ch = [canon(c) for c in e.children()]
            r = (z3.And(*ch) if k == z3.Z3_OP_AND else
                 z3.Or(*ch) if k == z3.Z3_OP_OR else
                 z3.Not(ch[0]) if k == z3.Z3_OP_NOT else z3.Implies(*ch))
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                   z3.Z3_OP_EQ) and e.arg(0).sort() == R and big_terms([e]):
            try:
                d = T.poly_expr(T.nf(T.real(e.arg(0)) - T.real(e.arg(1))))
                r = (d <= 0 if k == z3.Z3_OP_LE else d >= 0
                     if k == z3.Z3_OP_GE else d < 0 if k == z3.Z3_OP_LT
                     else d > 0 if k == z3.Z3_OP_GT else d == 0)
            except (T.Unsupported, z3.Z3Exception):
                pass
    _canon[i] = (r, e)
    return r


_decide_cache = {}


LIGHT = [False]     # branch decisions without the quantified facts
_quant = {}


def has_quant(e):
    i = e.get_id()
    if i not in _quant:
        _quant[i] = (z3.is_quantifier(e) or any(
            has_quant(c) for c in e.children()), e)
    return _quant[i][0]


_syms = {}


def symbols(e):
    """names of the uninterpreted constants of a term"""
    r = _syms.get(e.get_id())
    if r is None:
        r = (frozenset(str(c) for c in T.free_consts(e).values()), e)
        _syms[e.get_id()] = r
    return r[0]


def connected(hs, cond):
    """the hypotheses linked to the condition by the constants they share"""
    seen, rest, out = set(symbols(cond)), [(h, symbols(h)) for h in hs], []
    while True:
        new = [(h, q) for h, q in rest if q & seen]
        if not new:
            return out
        ids = {id(h) for h, q in new}
        rest = [t for t in rest if id(t[0]) not in ids]
        for h, q in new:
            out.append(h)
            seen |= q


def decide(hyps, cond, timeout_ms=800):
    """True / False if the hypotheses decide the condition, None otherwise"""
    if isinstance(cond, bool):
        return cond
    r = sign_decide(hyps, cond)
    if r is not None:
        return r
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    hs = [_zb(h) for h in hyps if not isinstance(h, bool)]
    if LIGHT[0]:
        hs = [h for h in hs if not has_quant(h)]
        if has_quant(cond):
            return None
    key = (tuple(sorted(h.get_id() for h in hs)), cond.get_id())
    if key in _decide_cache:
        return _decide_cache[key][0]
    hs0, cond0 = hs, cond
    hs = connected(hs, cond)
    if big_terms([cond]):
        hs = hs + [canon(h) for h in hs if big_terms([h])]
        cond = canon(cond)
    es, pool = purify(hs + [cond])
    hs = hs0
    ax = axioms(es) + bigfacts(pool)
    r, _s = z3check(es[:-1] + ax + [z3.Not(es[-1])], timeout_ms)
    out = None
    if r == z3.unsat:
        out = True
    else:
        r, _s = z3check(es[:-1] + ax + [es[-1]], timeout_ms)
        if r == z3.unsat:
            out = False
    _decide_cache[key] = (out, hs, cond0)
    return out


def feasible(hyps, timeout_ms=1500):
    hs = [_zb(h) for h in hyps]
    if LIGHT[0]:
        hs = [h for h in hs if not has_quant(h)]
    es, _ = purify(hs)
    r, _s = z3check(es + axioms(es), timeout_ms)
    return r != z3.unsat


def sat_cover(hyps, timeout_ms=4000):
    """'sat', 'unsat' or 'unknown' (vacuity guard)"""
    es, _ = purify([_zb(h) for h in hyps])
    r, _s = z3check(es + axioms(es), timeout_ms)
    return str(r)


def big_terms(es):
    seen, acc, st = set(), {}, list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if T.bigop(x):
            acc[x.get_id()] = x
        st.extend(x.children())
    return list(acc.values())


def merge_bigs(hyps, e, depth):
    """rewrite provably equal big-operator terms of e to one representative"""
    bs = big_terms([e])
    subst = []
    reps = []
    for b in bs:
        for r in reps:
            if not r.decl().eq(b.decl()):
                continue
            j = r.num_args() - 1
            if not (z3.is_quantifier(r.arg(j)) and
                    z3.is_quantifier(b.arg(j))):
                continue
            if all(decide(hyps, r.arg(q) == b.arg(q)) for q in range(j)):
                k = T.fresh(r.arg(j).var_sort(0), 'kc')
                x = z3.substitute_vars(r.arg(j).body(), k)
                y = z3.substitute_vars(b.arg(j).body(), k)
                if j == 1:
                    h2 = list(hyps) + [k >= 0, k < r.arg(0)]
                else:
                    h2 = list(hyps) + [z3.Or(
                        z3.And(k >= r.arg(0), k <= r.arg(1)),
                        z3.And(k >= r.arg(1), k <= r.arg(0)))]
                if prove_eq(h2, x, y, depth + 1, 4000).ok:
                    subst.append((b, r))
                    break
        else:
            reps.append(b)
    if subst:
        return z3.substitute(e, *subst), True
    return e, False


def empty_bigs(hyps, e):
    """big operators over a provably empty / one-element range"""
    sub = []
    for b in big_terms([e]):
        nm = T.bigop(b)
        if nm not in ('SUM!', 'PROD!'):
            continue
        if decide(hyps, b.arg(0) <= 0) is True:
            sub.append((b, z3.RealVal(0 if nm == 'SUM!' else 1)))
        elif z3.is_quantifier(b.arg(1)) and \
                decide(hyps, b.arg(0) == 1) is True:
            sub.append((b, z3.substitute_vars(b.arg(1).body(),
                                              z3.IntVal(0))))
    if sub:
        return z3.substitute(e, *sub), True
    return e, False


def ite_conds(e):
    return T.ites([e])


def prove_eq(hyps, a, b, depth=0, timeout_ms=20000, formal=False, budget=None):
    """a == b for real/int terms"""
    if depth > 6:
        return Result('unknown', info='depth')
    if budget is None:
        budget = [400]
    a, b = T.real(a), T.real(b)
    if depth == 0 and not formal and ite_conds(a - b) and \
            big_terms([a - b]):
        r = _abstract_eq(hyps, a, b)
        if r is not None:
            return r
    d = T.simp_ite(a - b)
    return _zero(list(hyps), d, depth, timeout_ms, formal, budget)


def recanon(e, memo=None):
    """arithmetic subterms outside ITEs in normal form"""
    memo = {} if memo is None else memo

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if not z3.is_app(x) or not x.children():
            r = x
        elif x.sort() == R and not ite_conds(x):
            try:
                r = T.poly_expr(T.nf(x))
            except (T.Unsupported, z3.Z3Exception):
                r = x
        elif T.bigop(x):
            r = x
        else:
            ch = [go(c) for c in x.children()]
            k = x.decl().kind()
            r = (z3.Sum(ch) if k == z3.Z3_OP_ADD else
                 z3.Product(ch) if k == z3.Z3_OP_MUL else
                 z3.And(*ch) if k == z3.Z3_OP_AND else
                 z3.Or(*ch) if k == z3.Z3_OP_OR else x.decl()(*ch))
        memo[i] = (x, r)
        return r
    return go(e)


def _abstract_eq(hyps, a, b):
    """equality with the normalised big terms as opaque constants"""
    t0 = time.time()
    T._side[0] = side = T.Side()
    try:
        memo = {}
        a, b = recanon(a, memo), recanon(b, memo)
    except z3.Z3Exception:
        return None
    finally:
        T._side[0] = None
    for c in side.conds.values():
        if decide(hyps, c, 3000) is not True:
            return None
    if a.eq(b):
        STATS['nf'][0] += 1
        return Result('proved', 'nf')
    hs = [_zb(h) for h in hyps if not isinstance(h, bool) and not
          has_quant(h)]
    es, pool = purify(hs + [a == b])
    r, _s = z3check(es[:-1] + [z3.Not(es[-1])], 1500)
    if r == z3.unsat:
        STATS['z3'][0] += 1
        STATS['z3'][1] += time.time() - t0
        return Result('proved', 'z3')
    return None


def _zero(hyps, d, depth, timeout_ms, formal, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return Result('unknown', info='case split budget')
    t0 = time.time()
    T._side[0] = side = T.Side()
    try:
        p = T.nf(d)
        z = T.rational_zero(p)
    except z3.Z3Exception as ex:
        z = False
    finally:
        T._side[0] = None
    if z:
        bad = None
        for c in side.conds.values():
            if formal:
                continue
            if decide(hyps, c, 3000) is not True:
                bad = c
                break
        if bad is None:
            STATS['nf'][0] += 1
            STATS['nf'][1] += time.time() - t0
            return Result('proved', 'nf')
    # case split on ITE conditions
    conds = ite_conds(d)
    conds = [c for c in conds if not _has_bound(c)]
    if conds:
        c = conds[0]
        v = decide(hyps, c)
        if v is not None:
            return _zero(hyps, T.assume_in(d, c, v), depth, timeout_ms,
                         formal, budget)
        r1 = _zero(hyps + [c], T.assume_in(d, c, True), depth, timeout_ms,
                   formal, budget)
        if not r1.ok:
            return r1
        return _zero(hyps + [z3.Not(c)], T.assume_in(d, c, False), depth,
                     timeout_ms, formal, budget)
    if big_terms([d]):
        d2, changed = empty_bigs(hyps, d)
        if changed:
            return _zero(hyps, d2, depth, timeout_ms, formal, budget)
        try:
            e = T.poly_expr(T.nf(d))
        except T.Unsupported:
            e = d
        d2, changed = merge_bigs(hyps, e, depth)
        if changed:
            return _zero(hyps, d2, depth + 1, timeout_ms, formal, budget)
    if formal:
        return Result('unknown', 'nf', info='formal identity not found')
    return smt(hyps, d == 0, timeout_ms)


def _has_bound(c):
    return any(x.decl().name().startswith('k!')
               for x in T.free_consts(c).values())


def smt(hyps, goal, timeout_ms=20000):
    hs = [_zb(h) for h in hyps if not (isinstance(h, bool) and h)]
    g = _zb(goal)
    if big_terms([g]):
        allx = hs + [g]
        allx = allx[:-1] + [canon(h) for h in hs if big_terms([h])] + \
            [canon(a) for a in axioms(allx) if big_terms([a])] + [g]
    else:
        allx = hs + [g]
    es, pool = purify(allx)
    ax = axioms(es) + bigfacts(pool)
    t0 = time.time()
    base = es[:-1] + ax + [z3.Not(es[-1])]
    r, s = z3check(base, timeout_ms)
    dt = time.time() - t0
    STATS['z3'][0] += 1
    STATS['z3'][1] += dt
    if r == z3.unsat:
        return Result('proved', 'z3')
    if r == z3.sat:
        return Result('refuted', 'z3', s.model(),
                      'counter-model' + (' (big operators abstracted)'
                                         if pool else ''))
    t0 = time.time()
    try:
        r2 = cvc5check(s, max(2000, timeout_ms // 2))
    except Exception as ex:
        r2 = 'error %s' % ex
    STATS['cvc5'][0] += 1
    STATS['cvc5'][1] += time.time() - t0
    if r2 == 'unsat':
        return Result('proved', 'cvc5')
    return Result('unknown', 'z3+cvc5', info='z3: unknown; cvc5: %s' % r2)


def cvc5check(s, timeout_ms):
    import cvc5
    txt = re.sub(r'(?<![\w!|.])(sqrt|exp|sin|cos|tan|log|arctan|arcsin|'
                 r'arccos)(?![\w!|.])', r'\1!u', s.to_smt2())
    slv = cvc5.Solver()
    slv.setOption('tlimit-per', str(int(timeout_ms)))
    slv.setLogic('ALL')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = p.getSymbolManager()
    res = None
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(slv, sm)
        if 'unsat' in out:
            res = 'unsat'
        elif 'sat' in out and res is None:
            res = 'sat'
    return res or 'unknown'


_MUL = z3.Function('mul!', R, R, R)


def abs_mul(e, memo):
    """products of two unknowns as values of an uninterpreted function"""
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    if z3.is_quantifier(e):
        vs = [z3.Const('%s' % e.var_name(j), e.var_sort(j))
              for j in range(e.num_vars())]
        vs = [z3.FreshConst(v.sort(), 'bv') for v in vs]
        sub = lambda x: abs_mul(z3.substitute_vars(x, *reversed(vs)), memo)
        pats = []
        for k in range(e.num_patterns()):
            ts = [sub(t) for t in e.pattern(k).children()]
            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        r = (z3.ForAll if e.is_forall() else z3.Exists)(
            vs, sub(e.body()), patterns=pats)
    elif not e.children():
        r = e
    else:
        ch = [abs_mul(c, memo) for c in e.children()]
        if z3.is_mul(e) and e.sort() == R:
            num = [c for c in ch if z3.is_rational_value(c)]
            oth = sorted((c for c in ch if not z3.is_rational_value(c)),
                         key=lambda c: (len(c.children()), c.decl().name()))
            if len(oth) > 1:
                r = oth[-1]
                for c in reversed(oth[:-1]):
                    r = _MUL(c, r)
                for c in num:
                    r = c * r
            else:
                r = z3.Product(ch)
        else:
            k = e.decl().kind()
            r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(
                *ch) if k == z3.Z3_OP_OR else e.decl()(*ch) if len(
                    ch) == e.decl().arity() else _nary(e, ch)
    memo[i] = (e, r)
    return r


def _nary(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return e.decl()(*ch)


TRIES = [(3, {}), (5, {'smt.mbqi': False, 'smt.arith.solver': 2}),
         (4, {'smt.mbqi': False, 'smt.random_seed': 3}),
         (12, 'cvc5'),
         (10, {'smt.mbqi': False, 'smt.arith.solver': 2,
               'smt.random_seed': 7}),
         (10, {'smt.mbqi': False, 'smt.random_seed': 11})]


def _quantified(hyps, goal, timeout_ms):
    """by instantiation of the quantified facts (z3, cvc5)"""
    memo = {}
    es = [abs_mul(_zb(h), memo) for h in hyps] + [
        abs_mul(z3.Not(goal), memo)]
    info = ''
    s = None
    for secs, how in TRIES:
        if how == 'cvc5':
            if _cvc5_unsat(s.to_smt2(), secs):
                return Result('proved', 'cvc5')
            continue
        s = z3.Solver()
        s.set('timeout', secs * 1000)
        for k, v in how.items():
            s.set(k, v)
        s.add(*es)
        r = s.check()
        if r == z3.unsat:
            return Result('proved', 'z3')
        info = 'quantified facts: %s %s' % (r, s.reason_unknown() if
                                            r == z3.unknown else '')
        if r == z3.sat or 'incomplete' in info and not how:
            # the facts do not imply the goal
            break
    if _os.environ.get('PYVC_DUMP'):
        STATS['dump'] = STATS.get('dump', 0) + 1
        open('%s/%d.smt2' % (_os.environ['PYVC_DUMP'], STATS['dump']),
             'w').write(s.to_smt2())
    return Result('unknown', 'z3', None, info)


def _cvc5_unsat(txt, secs):
    import subprocess
    try:
        r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % (
            secs * 1000)], input='(set-logic ALL)\n' + txt,
            capture_output=True, text=True, timeout=secs + 5)
    except (OSError, subprocess.TimeoutExpired):
        return False
    return r.stdout.strip() == 'unsat'


def prove(hyps, goal, timeout_ms=20000, formal=False):
    """hyps |- goal"""
    if isinstance(goal, bool):
        if goal:
            STATS['trivial'][0] += 1
            return Result('proved', 'trivial')
        if LIGHT[0]:
            return _quantified([h for h in hyps if not isinstance(h, bool)],
                               z3.BoolVal(False), timeout_ms)
        if not feasible(hyps, 4000):
            return Result('proved', 'z3')
        r, s = z3check([_zb(h) for h in purify([_zb(h) for h in hyps])[0]],
                       4000)
        return Result('refuted', 'z3', s.model() if r == z3.sat else None,
                      'goal is false')
    g = z3.simplify(goal)
    if z3.is_true(g):
        STATS['trivial'][0] += 1
        return Result('proved', 'trivial')
    hyps = [h for h in hyps if not (isinstance(h, bool) and h)]
    if z3.is_quantifier(goal):
        if not goal.is_forall():
            return _quantified(hyps, goal, timeout_ms)
        vs = [z3.FreshConst(goal.var_sort(j), 'sk')
              for j in range(goal.num_vars())]
        return prove(hyps, z3.substitute_vars(goal.body(), *reversed(vs)),
                     timeout_ms, formal)
    k = goal.decl().kind()
    if k == z3.Z3_OP_AND:
        for c in goal.children():
            r = prove(hyps, c, timeout_ms, formal)
            if not r.ok:
                return r
        return r
    if k == z3.Z3_OP_IMPLIES:
        return prove(hyps + [goal.arg(0)], goal.arg(1), timeout_ms, formal)
    if LIGHT[0]:
        r = _quantified(hyps, goal, timeout_ms)
        if r.ok or any(has_quant(_zb(h)) for h in hyps):
            return r
    if k == z3.Z3_OP_EQ and goal.arg(0).sort() in (R, I):
        return prove_eq(hyps, goal.arg(0), goal.arg(1), 0, timeout_ms, formal)
    if formal:
        return Result('unknown', 'nf', info='not an identity')
    if sign_decide(hyps, goal) is True:
        STATS['sign'][0] += 1
        return Result('proved', 'sign')
    return smt(hyps, goal, timeout_ms)
