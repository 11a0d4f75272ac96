"""Scalar term language of the verification-condition generator.

Scalars are Python ints / Fractions (exact), z3 Int/Real/Bool expressions, Cx
(complex number with real and imaginary parts being real scalars) or Inf.
Floating point numbers of the program are treated as exact reals (a listed
assumption); transcendental functions are uninterpreted, with the axioms and
rewrites of this module.
"""
from fractions import Fraction
import z3

R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """Construct outside the verifier's reach: the obligation is undischarged."""


class Inf:
    """Python-level infinity (sign +1/-1), and nan (sign 0)."""
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return {1: 'inf', -1: '-inf', 0: 'nan'}[self.s]

    def __eq__(self, o):
        return isinstance(o, Inf) and o.s == self.s

    def __hash__(self):
        return hash(('Inf', self.s))


INFSYM = z3.Real('INF!')     # infinity as an element of an array of reals
PI = z3.Real('PI!')


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __repr__(self):
        return 'Cx(%s, %s)' % (self.re, self.im)


class Rz:
    """element of the complex field, kept abstract: a term over formal
    symbols (J! stands for the imaginary unit).  Only field identities are
    ever used on such terms."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Rz(%s)' % self.e


J = z3.Real('J!')


def rz(x):
    if isinstance(x, Rz):
        return x
    if isinstance(x, Cx):
        return Rz(real(x.re) + J * real(x.im))
    return Rz(real(x))


def isz(x):
    return isinstance(x, z3.ExprRef)


def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def isbool(x):
    return isinstance(x, bool) or (isz(x) and x.sort() == B)


def isscalar(x):
    return isinstance(x, (int, Fraction, bool, Cx, Inf, Rz)) or (
        isz(x) and x.sort() in (R, I, B))


def isint(x):
    return (isinstance(x, int)) or (isz(x) and x.sort() == I)


def fromfloat(v):
    """float -> exact Fraction of its shortest decimal representation"""
    if v != v:
        return Inf(0)
    if v in (float('inf'), float('-inf')):
        return Inf(1 if v > 0 else -1)
    return Fraction(repr(float(v)))


def lit(x):
    """z3 literal of a scalar"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, Inf):
        if x.s == 0:
            return z3.Real('NAN!')
        return INFSYM if x.s > 0 else -INFSYM
    return x


def real(x):
    """z3 Real expression of a real scalar"""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(str(x))
    if isinstance(x, Inf):
        return lit(x)
    if isinstance(x, (Cx, Rz)):
        raise Unsupported('complex used as real')
    if not isz(x):
        raise Unsupported('not a number: %r' % (x,))
    if x.sort() == I:
        return z3.ToReal(x)
    if x.sort() == B:
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x


def tobool(x):
    """bool term of a scalar used as a truth value"""
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, Fraction)):
        return x != 0
    if isinstance(x, Cx):
        return sor(sne(x.re, 0), sne(x.im, 0))
    if isinstance(x, Inf):
        return True
    if isinstance(x, Rz):
        return fold(x.e != 0)
    if x.sort() == B:
        return fold(x)
    return fold(x != 0)


def fold(e):
    """fold a z3 bool that simplifies to a literal"""
    if isinstance(e, bool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return e


def unlit(e):
    """z3 numeral -> python number"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return Fraction(f.numerator, f.denominator)
    return e


def _arith(x):
    if isinstance(x, bool):
        return int(x)
    if isz(x) and x.sort() == B:
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def _pair(a, b):
    """two z3 expressions of a common arithmetic sort"""
    if isint(a) and isint(b):
        return lit(a), lit(b)
    return real(a), real(b)


def iscx(x):
    return isinstance(x, Cx)


def cx(x):
    return x if isinstance(x, Cx) else Cx(x, 0)


def sadd(a, b):
    a, b = _arith(a), _arith(b)
    if isinstance(a, Rz) or isinstance(b, Rz):
        return Rz(real(sadd(rz(a).e, rz(b).e)))
    if iscx(a) or iscx(b):
        a, b = cx(a), cx(b)
        return Cx(sadd(a.re, b.re), sadd(a.im, b.im))
    if isinstance(a, Inf) and isinstance(b, Inf):
        return a if a.s == b.s else Inf(0)
    if isinstance(a, Inf) and isnum(b):
        return a
    if isinstance(b, Inf) and isnum(a):
        return b
    if isnum(a) and isnum(b):
        return a + b
    if isnum(a) and a == 0 and (isint(a) or not isint(b)):
        return b
    if isnum(b) and b == 0 and (isint(b) or not isint(a)):
        return a
    a, b = _pair(a, b)
    return a + b


def sneg(a):
    a = _arith(a)
    if isinstance(a, Rz):
        return Rz(-a.e)
    if iscx(a):
        return Cx(sneg(a.re), sneg(a.im))
    if isinstance(a, Inf):
        return Inf(-a.s)
    return -a


def ssub(a, b):
    a, b = _arith(a), _arith(b)
    if isinstance(a, Rz) or isinstance(b, Rz):
        return Rz(real(ssub(rz(a).e, rz(b).e)))
    if iscx(a) or iscx(b):
        a, b = cx(a), cx(b)
        return Cx(ssub(a.re, b.re), ssub(a.im, b.im))
    if isinstance(a, Inf) or isinstance(b, Inf):
        return sadd(a, sneg(b))
    if isnum(a) and isnum(b):
        return a - b
    if isnum(b) and b == 0 and (isint(b) or not isint(a)):
        return a
    if isnum(a) and a == 0:
        return sneg(b) if (isint(a) or not isint(b)) else -real(b)
    a, b = _pair(a, b)
    if a.eq(b):
        return 0 if a.sort() == I else Fraction(0)
    return a - b


def smul(a, b):
    a, b = _arith(a), _arith(b)
    if isinstance(a, Rz) or isinstance(b, Rz):
        return Rz(real(smul(rz(a).e, rz(b).e)))
    if iscx(a) or iscx(b):
        a, b = cx(a), cx(b)
        return Cx(ssub(smul(a.re, b.re), smul(a.im, b.im)),
                  sadd(smul(a.re, b.im), smul(a.im, b.re)))
    if isinstance(a, Inf) and isnum(b):
        return Inf(a.s * ((b > 0) - (b < 0)))
    if isinstance(b, Inf) and isnum(a):
        return smul(b, a)
    if isinstance(a, Inf) and isinstance(b, Inf):
        return Inf(a.s * b.s)
    if isnum(a) and isnum(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 0:
                return 0 if isint(x) and isint(y) else Fraction(0)
            if x == 1 and (isint(x) or not isint(y)):
                return y
    a, b = _pair(a, b)
    return a * b


def sdiv(a, b):
    """true division"""
    a, b = _arith(a), _arith(b)
    if isinstance(a, Rz) or isinstance(b, Rz):
        return Rz(real(sdiv(rz(a).e, rz(b).e)))
    if iscx(b):
        d = sadd(smul(b.re, b.re), smul(b.im, b.im))
        n = smul(cx(a), Cx(b.re, sneg(b.im)))
        return Cx(sdiv(n.re, d), sdiv(n.im, d))
    if iscx(a):
        return Cx(sdiv(a.re, b), sdiv(a.im, b))
    if isinstance(b, Inf) and not isinstance(a, Inf):
        return Fraction(0)
    if isnum(a) and isnum(b) and b != 0:
        return Fraction(a) / Fraction(b)
    if isinstance(a, Inf) and isnum(b) and b != 0:
        return smul(a, b)
    if isnum(b) and b != 0:
        return smul(a, 1 / Fraction(b)) if b != 1 else (
            a if not isint(a) else real(a))
    return real(a) / real(b)


def _lt0(a):
    return a < 0


def scmp(op, a, b):
    a, b = _arith(a), _arith(b)
    if isinstance(a, Rz) or isinstance(b, Rz):
        if op not in ('==', '!='):
            raise Unsupported('ordering of complex numbers')
        a, b = rz(a).e, rz(b).e
        return fold(a == b) if op == '==' else snot(fold(a == b))
    if iscx(a) or iscx(b):
        if op in ('==', '!='):
            a, b = cx(a), cx(b)
            e = sand(scmp('==', a.re, b.re), scmp('==', a.im, b.im))
            return e if op == '==' else snot(e)
        raise Unsupported('ordering of complex numbers')
    if isinstance(a, Inf) or isinstance(b, Inf):
        # finite numbers against infinities: symbolic reals are finite
        va = a.s * 2 if isinstance(a, Inf) else 0
        vb = b.s * 2 if isinstance(b, Inf) else 0
        if (isinstance(a, Inf) and a.s == 0) or (
                isinstance(b, Inf) and b.s == 0):
            return op == '!='
        return {'<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb,
                '==': va == vb, '!=': va != vb}[op]
    if isnum(a) and isnum(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                '==': a == b, '!=': a != b}[op]
    a, b = _pair(a, b)
    if a.eq(b):
        return op in ('==', '<=', '>=')
    e = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
         '==': a == b, '!=': a != b}[op]
    return fold(e)


def slt(a, b): return scmp('<', a, b)
def sle(a, b): return scmp('<=', a, b)
def sgt(a, b): return scmp('>', a, b)
def sge(a, b): return scmp('>=', a, b)
def seq(a, b): return scmp('==', a, b)
def sne(a, b): return scmp('!=', a, b)


def snot(a):
    a = tobool(a)
    return (not a) if isinstance(a, bool) else z3.Not(a)


def sand(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def sor(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def simplies(a, b):
    return sor(snot(a), b)


class Join:
    """guarded choice of non-scalar values (cond, a, b)"""


def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    if isinstance(a, Cx) and isinstance(b, Cx):
        return same(a.re, b.re) and same(a.im, b.im)
    try:
        return type(a) == type(b) and a == b
    except Exception:
        return False


def ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, Rz) or isinstance(b, Rz):
        return Rz(z3.If(c, rz(a).e, rz(b).e))
    if iscx(a) or iscx(b):
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if not (isscalar(a) and isscalar(b)):
        raise Unsupported('choice between non-scalar values %r / %r' % (
            type(a), type(b)))
    if isbool(a) and isbool(b):
        return fold(z3.If(c, lit(a), lit(b)))
    a, b = _pair(_arith(a), _arith(b))
    return z3.If(c, a, b)


def smin(a, b):
    if isnum(a) and isnum(b):
        return min(a, b)
    return ite(sle(a, b), a, b)


def smax(a, b):
    if isnum(a) and isnum(b):
        return max(a, b)
    return ite(sge(a, b), a, b)


def _intsplit(a, b):
    """a == b*q + r with the multiples of b moved to q"""
    p = nf(real(a))
    q, r = {}, {}
    for m, c in p.items():
        if c.denominator == 1 and c % b == 0:
            q[m] = c / b
        else:
            r[m] = c
    try:
        return unlit(z3.simplify(toint(poly_expr(q)))), unlit(
            z3.simplify(toint(poly_expr(r))))
    except Unsupported:
        return 0, a


def intvalued(p):
    """is the real polynomial visibly integer valued?"""
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for a, x in m:
            if x < 0:
                return False
            e = _atoms[a]
            if e.sort() == I or e.decl().kind() == z3.Z3_OP_TO_REAL:
                continue
            if bigop(e) in ('SUM!', 'PROD!') and z3.is_quantifier(e.arg(1)) \
                    and intvalued(nf(openlam(e.arg(1))[1])):
                continue
            if e.decl().kind() == z3.Z3_OP_ITE and intvalued(
                    nf(e.arg(1))) and intvalued(nf(e.arg(2))):
                continue
            return False
    return True


def sfloordiv(a, b):
    a, b = _arith(a), _arith(b)
    if isnum(a) and isnum(b):
        return a // b
    if isint(a) and isint(b):
        if isnum(b) and b > 0:
            q, r = _intsplit(a, b)
            if isnum(r):
                return sadd(q, r // b)
            return sadd(q, lit(r) / lit(b))
        raise Unsupported('integer division by a symbolic value')
    return real(sfloor(sdiv(a, b)))


def smod(a, b):
    a, b = _arith(a), _arith(b)
    if isnum(a) and isnum(b):
        return a % b
    if isint(a) and isint(b) and isnum(b) and b > 0:
        q, r = _intsplit(a, b)
        if isnum(r):
            return r % b
        return lit(r) % lit(b)
    if isnum(b) and b > 0:
        return ssub(a, smul(b, real(sfloor(sdiv(a, b)))))
    raise Unsupported('modulus by a symbolic value')


def sfloor(a):
    """floor, as an Int-valued term"""
    if isinstance(a, Inf):
        return a
    if isnum(a):
        return a.__floor__()
    if isint(a):
        return a
    return z3.ToInt(a)


def sceil(a):
    return sneg(sfloor(sneg(a)))


def strunc(a):
    if isnum(a):
        return int(a)
    if isint(a):
        return a
    p = nf(a)
    if intvalued(p):
        try:
            return toint(poly_expr(p))
        except Unsupported:
            return z3.ToInt(poly_expr(p))
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


_UF = {}


def uf(name, *args):
    k = (name, len(args))
    if k not in _UF:
        _UF[k] = z3.Function(name, *([R] * (len(args) + 1)))
    return _UF[k](*[nfexpr(real(a)) for a in args])


def ufname(e):
    if z3.is_app(e) and e.num_args() > 0 and \
            e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return e.decl().name()
    return None


def sabs(a):
    if isinstance(a, Rz):
        return uf('zabs', a.e)
    if iscx(a):
        if same(a.im, 0) or same(a.im, Fraction(0)):
            return sabs(a.re)
        return ssqrt(sadd(smul(a.re, a.re), smul(a.im, a.im)))
    if isinstance(a, Inf):
        return Inf(abs(a.s))
    a = _arith(a)
    if isnum(a):
        return abs(a)
    if ufname(a) == 'exp' or (ufname(a) == 'pow' and isnum(unlit(a.arg(0)))
                              and unlit(a.arg(0)) > 0):
        return a
    return z3.If(a >= 0, a, -a)


def ssqrt(a):
    if isnum(a):
        if a == 0:
            return Fraction(0)
        if a > 0:
            from math import isqrt
            f = Fraction(a)
            n, d = isqrt(f.numerator), isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
    if isinstance(a, Inf):
        return a
    if iscx(a):
        raise Unsupported('square root of a complex number')
    if _cases(a) and any(z3.is_rational_value(a.arg(q)) for q in (1, 2)):
        return ite(a.arg(0), ssqrt(unlit(a.arg(1))), ssqrt(unlit(a.arg(2))))
    return uf('sqrt', a)


def _sgn_arg(a):
    """canonical sign of an argument: returns (+-1, expr)"""
    p = nf(real(a))
    if not p:
        return 0, None
    k = min(p, key=_mono_key)
    if p[k] < 0:
        return -1, poly_expr({m: -c for m, c in p.items()})
    return 1, poly_expr(p)


def _cases(a):
    return isz(a) and z3.is_app_of(a, z3.Z3_OP_ITE)


def scos(a):
    if _cases(a):
        return ite(a.arg(0), scos(a.arg(1)), scos(a.arg(2)))
    s, e = _sgn_arg(a)
    if s == 0:
        return 1
    return uf('cos', e)


def ssin(a):
    if _cases(a):
        return ite(a.arg(0), ssin(a.arg(1)), ssin(a.arg(2)))
    s, e = _sgn_arg(a)
    if s == 0:
        return 0
    r = uf('sin', e)
    return r if s > 0 else -r


def sexp(a):
    if iscx(a):
        m = sexp(a.re)
        return Cx(smul(m, scos(a.im)), smul(m, ssin(a.im)))
    if isnum(a) and a == 0:
        return 1
    if isinstance(a, Inf):
        return a if a.s > 0 else Fraction(0)
    if isz(a) and not nf(a):
        return 1
    return uf('exp', a)


def slog(a):
    if isnum(a) and a == 1:
        return 0
    a = lit(a) if not isz(a) else a
    if ufname(real(a)) == 'exp':
        return real(a).arg(0)
    return uf('log', a)


def slog10(a):
    if isnum(a) and a == 1:
        return 0
    if isnum(a) and a > 0:
        f = Fraction(a)
        for k in range(-30, 31):
            if f == Fraction(10) ** k:
                return k
    r = real(a)
    r = nfexpr(r)
    if ufname(r) == 'pow' and unlit(r.arg(0)) == 10:
        return r.arg(1)
    return uf('log10', r)


def spow(a, b):
    a, b = _arith(a), _arith(b)
    if isnum(b) and Fraction(b).denominator == 1:
        n = int(b)
        if isnum(a):
            if n >= 0:
                return a ** n if not isinstance(b, Fraction) else \
                    Fraction(a) ** n
            if a != 0:
                return Fraction(a) ** n
        if n == 0:
            return 1
        r = a
        for _ in range(abs(n) - 1):
            r = smul(r, a)
        return r if n > 0 else sdiv(1, r)
    if iscx(a) or iscx(b) or isinstance(a, Rz) or isinstance(b, Rz):
        raise Unsupported('complex power')
    if isnum(b) and Fraction(b) == Fraction(1, 2):
        return ssqrt(a)
    if isinstance(a, Inf) or isinstance(b, Inf):
        raise Unsupported('power with infinity')
    e = nfexpr(real(b))
    if isnum(a) and a == 10 and ufname(e) == 'log10':
        return e.arg(0)         # only used for positive arguments (axiom)
    return uf('pow', a, e)


# ---------------------------------------------------------------- normal form
# polynomial: dict monomial -> Fraction; monomial: sorted tuple of
# (atom id, exponent); exponents may be negative.  Atoms are z3 expressions.
_atoms = {}
_atom_ids = {}
_atom_poly = {}       # atoms that stand for a multi-term polynomial
_keep = []


def _atom(e):
    i = e.get_id()
    if i not in _atoms:
        _atoms[i] = e
        _keep.append(e)
    return i


_atom_str = {}


def _akey(a):
    if a not in _atom_str:
        _atom_str[a] = _atoms[a].sexpr() if a in _atoms else str(a)
    return _atom_str[a]


def _mono_key(m):
    return tuple((_akey(a), x) for a, x in m)


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


class Side:
    """non-vanishing / sign conditions used by a normal form"""
    def __init__(self):
        self.conds = {}
        self.memo = {}

    def need(self, e):
        self.conds[e.get_id()] = e


_side = [None]
LOOSE = {}


def hasbig(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def nonneg(t):
    from . import solver as S
    return S.sign_decide([], t >= 0) is True


def loose(c):
    """condition of a cancellation made while a term was being built: an
    obligation of the unit (vc.side_conditions)"""
    LOOSE.setdefault(c.sexpr(), c)



def _mmul(m, n):
    d = dict(m)
    for a, x in n:
        y = d.get(a, 0)
        if y and (y < 0) != (x < 0):
            if _side[0] is not None:
                _side[0].need(_atoms[a] != 0)
            else:
                loose(_atoms[a] != 0)
        y += x
        if y:
            d[a] = y
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return reduce_sq(r)


def reduce_sq(p):
    """sqrt(t)^2 -> t and sin(t)^2 -> 1 - cos(t)^2"""
    for m in list(p):
        for a, x in m:
            n = ufname(_atoms[a])
            if x >= 2 and _atoms[a].eq(J):
                q, c = dict(p), p[m]
                del q[m]
                m2 = tuple((b, y) if b != a else (b, y - 2) for b, y in m)
                m2 = tuple(t for t in m2 if t[1])
                return reduce_sq(padd(q, {m2: -c}))
            if x >= 2 and n in ('sqrt', 'sin'):
                c = p[m]
                rest = tuple((b, y) for b, y in m if b != a)
                if x > 2:
                    rest = tuple(sorted(rest + ((a, x - 2),)))
                if n == 'sqrt':
                    t = _atoms[a].arg(0)
                    if _side[0] is not None:
                        _side[0].need(t >= 0)
                    elif not nonneg(t):
                        if hasbig(t):
                            # left as it is; reduced later, with its condition
                            continue
                        loose(t >= 0)
                    q = nf(t)
                else:
                    co = _UFcos(_atoms[a].arg(0))
                    q = {(): Fraction(1), ((_atom(co), 2),): Fraction(-1)}
                new = dict(p)
                del new[m]
                new = padd(new, pmul({rest: c}, q))
                return reduce_sq(new)
    return p


SUMF = z3.Function('SUM!', I, z3.ArraySort(I, R), R)      # sum over 0<=k<n
PRODF = z3.Function('PROD!', I, z3.ArraySort(I, R), R)
# integral of a function of a real variable from lo to hi
INTF = z3.Function('INT!', R, R, z3.ArraySort(R, R), R)


def bigop(e):
    n = ufname(e)
    return n if n in ('SUM!', 'PROD!', 'INT!') else None


def _depth(e, memo=None):
    memo = {} if memo is None else memo
    st = [(e, False)]
    while st:
        x, done = st.pop()
        i = x.get_id()
        if i in memo:
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        else:
            ch = x.children()
        if not done:
            st.append((x, True))
            st.extend((c, False) for c in ch)
        else:
            d = max([memo[c.get_id()] for c in ch] + [0])
            memo[i] = d + (1 if z3.is_quantifier(x) else 0)
    return memo[e.get_id()]


def bvar(body_fn_probe):
    return z3.Int('k!%d' % body_fn_probe)


def openlam(lam):
    """body of a lambda opened with the canonical bound variable"""
    d = _depth(lam.body())
    k = z3.Int('k!%d' % d) if lam.var_sort(0) == I else z3.Real('f!%d' % d)
    return k, z3.substitute_vars(lam.body(), k)


def mentions(e, c):
    return c.get_id() in free_consts(e)


_fresh = [0]


def fresh(sort, base='t'):
    _fresh[0] += 1
    n = '%s!%d' % (base, _fresh[0])
    return z3.Const(n, sort)


def freshfn(arity, base='F', sort=None, dom=None):
    _fresh[0] += 1
    return z3.Function('%s!%d' % (base, _fresh[0]),
                       *([I if dom is None else dom] * arity +
                         [R if sort is None else sort]))


def mkbig(op, n, k, body):
    """canonical big-operator term; k is a (fresh) Int constant"""
    body = real(body)
    p = nf(body)
    b2 = poly_expr(p)
    d = _depth(b2)
    kk = z3.Int('k!%d' % d)
    if not kk.eq(k):
        b2 = z3.substitute(b2, (k, kk))
        b2 = poly_expr(nf(b2))
    return op(z3.IntVal(n) if isinstance(n, int) else toint(nfexpr(n)),
              z3.Lambda([kk], b2))


def ssum(lo, hi, fn, decide=None, unroll=24):
    """sum of fn(k), lo <= k < hi (0 when empty)"""
    return _big('sum', lo, hi, fn, decide, unroll)


def sprod(lo, hi, fn, decide=None, unroll=24):
    return _big('prod', lo, hi, fn, decide, unroll)


def _splitcond(body, k):
    for c in ites([body]):
        if mentions(c, k):
            neg = c.decl().kind() == z3.Z3_OP_NOT
            c1 = c.arg(0) if neg else c
            kk = c1.decl().kind()
            ch = c1.children()
            if kk in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                      z3.Z3_OP_EQ) and ch[0].sort() == I:
                d = nf(ch[0] - ch[1])
                a = _atom(k)
                co = d.get(((a, 1),), 0)
                if abs(co) == 1 and all(
                        m == ((a, 1),) or not mentions(poly_expr({m: 1}), k)
                        for m in d):
                    rest = {m: -x / co for m, x in d.items()
                            if m != ((a, 1),)}
                    t = toint(poly_expr(rest))     # k (rel) t
                    rel = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<',
                           z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>',
                           z3.Z3_OP_EQ: '=='}[kk]
                    if co < 0:
                        rel = {'<=': '>=', '<': '>', '>=': '<=', '>': '<',
                               '==': '=='}[rel]
                    if neg:
                        rel = {'<=': '>', '<': '>=', '>=': '<', '>': '<=',
                               '==': '!='}[rel]
                    return c, rel, t
    return None


def assume_in(e, c, val):
    """substitute an ITE condition by its truth value and simplify ITEs"""
    if not isz(e):
        return e
    r = z3.substitute(e, (c, z3.BoolVal(val)))
    return simp_ite(r)


_SMART = {}


def rebuild(x, ch):
    """application with new arguments, through the smart constructors"""
    f = _SMART.get(x.decl().name())
    if f is not None and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
            len(ch) == f[0]:
        r = f[1](*[unlit(c) for c in ch])
        return real(r) if x.sort() == R else lit(r)
    return x.decl()(*ch)


def simp_ite(e, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if not z3.is_app(x) or not x.children():
            memo[i] = x
            return x
        if x.decl().kind() == z3.Z3_OP_ITE:
            c0 = go(x.arg(0))
            c = z3.simplify(c0)
            if z3.is_true(c):
                r = go(x.arg(1))
            elif z3.is_false(c):
                r = go(x.arg(2))
            else:
                r = z3.If(c0, go(x.arg(1)), go(x.arg(2)))
        else:
            ch = [go(c) for c in x.children()]
            if all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = rebuild(x, ch)
        memo[i] = r
        return r
    return go(e)


def _big(kind, lo, hi, fn, decide, unroll):
    comb = sadd if kind == 'sum' else smul
    unit = 0 if kind == 'sum' else 1
    n = ssub(hi, lo)
    if isz(n):
        n = unlit(z3.simplify(n))
    if isinstance(n, int):
        if n <= 0:
            return unit
        if n <= unroll:
            acc = None
            for j in range(n):
                x = fn(sadd(lo, j))
                acc = x if acc is None else comb(acc, x)
            return acc
    k = fresh(I, 'kb')
    body = fn(sadd(lo, k) if not (isinstance(lo, int) and lo == 0) else k)
    if isinstance(body, Cx):
        if kind == 'sum':
            return Cx(_bigz(kind, n, k, body.re, decide),
                      _bigz(kind, n, k, body.im, decide))
        body = rz(body)
    if isinstance(body, Rz):
        return Rz(real(_bigz(kind, n, k, body.e, decide)))
    return _bigz(kind, n, k, body, decide)


def _bigz(kind, n, k, body, decide, depth=0):
    body = real(body)
    if decide is not None and depth < 8:
        body = simp_ite(body)
        rng = sand(sle(0, k), slt(k, n))
        for _ in range(8):
            for c in ites([body]):
                if c.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR) and \
                        mentions(c, k):
                    v = True if decide(simplies(rng, c)) is True else \
                        False if decide(simplies(rng, snot(c))) is True \
                        else None
                    if v is not None:
                        body = assume_in(body, c, v)
                        break
            else:
                break
        sc = _splitcond(body, k)
        if sc is not None:
            c, rel, t = sc
            bt = assume_in(body, c, True)
            bf = assume_in(body, c, False)
            comb = sadd if kind == 'sum' else smul
            if rel == '!=':
                bt, bf, rel = bf, bt, '=='
            if rel == '==':
                d = decide(sand(sle(0, t), slt(t, n)))
                if d is True:
                    at = z3.substitute(bt, (k, lit(t)))
                    af = z3.substitute(bf, (k, lit(t)))
                    rest = _bigz(kind, n, k, bf, decide, depth + 1)
                    if kind == 'sum':
                        return sadd(rest, ssub(at, af))
                elif d is False:
                    return _bigz(kind, n, k, bf, decide, depth + 1)
                if kind == 'sum' and not nf(real(bf)):
                    # one term at most
                    return ite(sand(sle(0, t), slt(t, n)), z3.substitute(
                        bt, (k, lit(t))), 0)
            else:
                # split point s: k < s  /  k >= s
                s = sadd(t, 1) if rel in ('<=', '>') else t
                first, second = (bt, bf) if rel in ('<', '<=') else (bf, bt)
                if decide(sle(s, 0)) is True:
                    return _bigz(kind, n, k, second, decide, depth + 1)
                if decide(sge(s, n)) is True:
                    return _bigz(kind, n, k, first, decide, depth + 1)
                if decide(sand(sle(0, s), sle(s, n))) is True:
                    a = _range(kind, 0, s, k, first, decide, depth)
                    b = _range(kind, s, n, k, second, decide, depth)
                    return comb(a, b)
    return mkbig(SUMF if kind == 'sum' else PRODF, n, k, body)


def _range(kind, lo, hi, k, body, decide, depth):
    n = ssub(hi, lo)
    if isz(n):
        n = unlit(z3.simplify(n))
    sh = lambda j: z3.substitute(body, (k, lit(sadd(lo, j))))
    if isinstance(n, int):
        comb = sadd if kind == 'sum' else smul
        if n <= 24:
            acc = 0 if kind == 'sum' else 1
            for j in range(n):
                acc = comb(acc, sh(j))
            return acc
    k2 = fresh(I, 'kb')
    return _bigz(kind, n, k2, sh(k2), decide, depth + 1)


def mkint(lo, hi, f, body):
    """canonical integral term; f is a (fresh) Real constant"""
    b2 = poly_expr(nf(real(body)))
    kk = z3.Real('f!%d' % _depth(b2))
    if not kk.eq(f):
        b2 = poly_expr(nf(z3.substitute(b2, (f, kk))))
    return INTF(real(lo), real(hi), z3.Lambda([kk], b2))


def nf_int(e):
    lo, hi = nf(e.arg(0)), nf(e.arg(1))
    lam = e.arg(2)
    if not z3.is_quantifier(lam):
        return {((_atom(e), 1),): Fraction(1)}
    el, eh = poly_expr(lo), poly_expr(hi)
    f, body = openlam(lam)
    out = {}
    for m, c in nf(body).items():
        dep = tuple((a, x) for a, x in m if mentions(_atoms[a], f))
        rest = tuple((a, x) for a, x in m if not mentions(_atoms[a], f))
        if not dep:
            out = padd(out, pmul({rest: c}, padd(hi, lo, -1)))
            continue
        b = poly_expr({dep: Fraction(1)})
        kk = z3.Real('f!%d' % _depth(b))
        if not kk.eq(f):
            b = poly_expr(nf(z3.substitute(b, (f, kk))))
        at = INTF(el, eh, z3.Lambda([kk], b))
        out = padd(out, pmul({rest: c}, {((_atom(at), 1),): Fraction(1)}))
    return out


def nf_big(e):
    op = bigop(e)
    if op == 'INT!':
        return nf_int(e)
    n = e.arg(0)
    lam = e.arg(1)
    if not z3.is_quantifier(lam):
        return {((_atom(e), 1),): Fraction(1)}
    k, body = openlam(lam)
    p = nf(body)
    nn = toint(poly_expr(nf(n)))
    if op == 'SUM!':
        out = {}
        for m, c in p.items():
            dep = tuple((a, x) for a, x in m if mentions(_atoms[a], k))
            rest = tuple((a, x) for a, x in m if not mentions(_atoms[a], k))
            b = poly_expr({dep: Fraction(1)})
            d = _depth(b)
            kk = z3.Int('k!%d' % d)
            if not kk.eq(k):
                b = poly_expr(nf(z3.substitute(b, (k, kk))))
            at = SUMF(nn, z3.Lambda([kk], b))
            if z3.is_rational_value(b):
                # sum of a constant
                cnt = z3.simplify(z3.If(nn >= 0, z3.ToReal(nn),
                                        z3.RealVal(0)))
                out = padd(out, pmul({rest: c}, nf(cnt)))
                continue
            out = padd(out, pmul({rest: c}, {((_atom(at), 1),): Fraction(1)}))
        return out
    b = poly_expr(p)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) > 1 or (len(m) == 1 and m[0][1] not in (1,)):
            out = pconst(1)
            for a, x in m:
                at = PRODF(nn, z3.Lambda([k], _atoms[a]))
                if c != 1:
                    break
                out = pmul(out, {((_atom(at), x),): Fraction(1)})
            else:
                return out
        if not m and c == 1:
            return pconst(1)
    return {((_atom(PRODF(nn, z3.Lambda([k], b))), 1),): Fraction(1)}


def _UFcos(t):
    k = ('cos', 1)
    if k not in _UF:
        _UF[k] = z3.Function('cos', R, R)
    return _UF[k](t)


_nfcache = {}


def nf(e):
    """polynomial normal form of an arithmetic z3 expression"""
    i = e.get_id()
    c = _nfcache if _side[0] is None else _side[0].memo
    if i in c:
        return c[i][1]
    r = _nf(e)
    c[i] = (e, r)
    return r


def _nf(e):
    if z3.is_int_value(e):
        return pconst(e.as_long())
    if z3.is_rational_value(e):
        return pconst(Fraction(e.numerator_as_long(),
                               e.denominator_as_long()))
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = padd(r, nf(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = nf(ch[0])
        for c in ch[1:]:
            r = padd(r, nf(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, nf(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = nf(ch[0])
        for c in ch[1:]:
            r = pmul(r, nf(c))
        return r
    if k == z3.Z3_OP_DIV:
        return pmul(nf(ch[0]), pinv(nf(ch[1])))
    if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(ch[1])) and \
            z3.simplify(ch[1]).as_long() >= 0:
        r = pconst(1)
        for _ in range(z3.simplify(ch[1]).as_long()):
            r = pmul(r, nf(ch[0]))
        return r
    if k == z3.Z3_OP_TO_REAL:
        if ch[0].decl().kind() == z3.Z3_OP_TO_INT:
            p = nf(ch[0].arg(0))
            if intvalued(p):
                return p
        p = nf(ch[0])
        return {tuple((_atom(z3.ToReal(_atoms[a]))
                       if _atoms[a].sort() == I else a, x)
                      for a, x in m): c for m, c in p.items()}
    if k == z3.Z3_OP_ITE:
        c = normbool(ch[0])
        if z3.is_true(c):
            return nf(ch[1])
        if z3.is_false(c):
            return nf(ch[2])
        a, b = nf(ch[1]), nf(ch[2])
        if a == b:
            return a
        ea, eb = poly_expr(a), poly_expr(b)
        if e.sort() == I:
            ea, eb = toint(ea), toint(eb)
        return {((_atom(z3.If(c, ea, eb)), 1),): Fraction(1)}
    if k == z3.Z3_OP_UNINTERPRETED and ch:
        if bigop(e):
            return nf_big(e)
        if ufname(e) in ('cos', 'sin') and len(ch) == 1:
            sg, arg = _sgn_arg(ch[0])
            if sg == 0:
                return pconst(1) if ufname(e) == 'cos' else {}
            return {((_atom(e.decl()(arg)), 1),): Fraction(
                sg if ufname(e) == 'sin' else 1)}
        args = []
        for c in ch:
            if c.sort() == R:
                args.append(poly_expr(nf(c)))
            elif c.sort() == I:
                args.append(toint(poly_expr(nf(c))))
            else:
                args.append(c)
        return {((_atom(e.decl()(*args)), 1),): Fraction(1)}
    if k == z3.Z3_OP_TO_INT:
        return {((_atom(z3.ToInt(poly_expr(nf(ch[0])))), 1),): Fraction(1)}
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        x = toint(poly_expr(nf(ch[0])))
        y = toint(poly_expr(nf(ch[1])))
        return {((_atom(x / y if k == z3.Z3_OP_IDIV else x % y), 1),):
                Fraction(1)}
    return {((_atom(e), 1),): Fraction(1)}


def toint(e):
    """strip a ToReal normal form back to Int sort"""
    if e.sort() == I:
        return e
    p = nf(e)
    r = None
    for m in sorted(p, key=_mono_key):
        c = p[m]
        if c.denominator != 1:
            raise Unsupported('non integer coefficient in integer term')
        t = z3.IntVal(c.numerator) if (c != 1 or not m) else None
        for a, x in m:
            if x < 0:
                raise Unsupported('division in integer term')
            at = _atoms[a]
            if at.sort() == R:
                if at.decl().kind() == z3.Z3_OP_TO_REAL:
                    at = at.arg(0)
                else:
                    raise Unsupported('real atom in integer term')
            for _ in range(x):
                t = at if t is None else t * at
        r = t if r is None else r + t
    return z3.IntVal(0) if r is None else r


def pinv(p):
    if not p:
        return {((_atom(z3.RealVal(1) / z3.RealVal(0)), 1),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -x) for a, x in m): 1 / c}
    lead = p[min(p, key=_mono_key)]
    q = {m: c / lead for m, c in p.items()}
    ex = poly_expr(q)
    i = _atom(ex)
    _atom_poly[i] = q
    return {((i, -1),): 1 / lead}


def poly_expr(p):
    """canonical Real expression of a polynomial"""
    if not p:
        return z3.RealVal(0)
    terms = []
    for m in sorted(p, key=_mono_key):
        c = p[m]
        fs = []
        for a, x in sorted(m, key=lambda t: _akey(t[0])):
            at = _atoms[a]
            if at.sort() == I:
                at = z3.ToReal(at)
            for _ in range(abs(x)):
                fs.append(at if x > 0 else z3.RealVal(1) / at)
        if c != 1 or not fs:
            fs.insert(0, z3.RealVal(str(c)))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def nfexpr(e):
    return poly_expr(nf(e))


def normbool(c):
    """light normalisation of a boolean term"""
    c = z3.simplify(c)
    return _nb(c)


def _nb(c):
    k = c.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        ch = [_nb(x) for x in c.children()]
        ch.sort(key=str)
        return z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
    if k == z3.Z3_OP_NOT:
        return z3.Not(_nb(c.arg(0)))
    return c


def rational_zero(p):
    """is the polynomial (with inverse atoms) identically zero, clearing
    denominators? The non-vanishing of the denominators goes to the side
    conditions."""
    for _ in range(60):
        if not p:
            return True
        worst = None
        for m in p:
            for a, x in m:
                if x < 0 and (worst is None or x < worst[1]):
                    worst = (a, x)
        if worst is None:
            return False
        a = worst[0]
        k = -min(x for m in p for b, x in m if b == a and x < 0)
        if _side[0] is not None:
            _side[0].need(_atoms[a] != 0)
        if a in _atom_poly:
            base = _atom_poly[a]
            r = {}
            for m, c in p.items():
                x = dict(m).get(a, 0)
                rest = tuple(t for t in m if t[0] != a)
                q = {rest: c}
                for _i in range(k + x):
                    q = pmul(q, base)
                r = padd(r, q)
            p = r
        else:
            p = pmul(p, {((a, k),): Fraction(1)})
    return not p


def free_consts(e, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.get_id()] = x
        st.extend(x.children())
    return acc


def uf_apps(es):
    seen, acc, st = set(), {}, list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if ufname(x):
                acc[x.get_id()] = x
            st.extend(x.children())
    return list(acc.values())


def ites(es):
    """ITE conditions, innermost first"""
    seen, acc = set(), []

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return
        for c in x.children():
            go(c)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            if not any(x.arg(0).eq(c) for c in acc):
                acc.append(x.arg(0))
    for e in es:
        go(e)
    return acc


_SMART.update(sqrt=(1, ssqrt), cos=(1, scos), sin=(1, ssin), exp=(1, sexp),
              log=(1, slog), log10=(1, slog10), pow=(2, spow))
