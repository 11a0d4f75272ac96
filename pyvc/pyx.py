"""Cython front end.

A .pyx file (and the .pxi files it includes) is read from /repo on every run
and rewritten, line by line, into Python that keeps every executable statement:

  cdef T x = e        x = cy_conv('T', e)       (and at every later assignment)
  cdef inline T f(T1 a): ...   def f(a): a = cy_conv('T1', a) ...
  <T>e                cy_cast('T', e)
  &x                  cy_ref(x)                 (read-only cell)
  np.PyArray_DATA(a)  cy_PyArray_DATA(a)
  include 'f'         the text of f

Dropped: cimport, cdef extern and ctypedef declarations (their functions are
given assumed contracts below), directives.  C integers are mathematical
integers.  Pointers are (array, offset) pairs; every access carries a bounds
obligation, and every array whose data pointer is taken must be known to be
C-contiguous and of the element type of the pointer."""
import ast
import ctypes
import os
import re
import sys
import types

import z3

from . import build, source
from . import solver as S
from . import terms as T
from .interp import (MODELS, Arr, Hooked, PyRaise, isarr, kind_of, model)
from .terms import (I, R, Unsupported, isbool, isint, isscalar, isz, ite,
                    sadd, sand, seq, sfloor, sge, sgt, sle, slt, smul, ssub,
                    ssum)

CT = r'(?:unsigned\s+|signed\s+|const\s+)*(?:long\s+long|long\s+double|' \
     r'[A-Za-z_][\w.]*)(?:\s*\[[^\]=]*\])?(?:\s*\*+)?'


# ------------------------------------------------------------- text -> Python
def logical_lines(txt):
    """(indent, text) logical lines; brackets and backslashes joined,
    comments removed"""
    out = []
    cur, depth, quote, start = '', 0, None, True
    i, n = 0, len(txt)
    while i < n:
        c = txt[i]
        if quote:
            if c == '\\':
                cur += txt[i:i + 2]
                i += 2
                continue
            if txt.startswith(quote, i):
                cur += quote
                i += len(quote)
                quote = None
                continue
            cur += c
            i += 1
            continue
        if txt.startswith('"""', i) or txt.startswith("'''", i):
            quote = txt[i:i + 3]
            cur += quote
            i += 3
            continue
        if c in '"\'':
            quote = c
            cur += c
            i += 1
            continue
        if c == '#':
            while i < n and txt[i] != '\n':
                i += 1
            continue
        if c == '\\' and txt[i + 1:i + 2] == '\n':
            cur += ' '
            i += 2
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if c == '\n':
            if depth > 0:
                cur += ' '
            else:
                if cur.strip():
                    out.append(cur.rstrip())
                cur = ''
            i += 1
            continue
        cur += c
        i += 1
    if cur.strip():
        out.append(cur.rstrip())
    return out


def split_top(s, sep=','):
    out, cur, depth, quote = [], '', 0, None
    for c in s:
        if quote:
            cur += c
            if c == quote:
                quote = None
            continue
        if c in '"\'':
            quote = c
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out


CAST = re.compile(r'<\s*(' + CT + r')\s*>\s*(?=[\w&(])')


def known_type(t):
    b = t.replace('*', '').strip()
    return '*' in t or b in (
        'int', 'double', 'float', 'long', 'short', 'char', 'unsigned int',
        'Py_ssize_t', 'size_t', 'np.ndarray', 'object', 'bint', 'list',
        'tuple', 'dict', 'void') or b.endswith('_t') or b.endswith('_ptr')


def exprs(s):
    """casts and address-of operators of one logical line"""
    while True:
        m = None
        for mm in CAST.finditer(s):
            pre = s[:mm.start()].rstrip()
            if known_type(mm.group(1)) and (not pre or pre[-1] in '=(,+-*/'
                                            or pre.endswith('return')):
                m = mm
                break
        if m is None:
            break
        j = m.end()
        while j < len(s):
            if s[j] in '([':
                d, q = 0, j
                while True:
                    if s[q] in '([':
                        d += 1
                    elif s[q] in ')]':
                        d -= 1
                    q += 1
                    if d == 0:
                        break
                j = q
            elif s[j].isalnum() or s[j] in '_.':
                j += 1
            else:
                break
        s = '%s cy_cast(%r, %s)%s' % (s[:m.start()], m.group(1).strip(),
                                      s[m.end():j], s[j:])
    s = re.sub(r'(?<=[(,])(\s*)&\s*([A-Za-z_]\w*)(\s*\[[^\]]*\])?',
               lambda m: '%scy_addr(%s, %s)' % (
                   m.group(1), m.group(2), m.group(3).strip()[1:-1])
               if m.group(3) else '%scy_ref(%s)' % (m.group(1), m.group(2)),
               s)
    return s


def typed_params(s):
    names = []
    out = []
    for a in split_top(s):
        a = a.strip()
        if not a:
            continue
        d = ''
        if '=' in a:
            a, d = a.split('=', 1)
            d = '=' + d
        a = a.strip()
        m = re.match(r'^(' + CT + r')\s*(?<=[\s*\]])([A-Za-z_]\w*)'
                     r'(?:\s+not\s+None|\s+or\s+None)?\s*$', a)
        if m and not a.startswith('*'):
            names.append((m.group(2), m.group(1).strip()))
            out.append(m.group(2) + d)
        else:
            out.append(a + d)
    return ', '.join(out), names


def declarators(indent, typ, rest):
    out = []
    stars = ''
    for d in split_top(rest):
        d = d.strip()
        nm, eq, e = d.partition('=')
        nm = nm.strip()
        t = typ
        while nm.startswith('*'):
            nm, t = nm[1:].strip(), t + ' *'
        if eq:
            out.append('%s%s: %r = %s' % (indent, nm, t, exprs(e.strip())))
        else:
            out.append('%s%s: %r' % (indent, nm, t))
    return out


def translate(path):
    with open(path, encoding='utf-8') as f:
        lines = logical_lines(f.read())
    out = []
    skip = None
    for ln in lines:
        ind = ln[:len(ln) - len(ln.lstrip())]
        s = ln.strip()
        if skip is not None:
            if len(ind) > skip:
                continue
            skip = None
        m = re.match(r'^include\s+[\'"](.+)[\'"]$', s)
        if m:
            out += translate(os.path.join(os.path.dirname(path), m.group(1)))
            continue
        if s.startswith('cimport ') or s.startswith('ctypedef ') or \
                s.startswith('@cython.'):
            m = re.match(r'^cimport\s+([\w.]+)(?:\s+as\s+(\w+))?$', s)
            continue
        m = re.match(r'^from\s+([\w.]+)\s+cimport\s+(.+)$', s)
        if m:
            for nm in m.group(2).strip('() ').split(','):
                a, _, b = nm.strip().partition(' as ')
                out.append('%s%s = cy_c(%r, %r)' % (
                    ind, (b or a).strip(), m.group(1), a.strip()))
            continue
        if re.match(r'^cdef\s+extern\b', s):
            skip = len(ind)
            out.append(None)          # marker, replaced below
            continue
        if re.match(r'^cdef\s*:$', s):
            raise Unsupported('cdef block')
        m = re.match(r'^cp?def\s+(?:inline\s+)?(.*)$', s)
        if m and s.endswith(':') and '(' in s:
            body = m.group(1)[:-1].strip()
            body = re.sub(r'\)\s*(nogil|noexcept|except\s*[^)]*|\s)*$', ')',
                          body)
            k = body.index('(')
            head = body[:k].split('*')[-1].split()[-1]
            ret = body[:k].strip()[:-len(head)].strip()
            args, ty = typed_params(body[k + 1:-1])
            out.append('%sdef %s(%s):' % (ind, head, args))
            out.append((ind, ty, ret))
            continue
        if m:
            body = m.group(1)
            mm = re.match(r'^(' + CT + r')\s*(?<=[\s*\]])(\**\s*[A-Za-z_]\w*'
                          r'\s*(?:[=,].*)?)$', body)
            if not mm:
                raise Unsupported('declaration: ' + s)
            out += declarators(ind, mm.group(1).strip(), mm.group(2))
            continue
        m = re.match(r'^def\s+(\w+)\s*\((.*)\)\s*:$', s)
        if m:
            args, ty = typed_params(m.group(2))
            out.append('%sdef %s(%s):' % (ind, m.group(1), args))
            out.append((ind, ty, ''))
            continue
        if re.match(r'^with\s+(nogil|gil)\s*:$', s):
            out.append(ind + 'if True:')
            continue
        out.append(ind + exprs(s))
    return out


def to_python(path):
    out = []
    lines = [x for x in translate(path) if x is not None]
    for j, x in enumerate(lines):
        if isinstance(x, str):
            out.append(x)
            continue
        ind, ty, ret = x
        k = j + 1
        while not isinstance(lines[k], str):
            k += 1
        nxt = lines[k]
        bi = nxt[:len(nxt) - len(nxt.lstrip())]
        out.append('%s__sig__: %r = %r' % (bi, ret, dict(ty)))
    return '\n'.join(out) + '\n'


class Typing(ast.NodeTransformer):
    """cdef types become conversions at every assignment"""
    def __init__(self, cnames):
        self.types = {}
        self.cnames = cnames

    def visit_FunctionDef(self, n):
        old = self.types
        self.types = {}
        for st in ast.walk(n):
            if isinstance(st, ast.AnnAssign) and isinstance(
                    st.target, ast.Name) and isinstance(
                        st.annotation, ast.Constant):
                if st.target.id != '__sig__':
                    self.types[st.target.id] = st.annotation.value
        body = []
        for st in n.body:
            if isinstance(st, ast.AnnAssign) and getattr(
                    st.target, 'id', '') == '__sig__':
                sig = ast.literal_eval(st.value)
                for a, t in sig.items():
                    self.types[a] = t
                    body.append(self.conv_stmt(a, t))
                continue
            r = self.visit(st)
            body += r if isinstance(r, list) else [r] if r is not None else []
        n.body = body or [ast.Pass()]
        self.types = old
        return n

    @staticmethod
    def wrap(t, v):
        return ast.Call(ast.Name('cy_conv', ast.Load()),
                        [ast.Constant(t), v], [])

    def conv_stmt(self, a, t):
        return ast.Assign([ast.Name(a, ast.Store())],
                          self.wrap(t, ast.Name(a, ast.Load())))

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        t = n.annotation.value
        if n.value is None:
            if t.startswith('np.ndarray') or t == 'object':
                return ast.Assign([n.target], ast.Constant(None))
            return None
        return ast.Assign([n.target], self.wrap(t, n.value))

    def visit_Assign(self, n):
        self.generic_visit(n)
        extra = []
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in self.types:
            n.value = self.wrap(self.types[n.targets[0].id], n.value)
            return n
        for t in n.targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, ast.Store) and x.id in self.types:
                    extra.append(self.conv_stmt(x.id, self.types[x.id]))
        return [n] + extra

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and n.target.id in self.types:
            return [n, self.conv_stmt(n.target.id, self.types[n.target.id])]
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id in self.cnames and \
                n.attr.startswith('Py'):
            return ast.Name('cy_' + n.attr, n.ctx)
        return n


# ---------------------------------------------------------------- run time
def cy_conv(t, v):
    return v


def cy_cast(t, v):
    return v


def cy_ref(v):
    raise AssertionError


def cy_addr(v, k):
    raise AssertionError


def cy_PyArray_DATA(a):
    raise AssertionError


class CFun:
    """external C function"""
    def __init__(self, name):
        self.__name__ = self.__qualname__ = name
        self.__module__ = 'C'


_C = {}


def cfun(name):
    if name not in _C:
        _C[name] = CFun(name)
    return _C[name]


def cy_c(mod, name):
    return cfun(name)


def _pointer(c):
    ctypes.pythonapi.PyCapsule_GetName.restype = ctypes.c_char_p
    ctypes.pythonapi.PyCapsule_GetName.argtypes = [ctypes.py_object]
    ctypes.pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p
    ctypes.pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object,
                                                      ctypes.c_char_p]
    return ctypes.pythonapi.PyCapsule_GetPointer(
        c, ctypes.pythonapi.PyCapsule_GetName(c))


def Capsule_AsVoidPtr(c):
    """the BLAS routine behind a scipy capsule"""
    import scipy.linalg
    p = _pointer(c)
    for nm in ('dgemv', 'dcopy', 'ddot', 'daxpy', 'dscal', 'dgemm', 'dsymv'):
        q = getattr(scipy.linalg.blas, nm)._cpointer
        if _pointer(q) == p:
            return cfun('f_' + nm)
    raise Unsupported('unknown BLAS capsule')


class Enum(str):
    pass


_mods = {}


def module(name):
    """the Python rendering of pydsm.delsig.<name>"""
    if name in _mods:
        return _mods[name]
    path = os.path.join(build.REPO, 'src', 'pydsm', 'delsig', name + '.pyx')
    txt = to_python(path)
    full = 'pydsm.delsig.' + name + '__pyx'
    fake = '<%s>' % full
    tree = ast.parse(txt, fake)
    tree = Typing({'np'}).visit(tree)
    ast.fix_missing_locations(tree)
    idx = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            idx.setdefault((getattr(n, 'name', '<lambda>'), n.lineno),
                           []).append(n)
    source._files[fake] = (tree, idx, txt)
    m = types.ModuleType(full)
    m.__package__ = 'pydsm.delsig'
    sys.modules[full] = m
    g = m.__dict__
    g.update(cy_conv=cy_conv, cy_cast=cy_cast, cy_ref=cy_ref, cy_c=cy_c,
             cy_addr=cy_addr,
             cy_PyArray_DATA=cy_PyArray_DATA, xrange=range,
             Capsule_AsVoidPtr=Capsule_AsVoidPtr,
             cblas_dgemv=cfun('cblas_dgemv'), cblas_dcopy=cfun('cblas_dcopy'),
             CblasRowMajor=Enum('RowMajor'), CblasColMajor=Enum('ColMajor'),
             CblasNoTrans=Enum('N'), CblasTrans=Enum('T'),
             CblasConjTrans=Enum('C'))
    body = tree.body
    for st in body:
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant) or 'import_array' in \
                    ast.dump(st.value):
                continue
        exec(compile(ast.fix_missing_locations(
            ast.Module([st], [])), fake, 'exec'), g)
    m.__text__ = txt
    _mods[name] = m
    return m


# ------------------------------------------------------------------ models
@model(cy_conv)
def m_conv(ctx, t, v):
    t = t.replace('const ', '').strip()
    if '*' in t:
        return v
    if t.startswith('np.ndarray'):
        if v is None or isarr(v):
            return v
        raise PyRaise(TypeError, ('expected numpy.ndarray',))
    if isarr(v) and v.ndim == 0:
        v = v.at()
    if t in ('int', 'long', 'Py_ssize_t', 'size_t', 'unsigned int', 'bint',
             'long long', 'short', 'char') or t.startswith('np.int'):
        if isbool(v):
            if t == 'bint':
                return v
            return T._arith(v)
        if isint(v):
            return T.unlit(z3.simplify(v)) if isz(v) else v
        if isscalar(v):
            raise Unsupported('conversion of a real to a C integer')
        if v is None or isinstance(v, (str, tuple, list)):
            raise PyRaise(TypeError, ('an integer is required',))
        raise Unsupported('conversion of %r to %s' % (v, t))
    if t in ('double', 'np.float64_t', 'float64_t', 'np.double_t'):
        if isinstance(v, T.Cx):
            raise PyRaise(TypeError, ('must be real number',))
        if isscalar(v):
            return v if not isbool(v) and not isint(v) else T.unlit(
                T.real(v))
        raise PyRaise(TypeError, ('must be real number',))
    if t == 'object':
        return v
    raise Unsupported('C type ' + t)


class Ptr(Hooked):
    """pointer to element `off` of the flat, C-ordered array `arr`"""
    def __init__(self, arr, off, ctype):
        self.arr, self.off, self.ctype = arr, off, ctype

    def h_binop(self, ctx, op, other, reflected):
        if isarr(other) or not isint(other):
            raise Unsupported('pointer arithmetic')
        if op == 'Add':
            return Ptr(self.arr, sadd(self.off, other), self.ctype)
        if op == 'Sub' and not reflected:
            return Ptr(self.arr, ssub(self.off, other), self.ctype)
        raise Unsupported('pointer arithmetic')

    def index(self, ctx, k, hyp=True, name='pointer in bounds', sub=()):
        """multi-index of element off + k, with its bounds obligation"""
        e = sadd(self.off, k)
        return self.locate(ctx, e, hyp, name)

    def locate(self, ctx, e, hyp, name):
        sh = self.arr.shape
        if not sh:
            oblige(ctx, name, hyp, seq(e, 0))
            return ()
        out = []
        rest = e
        for d in reversed(sh[1:]):
            if isinstance(d, int) and d == 1:
                out.append(0)
                continue
            q, r = divide(rest, d)
            if isinstance(d, int) and not isz(rest) and isinstance(rest, int):
                q, r = rest // d, rest % d
            out.append(r)
            oblige(ctx, name, hyp, sand(sle(0, r), slt(r, d)))
            rest = q
        out.append(rest)
        oblige(ctx, name, hyp, sand(sle(0, rest), slt(rest, sh[0])))
        return tuple(reversed(out))

    def h_getitem(self, ctx, k):
        return self.arr.at(*self.index(ctx, k))

    def h_setitem(self, ctx, k, v):
        from .npmodel import setitem
        idx = self.index(ctx, k)
        if isinstance(v, T.Cx) or not isscalar(v):
            raise Unsupported('store through a pointer')
        write(ctx, self.arr, lambda t: (sand(*[
            seq(a, b) for a, b in zip(t, idx)]), v))


def oblige(ctx, name, hyp, cond):
    cond = T.simplies(hyp, cond) if hyp is not True else cond
    if cond is True:
        return
    ctx.oblige(name, cond)


def write(ctx, arr, upd):
    """arr[t] = v where upd(t) = (condition, v)"""
    from .npmodel import memo_fn
    from .interp import cast
    buf = arr.buf
    if arr.ro or buf.ro:
        raise Unsupported('write through a pointer to a read-only array')
    if buf.owner is not None:
        ctx.events.append(('write', buf.owner))
    old, inv, kind = buf.fn, arr.inv, buf.kind

    def fn(idx):
        c0, t = inv(idx)
        if c0 is False:
            return old(idx)
        c, v = upd(tuple(t))
        c = sand(c0, c)
        if c is False:
            return old(idx)
        if c is True:
            return cast(v, kind)
        return ite(c, cast(v, kind), old(idx))
    ctx.setfn(buf, memo_fn(fn))


def divide(e, d):
    """e = q d + r as polynomials (r free of d)"""
    if isinstance(e, int) and not isz(d):
        return e // d, e % d
    pe = T.nf(T.lit(e))
    if isinstance(d, int):
        q = {m: c / d for m, c in pe.items() if m and (c / d).denominator == 1}
        r = {m: c for m, c in pe.items() if m not in q}
    else:
        pd = T.nf(T.lit(d))
        if len(pd) != 1 or list(pd.values())[0] != 1 or len(
                list(pd)[0]) != 1 or list(pd)[0][0][1] != 1:
            # only single symbols as row lengths
            return 0, e
        a = list(pd)[0][0][0]
        q, r = {}, {}
        for m, c in pe.items():
            ex = dict(m)
            if ex.get(a, 0) >= 1:
                ex[a] -= 1
                mm = tuple((x, k) for x, k in m if x != a or k > 1)
                mm = tuple((x, k - 1 if x == a else k) for x, k in mm)
                q[mm] = q.get(mm, 0) + c
            else:
                r[m] = c
    ti = lambda p: T.unlit(z3.simplify(T.lit(T.toint(T.poly_expr(p))))) \
        if p else 0
    return ti(q), ti(r)


@model(cy_cast)
def m_cast(ctx, t, v):
    if isinstance(v, Ptr):
        t = t.replace(' ', '')
        if t not in ('double*', 'int*', 'np.float64_t*', 'np.int32_t*'):
            raise Unsupported('cast to ' + t)
        ok = {'double*': 'float64', 'np.float64_t*': 'float64',
              'int*': 'int32', 'np.int32_t*': 'int32'}[t]
        dt = v.arr.dt or {'f': 'float64', 'i': 'int64', 'c': 'complex128',
                          'b': 'bool'}.get(v.arr.kind)
        ctx.oblige('data pointer of %s array as %s' % (dt, t), dt == ok)
        return Ptr(v.arr, v.off, t)
    return m_conv(ctx, t, v)


@model(cy_PyArray_DATA)
def m_data(ctx, a):
    if not isarr(a):
        raise Unsupported('data pointer of %r' % (a,))
    ctx.oblige('data pointer of a C-contiguous array', bool(
        a.contig or a.ndim == 0))
    return Ptr(a, 0, 'void*')


class Ref(Hooked):
    def __init__(self, v):
        self.v = v


@model(cy_ref)
def m_ref(ctx, v):
    if isinstance(v, Ptr) or isarr(v):
        raise Unsupported('address of %r' % (v,))
    return Ref(v)


@model(cy_addr)
def m_addr(ctx, p, k):
    if isinstance(p, Ptr):
        return p.h_binop(ctx, 'Add', k, False)
    raise Unsupported('address of an element')


def ptr(ctx, x):
    if not isinstance(x, Ptr):
        raise Unsupported('expected a pointer, got %r' % (x,))
    if x.ctype == 'void*':
        raise Unsupported('void pointer')
    return x


def val(x):
    return x.v if isinstance(x, Ref) else x


def const(x):
    x = val(x)
    if isz(x):
        x = T.unlit(z3.simplify(x))
    return x


def vec_write(ctx, y, n, inc, value, name):
    """y[r*inc] = value(r, old) for r < n"""
    r = T.fresh(I, 'r')
    dom = sand(sle(0, r), slt(r, n))
    idx = y.index(ctx, smul(r, inc), dom, name)
    arr = y.arr
    # which component runs with r
    var = None
    for j, c in enumerate(idx):
        if isz(c) and T.mentions(c, r):
            d = T.nf(T.lit(ssub(c, r)))
            if var is not None or T.mentions(T.poly_expr(d), r):
                raise Unsupported('strided write pattern')
            var = (j, T.unlit(z3.simplify(T.lit(T.toint(T.poly_expr(d)))))
                   if d else 0)
    if var is None:
        # the stride does not move the pointer: only n <= 1 makes sense
        ctx.oblige(name + ' (one element)', sle(n, 1))
        rr = 0

        def upd(t):
            return sand(sge(n, 1), *[seq(a, b) for a, b in zip(t, idx)]), \
                value(rr)
    else:
        def upd(t):
            rr = ssub(t[var[0]], var[1])
            cond = [seq(a, b) for j, (a, b) in enumerate(zip(t, idx))
                    if j != var[0]]
            return sand(sle(0, rr), slt(rr, n), *cond), value(rr)
    write(ctx, arr, upd)


def reads(ctx, p, n, inc, name):
    """function r -> p[r*inc]; r < n in bounds"""
    r = T.fresh(I, 'r')
    p.index(ctx, smul(r, inc), sand(sle(0, r), slt(r, n)), name)
    rd = p.arr.reader()
    sh = p.arr.shape

    def at(k):
        class NoOb:
            def oblige(self, *a):
                pass
        return rd(p.locate(NoOb(), sadd(p.off, smul(k, inc)), True, ''))
    return at


def gemv(ctx, nm, rows, cols, alpha, A, rs, cs, x, incx, beta, y, incy):
    """y = alpha A x + beta y, A[r, c] = A[r*rs + c*cs]"""
    A, x, y = ptr(ctx, A), ptr(ctx, x), ptr(ctx, y)
    for nm2, v in (('rows', rows), ('cols', cols)):
        ctx.oblige('%s: %s not negative' % (nm, nm2), sge(v, 0))
    ctx.oblige('%s: y overlaps neither A nor x' % nm,
               y.arr.buf is not A.arr.buf and y.arr.buf is not x.arr.buf)
    for inc in (incx, incy):
        ctx.oblige('%s: increment positive' % nm, sge(inc, 1))
    r, c = T.fresh(I, 'r'), T.fresh(I, 'c')
    dom = sand(sle(0, r), slt(r, rows), sle(0, c), slt(c, cols))
    A.index(ctx, sadd(smul(r, rs), smul(c, cs)), dom, nm + ': A in bounds')
    ra = A.arr.reader()
    X = reads(ctx, x, cols, incx, nm + ': x in bounds')
    Y = reads(ctx, y, rows, incy, nm + ': y in bounds')

    class NoOb:
        def oblige(self, *a):
            pass
    n0 = NoOb()

    def a_at(i, j):
        return ra(A.locate(n0, sadd(A.off, sadd(smul(i, rs), smul(j, cs))),
                           True, ''))
    b0 = const(beta)

    def value(i):
        s = smul(alpha, ssum(0, cols, lambda j: smul(a_at(i, j), X(j)),
                             ctx.decide))
        if not isz(b0) and b0 == 0:
            return s
        return sadd(smul(b0, Y(i)), s)
    vec_write(ctx, y, rows, incy, value, nm + ': y in bounds')


@model(cfun('cblas_dgemv'))
def m_cblas_dgemv(ctx, order, trans, m, n, alpha, A, lda, x, incx, beta, y,
                  incy):
    rm, tr = order == 'RowMajor', trans != 'N'
    ctx.oblige('cblas_dgemv: lda', sand(sge(lda, 1), sge(lda, n if rm
                                                           else m)))
    rs, cs = (lda, 1) if rm else (1, lda)
    if tr:
        gemv(ctx, 'cblas_dgemv', n, m, alpha, A, cs, rs, x, incx, beta, y,
             incy)
    else:
        gemv(ctx, 'cblas_dgemv', m, n, alpha, A, rs, cs, x, incx, beta, y,
             incy)


@model(cfun('f_dgemv'))
def m_f_dgemv(ctx, trans, m, n, alpha, A, lda, x, incx, beta, y, incy):
    trans = val(trans)
    if isinstance(trans, bytes):
        trans = trans.decode()
    m, n, lda, incx, incy = [val(v) for v in (m, n, lda, incx, incy)]
    alpha, beta = val(alpha), val(beta)
    if not isinstance(trans, str) or trans[:1].upper() not in 'NTC':
        raise Unsupported('dgemv trans')
    ctx.oblige('dgemv: lda', sand(sge(lda, 1), sge(lda, m)))
    if trans[:1].upper() == 'N':
        gemv(ctx, 'dgemv', m, n, alpha, A, 1, lda, x, incx, beta, y, incy)
    else:
        gemv(ctx, 'dgemv', n, m, alpha, A, lda, 1, x, incx, beta, y, incy)


def copy(ctx, nm, n, x, incx, y, incy):
    x, y = ptr(ctx, x), ptr(ctx, y)
    ctx.oblige('%s: n not negative' % nm, sge(n, 0))
    ctx.oblige('%s: no overlap' % nm, x.arr.buf is not y.arr.buf)
    for inc in (incx, incy):
        ctx.oblige('%s: increment positive' % nm, sge(inc, 1))
    X = reads(ctx, x, n, incx, nm + ': x in bounds')
    vec_write(ctx, y, n, incy, X, nm + ': y in bounds')


@model(cfun('cblas_dcopy'))
def m_cblas_dcopy(ctx, n, x, incx, y, incy):
    copy(ctx, 'cblas_dcopy', n, x, incx, y, incy)


@model(cfun('f_dcopy'))
def m_f_dcopy(ctx, n, x, incx, y, incy):
    copy(ctx, 'dcopy', val(n), x, val(incx), y, val(incy))


def _real(f):
    def g(ctx, x):
        r = f(x)
        return T.unlit(T.real(r)) if isscalar(r) else r
    return g


model(cfun('floor'))(_real(sfloor))
model(cfun('ceil'))(_real(T.sceil))
model(cfun('fabs'))(_real(T.sabs))
model(cfun('sqrt'))(_real(T.ssqrt))


@model(cfun('fmin'))
def m_fmin(ctx, a, b):
    return ite(slt(b, a), b, a)


@model(cfun('fmax'))
def m_fmax(ctx, a, b):
    return ite(sgt(b, a), b, a)
