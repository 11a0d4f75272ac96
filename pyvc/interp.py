"""Symbolic interpreter for the Python subset used by PyDSM.

Executes the AST of the real functions on symbolic values, one path at a time
(re-execution with decision prefixes).  Loops over ranges with symbolic bounds
are summarised by a checked loop rule (see `Ctx.sym_loop`)."""
import ast
import builtins
import itertools
import operator
import sys
import types
from fractions import Fraction

import numpy as np
import z3

from . import source
from . import solver as S
from . import terms as T
from .terms import (Cx, I, Inf, R, Rz, Unsupported, isbool, isint, isnum,
                    isscalar, isz, ite, sadd, sand, sdiv, seq, sfloor,
                    sfloordiv, sge, sgt, sle, slt, smod, smul, sne, sneg, snot,
                    sor, spow, ssub, tobool)


class PyRaise(Exception):
    """exception of the interpreted program"""
    def __init__(self, cls, args=(), obj=None):
        self.cls = cls
        self.args_ = tuple(args)
        self.obj = obj

    def __str__(self):
        return '%s%r' % (self.cls.__name__, self.args_)


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Poison:
    """value that could not be represented (only an error if used)"""
    def __init__(self, why):
        self.why = why


class ExcObj:
    def __init__(self, cls, args):
        self.cls = cls
        self.args = args


class SFunc:
    def __init__(self, node, env, mod, defaults, kwdefaults, name, real=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.real = real


class SObj:
    """instance of an interpreted class"""
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class SList(list):
    """instance of an interpreted subclass of list"""
    cls = list


class OSet(set):
    """a set whose iteration order is that of insertion"""
    def __init__(self, items=()):
        self.order = []
        set.__init__(self)
        for x in items:
            self.add(x)

    def add(self, x):
        if x not in self:
            set.add(self, x)
            self.order.append(x)

    def __iter__(self):
        return iter(self.order)


class Bound:
    def __init__(self, obj, fn):
        self.obj = obj
        self.fn = fn


class BoundModel:
    def __init__(self, fn, obj, name=''):
        self.fn = fn
        self.obj = obj
        self.name = name


_serial = itertools.count()


class Env:
    def __init__(self, parent=None, mod=None, vars=None):
        self.serial = next(_serial)
        self.parent = parent
        self.mod = mod
        self.vars = {} if vars is None else vars
        self.globals_ = set()
        self.nonlocals = set()


# --------------------------------------------------------------------- arrays
class Buf:
    __slots__ = ('shape', 'fn', 'kind', 'ro', 'owner', 'serial')

    def __init__(self, shape, fn, kind):
        self.serial = next(_serial)
        self.shape = tuple(shape)
        self.fn = fn
        self.kind = kind
        self.ro = False
        self.owner = None       # set for the arrays given by the caller


def _ident(idx):
    return idx


def _ident_inv(idx):
    return True, idx


class Arr:
    """array: a view (fwd/inv index maps) on a mutable buffer"""
    def __init__(self, shape, fn=None, kind='f', buf=None, fwd=None,
                 inv=None, ro=False):
        self.shape = tuple(shape)
        if buf is None:
            memo = {}

            buf = Buf(self.shape, fn, kind)
        self.buf = buf
        self.fwd = fwd or _ident
        self.inv = inv or _ident_inv
        self.ro = ro
        self.matrix = False
        self.contig = fwd is None      # known to be C-contiguous
        self.dt = None                 # element type if not the natural one

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return 'Arr%s%s' % (self.kind, self.shape)

    def at(self, *idx):
        return self.buf.fn(self.fwd(tuple(idx)))

    def reader(self):
        f, w = self.buf.fn, self.fwd
        return lambda idx: f(w(tuple(idx)))

    def copy(self, kind=None):
        return Arr(self.shape, self.reader(), kind or self.kind)


def isarr(x):
    return isinstance(x, Arr)


def concrete_shape(a):
    return all(isinstance(d, int) for d in a.shape)


def indices(shape):
    return itertools.product(*[range(d) for d in shape])


KINDS = 'bifcz'


def kind_of(v):
    if isarr(v):
        return v.kind
    if isinstance(v, Rz):
        return 'z'
    if isinstance(v, Cx):
        return 'c'
    if isbool(v):
        return 'b'
    if isint(v):
        return 'i'
    if isscalar(v):
        return 'f'
    return 'O'


def kmax(*ks):
    if 'O' in ks:
        return 'O'
    return max(ks, key=KINDS.index)


def cast(v, kind, trunc=True):
    """convert a scalar to an array kind"""
    if kind == 'O':
        return v
    if kind == 'z':
        return v if isinstance(v, Inf) else T.rz(v)
    if isinstance(v, Rz):
        raise Unsupported('abstract complex value stored as %s' % kind)
    if kind == 'c':
        return v if isinstance(v, Cx) else Cx(v if not isbool(v)
                                              else T._arith(v), 0)
    if isinstance(v, Cx):
        v = v.re
    if kind == 'f':
        if isbool(v):
            return T.real(v)
        if isint(v):
            return Fraction(v) if isinstance(v, int) else T.real(v)
        return v
    if kind == 'i':
        if isinstance(v, Inf):
            raise Unsupported('inf in an integer array')
        return T._arith(v) if isbool(v) else T.strunc(v)
    if kind == 'b':
        return tobool(v)
    raise Unsupported('kind ' + kind)


class SRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SSeq:
    """immutable sequence of symbolic length (list / generator result)"""
    def __init__(self, n, fn, kind='O'):
        self.n, self.fn = n, fn


class SIter:
    """iterator over a concrete list of items"""
    def __init__(self, items):
        self.items = items
        self.pos = 0


class Opaque:
    """value of an unmodelled kind, with a canonical key"""
    def __init__(self, name, args=(), attrs=None):
        self.name = name
        self.args = args
        self.attrs = attrs or {}

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class Hooked:
    """model value with its own operations (NotImplemented: no opinion)"""
    def h_binop(self, ctx, op, other, reflected):
        raise Unsupported('%s on %s' % (op, type(self).__name__))

    def h_unary(self, ctx, op):
        raise Unsupported('%s on %s' % (op, type(self).__name__))

    def h_compare(self, ctx, op, other, reflected):
        raise Unsupported('%s on %s' % (op, type(self).__name__))

    def h_getitem(self, ctx, k):
        raise Unsupported('indexing of %s' % type(self).__name__)

    def h_setitem(self, ctx, k, v):
        raise Unsupported('item assignment on %s' % type(self).__name__)

    def h_getattr(self, ctx, name):
        raise PyRaise(AttributeError, (name,))

    def h_setattr(self, ctx, name, v):
        raise Unsupported('attribute assignment on %s' % type(self).__name__)

    def h_call(self, ctx, args, kwargs):
        raise Unsupported('call of %s' % type(self).__name__)

    def h_truth(self, ctx):
        return True

    def h_iter(self, ctx):
        raise Unsupported('iteration over %s' % type(self).__name__)

    def h_len(self, ctx):
        raise PyRaise(TypeError, ('no len()',))

    def h_abs(self, ctx):
        raise Unsupported('abs of %s' % type(self).__name__)

    def h_isinstance(self, ctx, cls):
        return False


class Path:
    def __init__(self, kind, value, pc, events, ctx):
        self.kind = kind          # 'return' | 'raise'
        self.value = value
        self.pc = pc
        self.events = events
        self.ctx = ctx

    @property
    def returned(self):
        return self.kind == 'return'


MODELS = {}        # id(real callable) -> (callable, model)
ATTR_MODELS = {}   # (python type name of model value, attribute)


def model(*objs):
    def deco(f):
        for o in objs:
            MODELS[id(o)] = (o, f)
        return f
    return deco


def unhashable_key(x):
    return id(x)


class Ctx:
    """one symbolic execution"""
    def __init__(self, hyps=(), prefix=(), contracts=None, opts=None):
        self.hyps = [h for h in hyps if h is not True]
        self.pc = []
        self.dec = list(prefix)
        self.pos = 0
        self.pending = []
        self.events = []
        self.log = None
        self.contracts = contracts or {}
        self.lifted = {}
        self.modvals = {}
        self.opts = opts or {}
        self.steps = 0
        self.depth = 0
        self.obligs = []
        self.maxsteps = self.opts.get('maxsteps', 400000)
        self.used = self.opts.setdefault('used', set())
        self.models_used = self.opts.setdefault('models', set())
        self.ghosts = self.opts.get('ghosts', [])
        self.unders = 0

    # ------------------------------------------------------------ decisions
    def facts(self):
        return self.hyps + self.pc

    def decide(self, c):
        if isinstance(c, bool):
            return c
        return S.decide(self.facts(), c)

    def assume(self, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            self.pc.append(z3.BoolVal(False))
        else:
            self.pc.append(c)

    def branch(self, c):
        c = tobool(c)
        if isinstance(c, bool):
            return c
        v = self.decide(c)
        if v is not None:
            return v
        if any(x.decl().name().startswith('k!') or
               x.decl().name().startswith('kb!')
               for x in T.free_consts(c).values()) and not self.unders:
            raise Unsupported('branch on a bound variable')
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True
            self.pending.append(self.dec[:self.pos] + [False])
            self.dec.append(True)
        self.pos += 1
        self.pc.append(c if v else z3.Not(c))
        return v

    def oblige(self, name, cond):
        """an obligation attached to this path (precondition of a callee,
        bounds, ...)"""
        self.obligs.append((name, list(self.facts()), tobool(cond)))

    # -------------------------------------------------------- mutation log
    def note(self, kind, obj, key, old):
        if self.log is not None:
            self.log.append((kind, obj, key, old))

    def setvar(self, env, name, v):
        if self.log is not None:
            self.note('var', env, name, env.vars.get(name, _MISSING))
        env.vars[name] = v

    def setfn(self, buf, fn):
        if self.log is not None:
            self.note('buf', buf, None, buf.fn)
        buf.fn = fn

    def touch(self, obj):
        """before an in-place change of a list / dict / set / SObj"""
        if self.log is not None:
            if isinstance(obj, SObj):
                self.note('attrs', obj, None, dict(obj.attrs))
            elif isinstance(obj, SIter):
                self.note('iter', obj, None, obj.pos)
            else:
                self.note('cont', obj, None, obj.copy())

    @staticmethod
    def _undo(log):
        for kind, obj, key, old in reversed(log):
            Ctx._restore(kind, obj, key, old)

    @staticmethod
    def _restore(kind, obj, key, old):
        if kind == 'var':
            if old is _MISSING:
                obj.vars.pop(key, None)
            else:
                obj.vars[key] = old
        elif kind == 'buf':
            obj.fn = old
        elif kind == 'attrs':
            obj.attrs.clear()
            obj.attrs.update(old)
        elif kind == 'iter':
            obj.pos = old
        elif kind == 'cont':
            if isinstance(obj, list):
                obj[:] = old
            else:
                obj.clear()
                obj.update(old)

    @staticmethod
    def _current(kind, obj, key):
        if kind == 'var':
            return obj.vars.get(key, _MISSING)
        if kind == 'buf':
            return obj.fn
        if kind == 'attrs':
            return dict(obj.attrs)
        if kind == 'iter':
            return obj.pos
        return obj.copy()

    def sub(self, fn, catch_raise=True):
        """explore all paths of fn(); returns [(pc_extra, outcome, value,
        finals)], the state being restored after each of them"""
        out = []
        saved = (self.dec, self.pos, self.pending, self.log)
        base = len(self.pc)
        nev = len(self.events)
        todo = [[]]
        self.unders += 1
        try:
            while todo:
                if len(out) > 400:
                    raise Unsupported('too many paths')
                self.dec, self.pos, self.pending = todo.pop(), 0, []
                self.log = []
                try:
                    try:
                        v = ('value', fn())
                    except PyRaise as e:
                        if not catch_raise:
                            raise
                        v = ('raise', e)
                    except ReturnSig as e:
                        v = ('return', e.v)
                    except BreakSig:
                        v = ('break', None)
                    except ContinueSig:
                        v = ('value', None)
                    extra = self.pc[base:]
                    finals = {}
                    for kind, obj, key, old in self.log:
                        k = (kind, id(obj), key)
                        if k not in finals:
                            finals[k] = (kind, obj, key, old,
                                         self._current(kind, obj, key))
                    out.append((extra, v[0], v[1], finals,
                                self.events[nev:]))
                finally:
                    self._undo(self.log)
                    del self.pc[base:]
                    todo.extend(self.pending)
        finally:
            self.dec, self.pos, self.pending, self.log = saved
            del self.events[nev:]
            self.unders -= 1
        return out

    def merged(self, fn):
        """run fn() and merge its paths into one value / state"""
        paths = self.sub(fn)
        return self.join(paths)

    def join(self, paths):
        good = [p for p in paths if p[1] == 'value']
        for p in paths:
            if p[1] in ('return', 'break'):
                raise Unsupported('%s inside a merged block' % p[1])
        bad = [p for p in paths if p[1] == 'raise']
        for p in bad:
            if self.branch(sand(*p[0])):
                raise p[2]
        if not good:
            raise Unsupported('no path')
        if len(good) == 1 and not bad:
            pass
        val = good[-1][2]
        for p in reversed(good[:-1]):
            val = self.mergeval(sand(*p[0]), p[2], val)
        keys = {}
        for p in good:
            for k, f in p[3].items():
                keys.setdefault(k, f)
        for k, (kind, obj, key, old, _cur) in keys.items():
            vs = []
            for p in good:
                f = p[3].get(k)
                vs.append((sand(*p[0]), f[4] if f is not None else
                           self._current(kind, obj, key)))
            acc = vs[-1][1]
            for c, v in reversed(vs[:-1]):
                acc = self.mergestate(kind, c, v, acc)
            self.note(kind, obj, key, self._current(kind, obj, key))
            self._restore(kind, obj, key, acc)
        for p in good:
            for ev in p[4]:
                self.events.append(('cond', sand(*p[0]), ev))
        return val

    def mergestate(self, kind, c, a, b):
        if kind == 'buf':
            if a is b:
                return a
            return lambda idx: ite(c, a(idx), b(idx))
        return self.mergeval(c, a, b)

    def mergeval(self, c, a, b):
        if a is b:
            return a
        if a is _MISSING or b is _MISSING:
            return Poison('conditionally defined')
        if isscalar(a) and isscalar(b):
            try:
                return ite(c, a, b)
            except Unsupported:
                return Poison('unmergeable scalars')
        if isarr(a) and isarr(b) and len(a.shape) == len(b.shape):
            if a.buf is b.buf and a.fwd is b.fwd:
                return a
            if all(self.decide(seq(x, y)) is True
                   for x, y in zip(a.shape, b.shape)):
                ra, rb = a.reader(), b.reader()
                return Arr(a.shape, lambda idx: ite(c, ra(idx), rb(idx)),
                           kmax(a.kind, b.kind))
            return Poison('arrays of different shapes')
        if isinstance(a, (list, tuple)) and type(a) == type(b) and \
                len(a) == len(b):
            r = [self.mergeval(c, x, y) for x, y in zip(a, b)]
            return r if isinstance(a, list) else tuple(r)
        if isinstance(a, dict) and isinstance(b, dict) and \
                list(a) == list(b):
            return {k: self.mergeval(c, a[k], b[k]) for k in a}
        if isinstance(a, set) and isinstance(b, set) and a == b:
            return a
        try:
            if type(a) == type(b) and not isinstance(a, (SObj, Opaque)) \
                    and a == b:
                return a
        except Exception:
            pass
        return Poison('unmergeable values %s / %s' % (type(a).__name__,
                                                      type(b).__name__))

    # -------------------------------------------------------------- lifting
    def lift(self, v, mod=None, name=None):
        if v is None or isinstance(v, (str, bool, int, bytes)) and \
                not isinstance(v, np.generic):
            return v
        if isinstance(v, np.bool_):
            return bool(v)
        if isinstance(v, np.integer):
            return int(v)
        if isinstance(v, (complex, np.complexfloating)):
            return Cx(T.fromfloat(v.real), T.fromfloat(v.imag))
        if isinstance(v, (float, np.floating)):
            if float(v) == np.pi:
                return T.PI
            return T.fromfloat(v)
        if isinstance(v, Fraction):
            return v
        k = id(v)
        if k in self.lifted:
            return self.lifted[k][1]
        if isinstance(v, np.ndarray):
            kind = {'f': 'f', 'i': 'i', 'u': 'i', 'c': 'c', 'b': 'b',
                    'O': 'O'}.get(v.dtype.kind)
            if kind is None:
                raise Unsupported('array of dtype %s' % v.dtype)
            flat = {i: self.lift(v[i].item() if kind != 'O' else v[i])
                    for i in np.ndindex(*v.shape)}
            r = lit_array(v.shape, flat, kind)
            self.lifted[k] = (v, r)
            return r
        if type(v) in (list, tuple, set, frozenset):
            if type(v) is list:
                r = []
                self.lifted[k] = (v, r)
                r.extend(self.lift(x) for x in v)
            else:
                r = type(v)(self.lift(x) for x in v)
                self.lifted[k] = (v, r)
            return r
        if type(v) is dict:
            r = {}
            self.lifted[k] = (v, r)
            for kk, x in v.items():
                r[kk] = self.lift(x)
            return r
        return v

    def global_(self, mod, name):
        key = (mod.__name__, name)
        if key in self.modvals:
            return self.modvals[key]
        if name in mod.__dict__:
            v = mod.__dict__[name]
            r = _MISSING
            if _numeric_data(v):
                nodes = source.module_assigns(mod).get(name) if getattr(
                    mod, '__file__', '').endswith('.py') else None
                if nodes and len(nodes) == 1:
                    log, self.log = self.log, None
                    try:
                        r = self.eval(nodes[0], Env(mod=mod))
                    except Unsupported:
                        r = _MISSING
                    finally:
                        self.log = log
            if r is _MISSING:
                r = self.lift(v)
            self.modvals[key] = r
            return r
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))

    # ---------------------------------------------------------- environment
    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported('use of %s: %s' % (name, v.why))
                return v
            if e.parent is None:
                break
            e = e.parent
        return self.global_(e.mod, name)

    def assign_name(self, env, name, v):
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            self.setvar(e, name, v)
        elif name in env.globals_:
            self.modvals[(env.mod.__name__, name)] = v
        else:
            self.setvar(env, name, v)

    # ------------------------------------------------------------ functions
    def call_node(self, f, args, kwargs):
        node = f.node
        env = Env(f.env, f.mod)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise(TypeError, ('%s() takes %d positional arguments'
                                      % (f.name, len(names)),))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kwargs)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    raise PyRaise(TypeError, (
                        "multiple values for argument '%s'" % k,))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError, (
                    "%s() got an unexpected keyword argument '%s'" %
                    (f.name, k),))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    raise PyRaise(TypeError, (
                        "missing argument '%s'" % n,))
        for n in kwonly:
            if n not in vals:
                if n in f.kwdefaults:
                    vals[n] = f.kwdefaults[n]
                else:
                    raise PyRaise(TypeError, ("missing argument '%s'" % n,))
        env.vars.update(vals)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if _is_generator(node):
                return self.generator(node, env)
            try:
                self.exec_block(node.body, env)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def generator(self, node, env):
        """eager execution of a generator"""
        out = []
        env.vars['__yield__'] = out
        try:
            self.exec_block(node.body, env)
        except ReturnSig:
            pass
        return SIter(out)

    def wrap_real(self, f):
        """SFunc of a real Python function"""
        k = ('fn', id(f))
        if k in self.lifted:
            return self.lifted[k][1]
        try:
            node = source.func_ast(f)
        except LookupError as e:
            raise Unsupported(str(e))
        mod = sys.modules[f.__module__]
        env = Env(None, mod)
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                env.vars[n] = self.lift(c.cell_contents)
        r = SFunc(node, env, mod,
                  [self.lift(d) for d in (f.__defaults__ or ())],
                  {n: self.lift(d)
                   for n, d in (f.__kwdefaults__ or {}).items()},
                  f.__name__, f)
        self.lifted[k] = (f, r)
        return r

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.steps += 1
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, SFunc):
            if f.real is not None:
                c = self.contracts.get(id(f.real))
                if c is not None:
                    return c(self, *args, **kwargs)
            return self.call_node(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, (f.obj,) + tuple(args), kwargs)
        if isinstance(f, BoundModel):
            self.models_used.add('method ' + f.name)
            return f.fn(self, f.obj, *args, **kwargs)
        try:
            c = self.contracts.get(id(f))
        except TypeError:
            c = None
        if c is not None:
            return c(self, *args, **kwargs)
        m = MODELS.get(id(f))
        if m is not None:
            self.models_used.add(getattr(f, '__module__', '') + '.' + str(
                getattr(f, '__qualname__', getattr(f, '__name__', f))))
            return m[1](self, *args, **kwargs)
        if isinstance(f, types.FunctionType):
            if source.is_under(f):
                self.used.add('%s.%s' % (f.__module__, f.__qualname__))
                return self.call(self.wrap_real(f), args, kwargs)
            h = self.opts.get('external')
            if h is not None:
                return h(self, f, args, kwargs)
            raise Unsupported('call of external %s.%s' % (f.__module__,
                                                          f.__qualname__))
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return ExcObj(f, tuple(args))
            if source.is_under(f):
                return self.instantiate(f, args, kwargs)
            h = self.opts.get('external')
            if h is not None:
                return h(self, f, args, kwargs)
            raise Unsupported('instance of external class %s' % f)
        if isinstance(f, Hooked):
            return f.h_call(self, args, kwargs)
        if isinstance(f, SObj):
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        if isinstance(f, types.BuiltinMethodType) and isinstance(
                f.__self__, str):
            if all(isinstance(x, (str, int, tuple, list)) for x in args):
                return f(*args, **kwargs)
        h = self.opts.get('external')
        if h is not None:
            return h(self, f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, list) and _class_lookup(cls, '__init__') is \
                list.__init__:
            o = SList(self.iterate(args[0]) if args else ())
            o.cls = cls
            return o
        o = SObj(cls)
        new = _class_lookup(cls, '__new__')
        if new is not None and isinstance(new, (types.FunctionType,
                                                staticmethod)):
            raise Unsupported('__new__')
        init = _class_lookup(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(init, (o,) + tuple(args), kwargs)
        elif args or kwargs:
            raise PyRaise(TypeError, ('%s() takes no arguments'
                                      % cls.__name__,))
        return o

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('step limit')
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            e = env
            while '__yield__' not in e.vars:
                e = e.parent
            e.vars['__yield__'].append(
                self.eval(st.value.value, env)
                if st.value.value is not None else None)
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                vals = items[:i] + [items[i:len(items) - after]] + \
                    items[len(items) - after:]
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x,
                                y, env)
                return
            if len(items) != len(t.elts):
                raise PyRaise(ValueError, ('unpack',))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target')

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, Hooked):
            return o.h_setattr(self, name, v)
        if isinstance(o, type) and source.is_under(o):
            self.modvals[('tattr', id(o), name)] = v
            return
        if isinstance(o, SObj):
            sa = None if raw else _class_lookup(o.cls, '__setattr__')
            if isinstance(sa, types.FunctionType):
                self.call(sa, (o, name, v))
                return
            d = _class_lookup(o.cls, name)
            if isinstance(d, property) and d.fset is not None:
                self.call(d.fset, (o, v))
                return
            self.touch(o)
            o.attrs[name] = v
        elif isinstance(o, Arr) and name == 'shape':
            self.npattr('set_shape')(self, o, v)
        elif isinstance(o, Opaque):
            o.attrs[name] = v
        elif isarr(o) and name == 'flat':
            MODELS['arr_setflat'][1](self, o, v)
        else:
            raise Unsupported('attribute assignment on %r' % type(o))

    def npattr(self, name):
        from . import npmodel
        return getattr(npmodel, name)

    def x_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(env, t.id)
            rhs = self.eval(st.value, env)
            self.assign_name(env, t.id, self.inplace(op, old, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            rhs = self.eval(st.value, env)
            self.setitem(o, k, self.inplace(op, old, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            rhs = self.eval(st.value, env)
            self.setattr(o, t.attr, self.inplace(op, old, rhs))
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, old, rhs):
        if isinstance(old, Arr):
            r = self.binop(op, old, rhs)
            if not isarr(r):
                r = Arr((), lambda idx, r=r: r, kind_of(r))
            if KINDS.index(r.kind) > KINDS.index(old.kind) and \
                    old.kind in 'bif' and not (
                        old.kind == 'f' and r.kind == 'i'):
                raise PyRaise(TypeError, ('cannot cast in place',))
            self.npattr('store')(self, old, None, r)
            return old
        if isinstance(old, list) and op == 'Add':
            self.touch(old)
            old.extend(self.iterate(rhs))
            return old
        if isinstance(old, SObj):
            nm = {'Add': '__iadd__', 'Sub': '__isub__',
                  'Mult': '__imul__'}.get(op)
            if nm and _class_lookup(old.cls, nm) is not None:
                return self.call(self.getattr(old, nm), (rhs,))
        return self.binop(op, old, rhs)

    def x_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if self.branch(c):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Assert(self, st, env):
        if not self.branch(self.truth(self.eval(st.test, env))):
            raise PyRaise(AssertionError, ())

    def x_Return(self, st, env):
        raise ReturnSig(None if st.value is None
                        else self.eval(st.value, env))

    def x_Break(self, st, env):
        raise BreakSig()

    def x_Continue(self, st, env):
        raise ContinueSig()

    def x_Raise(self, st, env):
        if st.exc is None:
            raise self._active[-1]
        e = self.eval(st.exc, env)
        if isinstance(e, type):
            raise PyRaise(e, (), ExcObj(e, ()))
        if isinstance(e, ExcObj):
            raise PyRaise(e.cls, e.args, e)
        if isinstance(e, SObj):
            raise PyRaise(e.cls, (), e)
        raise Unsupported('raise of %r' % (e,))

    _active = []

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(issubclass(e.cls, x) for x in ts)
                    if ok:
                        if h.name:
                            self.setvar(env, h.name,
                                        e.obj or ExcObj(e.cls, e.args_))
                        self._active.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self._active.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env)

    def x_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if isinstance(v, Opaque) and v.name in ('nullcontext',):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
            else:
                raise Unsupported('with %r' % (v,))
        self.exec_block(st.body, env)

    def x_FunctionDef(self, st, env):
        if st.decorator_list:
            raise Unsupported('decorated nested function')
        f = SFunc(st, env, env.mod,
                  [self.eval(d, env) for d in st.args.defaults],
                  {a.arg: self.eval(d, env) for a, d in zip(
                      st.args.kwonlyargs, st.args.kw_defaults)
                   if d is not None}, st.name)
        self.assign_name(env, st.name, f)

    def x_Import(self, st, env):
        import importlib
        for a in st.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.assign_name(env, a.asname, m)
            else:
                self.assign_name(env, a.name.split('.')[0],
                                 sys.modules[a.name.split('.')[0]])

    def x_ImportFrom(self, st, env):
        import importlib
        name = '.' * st.level + (st.module or '')
        pkg = env.mod.__name__ if hasattr(env.mod, '__path__') \
            else env.mod.__name__.rpartition('.')[0]
        try:
            m = importlib.import_module(name, pkg)
        except ImportError:
            raise PyRaise(ImportError, (name,))
        for a in st.names:
            if not hasattr(m, a.name):
                try:
                    importlib.import_module(m.__name__ + '.' + a.name)
                except ImportError:
                    raise PyRaise(ImportError, (a.name,))
            self.assign_name(env, a.asname or a.name,
                             self.lift(getattr(m, a.name)))

    def x_Global(self, st, env):
        env.globals_.update(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.note('var', env, t.id, env.vars.get(t.id, _MISSING))
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if isinstance(o, (list, dict)):
                    self.touch(o)
                    del o[k]
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def x_While(self, st, env):
        n = 0
        w = self.opts.get('while')
        if w is not None and w(self, st, env) is not False:
            return
        while True:
            c = self.truth(self.eval(st.test, env))
            if not isinstance(c, bool):
                v = self.decide(c)
                if v is None:
                    if n > self.opts.get('unroll_while', 60):
                        raise Unsupported('while loop with symbolic condition')
                    v = self.branch(c)
                c = v
            if not c:
                self.exec_block(st.orelse, env)
                return
            n += 1
            if n > 3000:
                raise Unsupported('while loop: too many iterations')
            try:
                self.exec_block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        w = self.opts.get('for')
        if w is not None and w(self, st, env, it) is not False:
            return
        sym = self.symbolic_iter(it)
        if sym is not None:
            n, item = sym
            return self.sym_loop(st, env, n, item)
        items = self.iterate(it, lazy=True)
        broke = False
        for v in items:
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except BreakSig:
                broke = True
                break
            except ContinueSig:
                continue
        if not broke:
            self.exec_block(st.orelse, env)

    def symbolic_iter(self, it):
        """(n, item(i)) when the trip count is symbolic"""
        if isinstance(it, SRange):
            n = ssub(it.hi, it.lo)
            if it.step == 1:
                if isz(n):
                    n = T.unlit(z3.simplify(n))
                if isinstance(n, int):
                    return None
                return n, lambda i: sadd(it.lo, i)
            if it.step == -1:
                n = ssub(it.lo, it.hi)
                return n, lambda i: ssub(it.lo, i)
            if isinstance(it.step, int) and it.step < 0:
                raise Unsupported('range with step')
            if all(isinstance(t, int) for t in (it.lo, it.hi, it.step)):
                return None
            n = T.lit(sadd(ssub(it.hi, it.lo), ssub(it.step, 1))) / \
                T.lit(it.step)
            return T.smax(n, 0), lambda i: sadd(it.lo, T.smul(i, it.step))
        if isinstance(it, SSeq):
            if isinstance(it.n, int):
                return None
            return it.n, it.fn
        if isinstance(it, Arr):
            if it.ndim == 0:
                raise PyRaise(TypeError, ('iteration over a 0-d array',))
            if isinstance(it.shape[0], int):
                return None
            d = z3.simplify(it.shape[0])
            if z3.is_int_value(d):
                return None
            return it.shape[0], lambda i: self.getitem(it, i, checked=True)
        if isinstance(it, Opaque) and it.name == 'zip':
            subs = [self.symbolic_iter(x) for x in it.args]
            if all(s is None for s in subs):
                return None
            if any(s is None for s in subs):
                raise Unsupported('zip of concrete and symbolic')
            n = subs[0][0]
            for s in subs[1:]:
                n = T.smin(n, s[0]) if not self.decide(
                    seq(n, s[0])) is True else n
            return n, lambda i: tuple(s[1](i) for s in subs)
        if isinstance(it, Opaque) and it.name == 'enumerate':
            s = self.symbolic_iter(it.args[0])
            if s is None:
                return None
            return s[0], lambda i: (sadd(it.args[1], i), s[1](i))
        return None

    def iterate(self, v, lazy=False):
        """items of a value of concrete length"""
        if isinstance(v, Hooked):
            return v.h_iter(self)
        if isinstance(v, (list, tuple)):
            return v if lazy else list(v)
        if isinstance(v, (str, dict, set, frozenset)):
            return list(v)
        if isinstance(v, SRange):
            if isinstance(v.lo, int) and isinstance(v.hi, int):
                return list(range(v.lo, v.hi, v.step))
            n = T.unlit(z3.simplify(T.lit(ssub(v.hi, v.lo))))
            if isinstance(n, int) and v.step == 1:
                return [sadd(v.lo, j) for j in range(n)]
            raise Unsupported('iteration over a symbolic range')
        if isinstance(v, SIter):
            out = v.items[v.pos:]
            self.touch(v)
            v.pos = len(v.items)
            return out
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise(TypeError, ('iteration over a 0-d array',))
            n = v.shape[0]
            if isz(n):
                n = T.unlit(z3.simplify(n))
            if not isinstance(n, int):
                raise Unsupported('iteration over a symbolic array')
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, SSeq) and isinstance(v.n, int):
            return [v.fn(i) for i in range(v.n)]
        if isinstance(v, Opaque) and v.name == 'zip':
            return [tuple(t) for t in zip(*[self.iterate(x)
                                            for x in v.args])]
        if isinstance(v, Opaque) and v.name == 'enumerate':
            return [(sadd(v.args[1], i), x)
                    for i, x in enumerate(self.iterate(v.args[0]))]
        if isinstance(v, Opaque) and 'items' in v.attrs:
            return list(v.attrs['items'])
        if isinstance(v, SObj):
            f = _class_lookup(v.cls, '__iter__')
            if f is not None:
                return self.iterate(self.call(f, (v,)))
            f = _class_lookup(v.cls, '__getitem__')
            if f is not None:
                out = []
                for i in range(2000):
                    try:
                        out.append(self.call(f, (v, i)))
                    except PyRaise as e:
                        if issubclass(e.cls, IndexError):
                            return out
                        raise
        if isscalar(v) or v is None:
            raise PyRaise(TypeError, ('not iterable',))
        raise Unsupported('iteration over %r' % (v,))

    # ---------------------------------------------------- symbolic loop rule
    def sym_loop(self, st, env, n, item):
        """for target in <item(0) .. item(n-1)>, n symbolic.

        1. the body is executed (all its paths merged) on an arbitrary
           iteration i with every loop-carried location replaced by a fresh
           symbol H; iterated until the set of modified locations is stable;
        2. every location is then summarised by an inductive argument, each
           with its own check: untouched-at-next-use (last value), pointwise
           write, sum, product, or a ghost sequence of the contract
           (initial value and step are obligations)."""
        if st.orelse:
            raise Unsupported('for-else on a symbolic loop')
        if self.branch(sle(n, 0)):
            return
        i = T.fresh(I, 'it')
        facts_i = [i >= 0, i < T.lit(n)]
        mods = {}          # key -> (kind, obj, key, initial, havoc value)
        for _round in range(8):
            def body():
                for k, (kind, obj, key, init, hav) in mods.items():
                    self.note(kind, obj, key, self._current(kind, obj, key))
                    self._restore(kind, obj, key, hav)
                self.assign(st.target, item(i), env)
                try:
                    self.exec_block(st.body, env)
                except ContinueSig:
                    pass
            base = len(self.pc)
            self.pc.extend(facts_i)
            npaths = None
            try:
                log, self.log = self.log, []
                try:
                    born = next(_serial)
                    paths = self.sub(body)
                    evs = [e for p in paths for e in p[4]]
                    if evs:
                        for e in evs:
                            self.events.append(('loop', e))
                    good = [p for p in paths if p[1] == 'value']
                    bad = [p for p in paths if p[1] == 'raise']
                    if any(p[1] in ('return', 'break') for p in paths):
                        raise Unsupported('early exit of a symbolic loop')
                    if bad and not good:
                        raise bad[0][2]
                    if bad:
                        for p in bad:
                            if S.feasible(self.facts() + list(p[0])):
                                raise Unsupported(
                                    'exception inside a symbolic loop')
                    new = {}
                    for p in good:
                        for k, f in p[3].items():
                            if getattr(f[1], 'serial', -1) < born:
                                new.setdefault(k, f)
                    # merge
                    finals = {}
                    for k, (kind, obj, key, old, _c) in new.items():
                        vs = []
                        for p in good:
                            f = p[3].get(k)
                            if f is not None:
                                cur = f[4]
                            elif k in mods:
                                cur = mods[k][4]
                            else:
                                cur = self._current(kind, obj, key)
                            vs.append((sand(*p[0]), cur))
                        acc = vs[-1][1]
                        for c, v in reversed(vs[:-1]):
                            acc = self.mergestate(kind, c, v, acc)
                        finals[k] = acc
                finally:
                    self.log = log
            finally:
                del self.pc[base:]
            stable = set(new) <= set(mods)
            if stable:
                break
            for k, (kind, obj, key, old, _c) in new.items():
                if k not in mods:
                    init = self._current(kind, obj, key)
                    mods[k] = (kind, obj, key, init,
                               self.havoc(kind, obj, init, finals[k]))
        else:
            raise Unsupported('loop: unstable set of modified locations')
        self.summarise(st, env, n, i, facts_i, mods, finals)

    def havoc(self, kind, obj, init, final):
        if kind == 'buf':
            return HavocBuf(obj).fn
        v = init
        if v is _MISSING or isinstance(v, Poison):
            return _MISSING
        if kind == 'var':
            return self.havoc_val(v, final)
        raise Unsupported('loop modifies a %s' % kind)

    def havoc_val(self, v, final=None):
        if isinstance(v, bool):
            return T.fresh(T.B, 'H')
        if isinstance(v, Rz) or isinstance(final, Rz):
            return Rz(T.fresh(R, 'H'))
        if isinstance(v, Cx) or isinstance(final, Cx):
            return Cx(T.fresh(R, 'H'), T.fresh(R, 'H'))
        if isscalar(v):
            if isz(v) and v.sort() == T.B:
                return T.fresh(T.B, 'H')
            if isint(v) and (final is None or isint(final)):
                return T.fresh(I, 'H')
            return T.fresh(R, 'H')
        if isinstance(v, Arr):
            if isarr(final) and (len(final.shape) != len(v.shape)):
                return Poison('array of varying rank')
            k = v.kind
            if isarr(final):
                k = kmax(k, final.kind)
            b = Buf(v.shape, None, k)
            hb = HavocBuf(b)
            a = Arr(v.shape, hb.fn, k)
            a.hav = hb
            return a
        if isinstance(v, tuple):
            f = final if isinstance(final, tuple) and len(final) == len(v) \
                else [None] * len(v)
            return tuple(self.havoc_val(x, y) for x, y in zip(v, f))
        return v

    def summarise(self, st, env, n, i, facts_i, mods, finals):
        from .loops import summarise
        return summarise(self, st, env, n, i, facts_i, mods, finals)

    # ----------------------------------------------------------- expressions
    def eval(self, e, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('step limit')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return T.fromfloat(v)
        if isinstance(v, complex):
            return Cx(T.fromfloat(v.real), T.fromfloat(v.imag))
        return v

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return list(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.eval(k, env)] = self.eval(v, env)
        return d

    def e_Lambda(self, e, env):
        return SFunc(e, env, env.mod,
                     [self.eval(d, env) for d in e.args.defaults],
                     {a.arg: self.eval(d, env) for a, d in zip(
                         e.args.kwonlyargs, e.args.kw_defaults)
                      if d is not None}, '<lambda>')

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if self.branch(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isand and not t:
                return v if not isz(v) else False
            if not isand and t:
                return v if not (isz(v) and v.sort() == T.B) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            return snot(self.truth(v))
        if isinstance(v, Hooked):
            return v.h_unary(self, op)
        if isinstance(v, SObj):
            nm = {'USub': '__neg__', 'UAdd': '__pos__',
                  'Invert': '__invert__'}[op]
            f = _class_lookup(v.cls, nm)
            if f is None:
                raise PyRaise(TypeError, ('bad operand type',))
            return self.call(f, (v,))
        return self.npattr('unary')(self, op, v)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poison')
        for x, y, refl in ((a, b, False), (b, a, True)):
            if isinstance(x, Hooked):
                r = x.h_binop(self, op, y, refl)
                if r is not NotImplemented:
                    return r
        return self.npattr('binop')(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            c = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1 and res is True:
                return c
            c = self.truth(c)
            if i == len(e.ops) - 1:
                return sand(res, c)
            if not self.branch(c):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return snot(self.is_(a, b))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else snot(r)
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==',
               'NotEq': '!='}[op]
        for x, y, refl in ((a, b, False), (b, a, True)):
            if isinstance(x, Hooked):
                r = x.h_compare(self, sym, y, refl)
                if r is not NotImplemented:
                    return r
        return self.npattr('compare')(self, sym, a, b)

    def is_(self, a, b):
        if isinstance(a, (SFunc,)) and a.real is not None:
            a = a.real
        if isinstance(b, (SFunc,)) and b.real is not None:
            b = b.real
        if a is b:
            return True
        if isz(a) and isz(b):
            return a.eq(b)
        if isinstance(a, (bool, type(None), type)) or isinstance(
                b, (bool, type(None), type)):
            return a is b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) == type(b) and a == b
        return False

    def contains(self, c, x):
        if isinstance(c, dict) or isinstance(c, (set, frozenset)):
            if isz(x):
                return sor(*[seq(x, y) for y in c])
            return x in c
        if isinstance(c, str):
            return x in c
        if isinstance(c, (list, tuple)):
            r = False
            for y in c:
                if y is x:
                    return True
                r = sor(r, self.truth(self.compare('Eq', x, y)))
                if r is True:
                    return True
            return r
        if isinstance(c, SRange):
            if c.step == 1:
                return sand(sle(c.lo, x), slt(x, c.hi))
        if isinstance(c, Arr):
            if concrete_shape(c):
                return sor(*[seq(x, c.at(*i)) for i in indices(c.shape)])
        if isinstance(c, SObj):
            f = _class_lookup(c.cls, '__contains__')
            if f is not None:
                return self.truth(self.call(f, (c, x)))
            return sor(*[self.truth(self.compare('Eq', x, y))
                         for y in self.iterate(c)])
        if isinstance(c, Opaque) and 'items' in c.attrs:
            return self.contains(c.attrs['items'], x)
        raise Unsupported('in %r' % (c,))

    def truth(self, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isscalar(v):
            return tobool(v)
        if isinstance(v, Hooked):
            return v.h_truth(self)
        if v is None:
            return False
        if isinstance(v, (str, list, tuple, dict, set, frozenset)):
            return len(v) > 0
        if isinstance(v, Arr):
            n = 1
            for d in v.shape:
                n = smul(n, d)
            if isinstance(n, int) and n == 1:
                return tobool(v.at(*([0] * v.ndim)))
            if self.branch(seq(n, 1)):
                return tobool(v.at(*([0] * v.ndim)))
            raise PyRaise(ValueError, ('truth value of an array',))
        if isinstance(v, SSeq):
            return sgt(v.n, 0)
        if isinstance(v, SRange):
            return slt(v.lo, v.hi)
        if isinstance(v, SObj):
            for nm in ('__bool__', '__nonzero__', '__len__'):
                f = _class_lookup(v.cls, nm)
                if f is not None and nm != '__nonzero__':
                    return tobool(self.call(f, (v,)))
            return True
        if isinstance(v, (types.FunctionType, types.ModuleType, type, SFunc,
                          Bound, ExcObj)):
            return True
        if isinstance(v, Opaque):
            if 'items' in v.attrs:
                return len(v.attrs['items']) > 0
            if v.attrs.get('truth') is not None:
                return v.attrs['truth']
        raise Unsupported('truth value of %r' % (v,))

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            raise Unsupported('super()')
        f = self.eval(e.func, env)
        if f is locals or f is globals:
            raise Unsupported('locals()')
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name, raw=False):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Hooked):
            return o.h_getattr(self, name)
        if isinstance(o, (SObj, SList)) and not raw:
            ga = _class_lookup(o.cls, '__getattribute__')
            if isinstance(ga, types.FunctionType):
                return self.call(ga, (o, name))
        if isinstance(o, SList):
            d = _class_lookup(o.cls, name)
            if isinstance(d, types.FunctionType):
                return Bound(o, d)
            if name == '__class__':
                return o.cls
        if isinstance(o, SObj):
            if name in o.attrs:
                d = _class_lookup(o.cls, name)
                if not isinstance(d, property):
                    return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            d = _class_lookup(o.cls, name)
            if d is None:
                ga = _class_lookup(o.cls, '__getattr__')
                if ga is not None:
                    return self.call(ga, (o, name))
                raise PyRaise(AttributeError, (name,))
            if isinstance(d, property):
                return self.call(d.fget, (o,))
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return Bound(o.cls, d.__func__)
            if isinstance(d, types.FunctionType):
                return Bound(o, d)
            return self.lift(d)
        if isinstance(o, types.ModuleType):
            if source.is_under_mod(o):
                if name in o.__dict__:
                    return self.global_(o, name)
                raise PyRaise(AttributeError, (o.__name__ + '.' + name,))
            if not hasattr(o, name):
                raise PyRaise(AttributeError, (o.__name__ + '.' + name,))
            v = getattr(o, name)
            m = MODELS.get(('attr', o.__name__, name))
            return self.lift(v)
        if isinstance(o, (types.FunctionType, SFunc)):
            real = o if isinstance(o, types.FunctionType) else o.real
            key = ('fattr', id(real), name)
            if key in self.modvals:
                return self.modvals[key]
            if real is None or not hasattr(real, name):
                raise PyRaise(AttributeError, (name,))
            v = self.lift(getattr(real, name))
            self.modvals[key] = v
            return v
        if isinstance(o, type):
            if ('tattr', id(o), name) in self.modvals:
                return self.modvals[('tattr', id(o), name)]
            if name == '__name__':
                return o.__name__
            d = _class_lookup(o, name)
            if d is None:
                raise PyRaise(AttributeError, (name,))
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, classmethod):
                return Bound(o, d.__func__)
            if name in ('__name__', '__doc__', '__module__'):
                return getattr(o, name)
            return self.lift(d)
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            h = self.opts.get('opaque_attr')
            if h is not None:
                return h(self, o, name)
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, ExcObj):
            if name == 'args':
                return o.args
        return self.npattr('attribute')(self, o, name)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.eval_index(e.slice, env)
        return self.getitem(o, k)

    def eval_index(self, s, env):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        if isinstance(s, ast.Slice):
            return slice(None if s.lower is None else self.eval(s.lower, env),
                         None if s.upper is None else self.eval(s.upper, env),
                         None if s.step is None else self.eval(s.step, env))
        return self.eval(s, env)

    def e_Slice(self, s, env):
        return self.eval_index(s, env)

    def getitem(self, o, k, checked=False):
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Hooked):
            return o.h_getitem(self, k)
        return self.npattr('getitem')(self, o, k, checked)

    def setitem(self, o, k, v):
        if isinstance(o, Hooked):
            return o.h_setitem(self, k, v)
        return self.npattr('setitem')(self, o, k, v)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if isinstance(x, (str, int)) and not v.format_spec:
                    parts.append(str(x))
                else:
                    parts.append('?')
        return ''.join(parts)

    def comp(self, gens, env, emit):
        def go(j, env):
            if j == len(gens):
                emit(env)
                return
            g = gens[j]
            for v in self.iterate(self.eval(g.iter, env)):
                self.assign(g.target, v, env)
                if all(self.branch(self.truth(self.eval(c, env)))
                       for c in g.ifs):
                    go(j + 1, env)
        go(0, Env(env, env.mod))

    def e_ListComp(self, e, env):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs:
            it = self.eval(g.iter, env)
            sym = self.symbolic_iter(it)
            if sym is not None:
                n, item = sym

                def el(i):
                    en = Env(env, env.mod)
                    base = len(self.pc)
                    if isz(i):
                        self.pc.extend([T.lit(sle(0, i)), T.lit(slt(i, n))])
                    try:
                        self.assign(g.target, item(i), en)
                        return self.merged(lambda: self.eval(e.elt, en))
                    finally:
                        del self.pc[base:]
                # evaluated once here for its obligations and exceptions
                if self.decide(sle(n, 0)) is not True:
                    el(T.fresh(I, 'lc'))
                return SSeq(n, el)
            out = []
            en = Env(env, env.mod)
            for v in self.iterate(it):
                en = Env(env, env.mod)
                self.assign(g.target, v, en)
                out.append(self.eval(e.elt, en))
            return out
        out = []
        self.comp(e.generators, env,
                  lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        g = e.generators[0]
        if len(e.generators) == 1 and g.ifs:
            it = self.eval(g.iter, env)
            sym = self.symbolic_iter(it)
            if sym is not None:
                n, item = sym

                def at(what):
                    def el(i):
                        en = Env(env, env.mod)
                        base = len(self.pc)
                        if isz(i):
                            self.pc.extend([T.lit(sle(0, i)),
                                            T.lit(slt(i, n))])
                        try:
                            self.assign(g.target, item(i), en)
                            return self.merged(lambda: what(en))
                        finally:
                            del self.pc[base:]
                    return el
                return Opaque('filtered', (
                    n, at(lambda en: sand(*[tobool(self.truth(
                        self.eval(c, en))) for c in g.ifs])),
                    at(lambda en: self.eval(e.elt, en))))
        r = self.e_ListComp(e, env)
        if isinstance(r, SSeq):
            return r
        return SIter(r)

    def e_SetComp(self, e, env):
        out = set()
        self.comp(e.generators, env,
                  lambda en: out.add(self.eval(e.elt, en)))
        return out

    def e_DictComp(self, e, env):
        out = {}

        def emit(en):
            out[self.eval(e.key, en)] = self.eval(e.value, en)
        self.comp(e.generators, env, emit)
        return out

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v


class HavocBuf:
    """fresh contents of a buffer: an uninterpreted function of the index"""
    def __init__(self, buf):
        self.buf = buf
        k = buf.kind
        self.n = len(buf.shape)
        if k == 'c':
            self.re = _anyfn(self.n)
            self.im = _anyfn(self.n)
            self.fn = lambda idx: Cx(self.re(idx), self.im(idx))
        elif k == 'z':
            f = _anyfn(self.n)
            self.fn = lambda idx: Rz(f(idx))
        elif k in 'if':
            self.fn = _anyfn(self.n, I if k == 'i' else R)
        elif k == 'b':
            self.fn = _anyfn(self.n, T.B)
        else:
            raise Unsupported('loop over an object array')


def _anyfn(n, sort=None):
    if n == 0:
        c = T.fresh(sort or R, 'H')
        return lambda idx: c
    f = T.freshfn(n, 'H', sort)
    return lambda idx: f(*[T.lit(x) for x in idx])


class _Missing:
    def __repr__(self):
        return '<missing>'


_MISSING = _Missing()


def lit_array(shape, flat, kind):
    """array of literal elements; symbolic indices become ITE chains"""
    shape = tuple(int(d) for d in shape)
    flat = {tuple(k): cast(v, kind) for k, v in flat.items()}

    def fn(idx):
        if all(isinstance(x, int) for x in idx):
            return flat[tuple(idx)]
        idx = tuple(T.unlit(z3.simplify(x)) if isz(x) else x for x in idx)
        if all(isinstance(x, int) for x in idx):
            if idx not in flat:
                raise Unsupported('literal array index out of range')
            return flat[idx]
        acc = None
        for k in sorted(flat, reverse=True):
            if any(isinstance(x, int) and x != y for x, y in zip(idx, k)):
                continue
            c = sand(*[seq(x, y) for x, y in zip(idx, k)
                       if not isinstance(x, int)])
            acc = flat[k] if acc is None else ite(c, flat[k], acc)
        if acc is None:
            raise Unsupported('element of an empty array')
        return acc
    return Arr(shape, fn, kind)


def _numeric_data(v, depth=0):
    if isinstance(v, (float, complex, np.ndarray, np.floating,
                      np.complexfloating)):
        return True
    if isinstance(v, (list, tuple)) and depth < 3 and v:
        return any(_numeric_data(x, depth + 1) for x in v)
    return False


def _class_lookup(cls, name):
    for k in cls.__mro__:
        if k is object and name in ('__init__', '__new__', '__eq__',
                                    '__hash__', '__str__', '__repr__',
                                    '__ne__'):
            return None
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def _is_generator(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(x))
    return False


def explore(run, hyps=(), contracts=None, opts=None, maxpaths=600):
    """all paths of run(ctx)"""
    from .rules import EndPath
    opts = dict(opts or {})
    todo = [[]]
    paths = []
    # the same names on all paths, so that what they share is decided once
    fresh0 = top = T._fresh[0]
    while todo:
        pre = todo.pop()
        top = max(top, T._fresh[0])
        T._fresh[0] = fresh0
        ctx = Ctx(hyps, pre, contracts, opts)
        try:
            v = run(ctx)
            p = Path('return', v, ctx.pc, ctx.events, ctx)
        except PyRaise as e:
            p = Path('raise', e, ctx.pc, ctx.events, ctx)
        except EndPath:
            p = Path('end', None, ctx.pc, ctx.events, ctx)
        paths.append(p)
        todo.extend(ctx.pending)
        if len(paths) > maxpaths:
            raise Unsupported('too many paths (%d)' % len(paths))
    T._fresh[0] = max(top, T._fresh[0])
    return paths
