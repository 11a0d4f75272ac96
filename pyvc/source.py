"""Locating the source text of the functions under contract.

The package is imported for real (names, defaults, module structure); the body
of every function is read from its source file on every run and parsed; the
text interpreted is the text of /repo's working tree, nothing is copied."""
import ast
import os
import sys
import types
import warnings

_files = {}


def parse_file(path):
    if path not in _files:
        with open(path, encoding='utf-8') as f:
            txt = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(txt, path)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(d.lineno for d in n.decorator_list)
                idx.setdefault((getattr(n, 'name', '<lambda>'), ln),
                               []).append(n)
        _files[path] = (tree, idx, txt)
    return _files[path]


def func_ast(fn):
    """AST of a real Python function"""
    co = fn.__code__
    tree, idx, _ = parse_file(co.co_filename)
    c = idx.get((co.co_name, co.co_firstlineno))
    if not c:
        raise LookupError('no source for %r' % fn)
    return c[0]


def module_assigns(mod):
    """top level assignments name -> [value node]"""
    path = mod.__file__
    tree, _, _ = parse_file(path)
    out = {}
    for st in tree.body:
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(st.value)
    return out


def is_under(fn_or_mod):
    m = getattr(fn_or_mod, '__module__', None) or ''
    return m == 'pydsm' or m.startswith('pydsm.')


def is_under_mod(m):
    return m.__name__ == 'pydsm' or m.__name__.startswith('pydsm.')
