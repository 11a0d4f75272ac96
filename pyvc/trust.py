TRUSTED = [
    'the verification-condition generator /verif/pyvc (symbolic interpreter '
    'of the Python/Cython subset, loop rule, normal form of rational '
    'expressions)',
    'z3 5.3.2 and cvc5 as back ends',
    'CPython as the interpreter of the same source text',
]
ASSUMPTIONS = [
    'floating point arithmetic is treated as exact real arithmetic; float '
    'literals denote their shortest decimal value',
    'numpy / scipy / cvxpy functions behave as their models in '
    '/verif/pyvc/npmodel.py and the contract files (listed in trusted_base)',
    'cos, sin, exp, log, log10, sqrt, x**y are uninterpreted except for: '
    'sqrt(t)^2=t, sqrt>=0, cos^2+sin^2=1, exp>0, 10**log10(t)=t, '
    'log10(10**t)=t, log(exp t)=t, range of cos/sin',
]
