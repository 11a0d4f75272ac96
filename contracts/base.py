"""Common vocabulary of the contract files."""
from fractions import Fraction

import numpy as np
import z3

from pyvc import interp as P
from pyvc import npmodel as N
from pyvc import solver as S
from pyvc import terms as T
from pyvc.interp import Arr, SSeq, isarr
from pyvc.terms import (Cx, I, Inf, PI, R, Rz, Unsupported, ite, sabs, sadd,
                        sand, scos, sdiv, seq, sexp, sge, sgt, sle, slog,
                        slog10, slt, smul, sne, sneg, snot, sor, spow, sprod,
                        ssin, ssqrt, ssub, ssum)
from pyvc.vc import VC, Dyn, Found, Prop, Unit, flat_events

F = Fraction
