"""Helpers shared by the checkers."""
from ..interp import (Interp, State, C, NONE, TRUE, FALSE, Raise, Unsupported, show, subterms, mentions, subst, is_c,
                      tup, EMPTY_L, EMPTY_D)
from ..loader import Func, Class, AnalysisBroken
from ..report import Report

PKG = 'quanguru.'


def params_of(func):
    a = func.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def short(key):
    return key.replace('quanguru.', '')


def where(func, line=0):
    return (func.module.path.split('/repo/')[-1] if hasattr(func.module, 'path') else func.module.name,
            line or func.node.lineno, short(func.key))


def sym_args(func, I=None, cls=None):
    """fresh symbols for the parameters of func; self gets the type of the class"""
    args = []
    names = params_of(func)
    kind = getattr(func, 'kind', None)
    for i, n in enumerate(names):
        s = ('sym', n)
        if i == 0 and func.cls is not None and n in ('self', 'obj') and I is not None:
            I.types[s] = cls or func.cls
        args.append(s)
    return args


def all_functions(prog):
    """every function with source, including nested ones"""
    return list(prog.funcs.values())


def terms(t):
    """proper sub-terms (those with a head)"""
    return (x for x in subterms(t) if x and isinstance(x[0], str))
