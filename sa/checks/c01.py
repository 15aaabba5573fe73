"""C01: no toolbox function writes into an argument or keeps state between calls (alias and effect analysis)."""
import ast
from .common import *
from ..effects import Roots, mutations, walk_events

RULE = 'effect analysis: no write through a parameter alias, no persistent object written or handed out'
NUM_ANN = {'int', 'float', 'complex', 'bool', 'str', 'integer', 'number'}
NUM_LISTS = {'intList', 'floatList', 'supInp', 'ndOrListInt'}


def annotations(func):
    out = {}
    a = func.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out[x.arg] = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(x.annotation)
                      if isinstance(n, (ast.Name, ast.Attribute))} if x.annotation is not None else None
    return out


def matrix_like(func, name):
    """without annotation: used as matrix or container anywhere in the function"""
    for n in ast.walk(func.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
            return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            for s in (n.left, n.right):
                if isinstance(s, ast.Name) and s.id == name:
                    return True
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name) and n.iter.id == name:
            return True
    return False


def immut(func):
    ann = annotations(func)

    def f(t):
        h = t[0]
        if h == 'sym':
            a = ann.get(t[1])
            if a is None:
                return not matrix_like(func, t[1])
            return a <= NUM_ANN | {'Optional', 'Union'}
        if h in ('elem', 'idx', 'attr'):
            b = t
            deep = 0
            while b[0] in ('elem', 'idx', 'content', 'keys', 'values', 'items'):
                b = b[1]
                deep += 1
            if b[0] == 'range':
                return True
            if b[0] == 'attr' and b[2] in ('shape',):
                return True
            if b[0] == 'sym':
                a = ann.get(b[1])
                if a is None:
                    return False
                return bool(a & (NUM_LISTS | {'Matrix', 'ndarray', 'spmatrix'})) or a <= NUM_ANN | {'Optional', 'Union', 'List', 'Tuple', 'Iterable'}
            return False
        if h == 'lv' or h == 'mcall' or h == 'call':
            return False
        return False
    return f


def check(prog, tier):
    rep = Report('C01', prog, tier, RULE,
                 'Every function of the quantum toolbox was summarised with its callees inlined; an obligation is one '
                 'function of which no path writes through an alias of an argument, writes a module variable, a memoised or '
                 'default object, or returns such an object.',
                 ['table of external functions and methods that return views of or write into their operands',
                  'functions passed in by the caller may do anything to the values they are given'])
    funcs = [f for f in prog.funcs.values() if f.module.name.startswith('quanguru.QuantumToolbox') and not f.is_lambda]
    if len(funcs) < 80:
        raise AnalysisBroken('toolbox functions not found')
    for f in funcs:
        key = short(f.key)
        I = Interp(prog, path_limit=3000, step_limit=250000)
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        # variable arguments: an unknown number of them, standing for one list per call
        args = [('sym', n) for n in ps]
        if a.vararg:
            args.append(('star', ('sym', a.vararg.arg)))
        try:
            outs = I.run(f, args, tuple((x.arg, ('sym', x.arg)) for x in a.kwonlyargs))
        except Unsupported as e:
            rep.undecided(key, e)
            continue
        params = {('sym', n) for n in ps} | {('sym', x.arg) for x in a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        im = immut(f)
        bad = False
        rep.count('paths', len(outs))
        for s, v in outs:
            r = Roots(I, s, params)
            for what, line, roots in mutations(I, s, r, im):
                rep.count('writes_examined')
                kinds = sorted(f'{k}:{n}' for k, n in roots)
                bad = True
                kk = [n for k, n in roots if k == 'param']
                rep.bad(f'write:{key}:{"arg " + kk[0] if kk else "persistent"}', where(f, line),
                        f'{what} modifies {", ".join(kinds)}')
            if not isinstance(v, Raise):
                for k, n in r(v):
                    if k == 'global':
                        bad = True
                        rep.bad(f'handout:{key}:persistent', where(f), f'returns an object that outlives the call ({n})')
        # defaults written or returned when the arguments are omitted
        nd = len(a.defaults)
        if nd and any(not isinstance(d, ast.Constant) for d in a.defaults + [d for d in a.kw_defaults if d]):
            I = Interp(prog, path_limit=3000, step_limit=250000)
            try:
                outs = I.run(f, [('sym', n) for n in ps[:len(ps) - nd]])
            except Unsupported as e:
                rep.undecided(key + ':defaults', e)
                outs = []
            for s, v in outs:
                r = Roots(I, s, ())
                for what, line, roots in mutations(I, s, r):
                    bad = True
                    rep.bad(f'write:{key}:default', where(f, line), f'{what} modifies {sorted(roots)}')
                if not isinstance(v, Raise) and any(k == 'global' for k, n in r(v)):
                    bad = True
                    rep.bad(f'handout:{key}:default', where(f), 'returns its default object')
        if not bad:
            rep.ok(key, f'{len(outs)} paths')
    # module-level statements must not create caches that the functions share: covered by the walk above
    return rep.finish(minimum=80)
