"""C21: every acquired pool / file is released on every path, including exceptional ones."""
import ast
from .common import *
from ..effects import walk_events

RULE = ('resource typestate over all paths: acquired -> released (close/terminate then join, or a context manager) before the path '
        'leaves the function that owns the resource, with every call into simulation code allowed to raise')
OPENERS = {'builtins.open', 'open', 'io.open', 'codecs.open', 'h5py.File', 'gzip.open', 'os.fdopen', 'tempfile.TemporaryFile',
           'tempfile.NamedTemporaryFile', 'zipfile.ZipFile'}
POOLS = ('multiprocessing.Pool', 'multiprocessing.pool.Pool', 'multiprocessing.pool.ThreadPool', 'concurrent.futures.ProcessPoolExecutor',
         'concurrent.futures.ThreadPoolExecutor', 'multiprocessing.dummy.Pool')


def pool_terms(events):
    out = []
    for e in walk_events(events):
        if e[0] == 'xcall' and (e[1] in POOLS or e[1].split('.')[-1] == 'Pool'):
            out.append((('call', ('ext', e[1]), tuple(e[2]), tuple(e[3])), e[-1]))
        elif e[0] == 'mcall' and e[2] == 'Pool':
            out.append((('mcall', e[1], 'Pool', tuple(e[3]), tuple(e[4])), e[5]))
    return out


def check_pools(prog, rep):
    C_ = prog.cls('Simulation')
    r = prog.lookup(C_, 'run')
    f = r[1][1]
    mod = f.module
    helpers = {k: g for k, g in prog.funcs.items() if g.module is mod}
    makers = set()
    for k, g in prog.funcs.items():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                q = ast.unparse(n.func)
                if q.split('.')[-1] == 'Pool' or q.split('.')[-1].endswith('PoolExecutor'):
                    makers.add(k)
    I = Interp(prog, path_limit=6000, step_limit=600000)
    I.implicit_try = False
    args = sym_args(f, I)
    I.types[args[0]] = C_

    def hook(I2, func, a, kw, st, line):
        if not isinstance(func, Func):
            return None
        if func is f or func.key in makers:
            return None
        if func.module is mod and func.cls is not C_:
            return None      # helpers beside the pool memory are followed
        if func.cls is C_ and func.name.startswith('_') and any(m in calls_of(func) for m in maker_names):
            return None
        s1 = st.copy()
        fr = tuple(I2.freeze(s1, x) for x in a)
        s1.ev('call', func.key, fr, (), line)
        out = [(s1, ('call', func.key, fr, ()))]
        if live(s1.events):
            s2 = s1.copy()
            out.append((s2, Raise('Exception', line, True)))
        return out
    maker_names = {prog.funcs[k].name for k in makers}
    I.call_hook = hook
    I.may_raise = lambda name: name in ('map', 'imap', 'starmap', 'imap_unordered', 'map_async', 'apply', 'evolFunc', 'get')
    outs = I.run(f, args)
    npool = 0
    for s, v in outs:
        pools = pool_terms(s.events)
        for t, line in pools:
            if s.facts.get(('K', t)) is not None and 'o' not in s.facts[('K', t)]:
                continue        # a pool object is never None
            npool += 1
            state = 'open'
            for e in s.events:
                if e[0] == 'exit' and e[1] == t:
                    state = 'joined'
                elif e[0] in ('mcall', 'mut') and e[1] == t:
                    if e[2] in ('close', 'terminate') and state == 'open':
                        state = 'closed'
                    elif e[2] == 'shutdown':
                        state = 'joined'
                    elif e[2] == 'join' and state == 'closed':
                        state = 'joined'
            esc = isinstance(v, tuple) and t in list(subterms(v))
            kind = 'raise' if isinstance(v, Raise) else 'normal'
            if state == 'joined' or esc:
                rep.ok(f'pool:{kind}:{line}', show(t))
            else:
                rep.bad(f'pool:{kind}:{state}', where(f, line),
                        f'on a path that ends {"with an exception from the simulation" if kind == "raise" else "normally"} the pool '
                        f'{show(t)} is left {"open" if state == "open" else "closed but not joined"}')
    rep.count('pool_paths', npool)
    if not npool:
        rep.undecided('pool', 'no pool creation found on the paths of Simulation.run')


def calls_of(func):
    return {ast.unparse(n.func).split('.')[-1] for n in ast.walk(func.node) if isinstance(n, ast.Call)}


def live(events):
    return bool(pool_terms(events))


# ------------------------------------------------------------------------------------------------ files
def parents(tree):
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    return par


def own_nodes(fnode):
    """nodes of the function itself, without nested functions"""
    stack = list(ast.iter_child_nodes(fnode))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def is_opener(node, opener_funcs, func, prog):
    if not isinstance(node, ast.Call):
        return False
    q = ast.unparse(node.func)
    if q in OPENERS or q.split('.')[-1] in opener_funcs:
        return True
    return isinstance(node.func, ast.Attribute) and node.func.attr == 'open' and q.split('.')[0] not in ('webbrowser',)


def closed_after(name, stmts, i):
    """statement list: after index i, the resource in `name` is closed on every way out"""
    for s in stmts[i + 1:]:
        if isinstance(s, ast.Try):
            fin = s.finalbody
            if any(isinstance(n, ast.Call) and ast.unparse(n.func) == f'{name}.close' for b in fin for n in ast.walk(b)):
                return True
        if isinstance(s, ast.With) and any(ast.unparse(it.context_expr) in (name, f'closing({name})', f'contextlib.closing({name})')
                                           for it in s.items):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == f'{name}.close':
            return True
        if any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.For, ast.While, ast.Raise)) for n in ast.walk(s)):
            return False        # something may raise first
    return False


def check_files(prog, rep):
    opener_funcs = set()
    changed = True
    sites = []
    while changed:
        changed = False
        sites = []
        for f in prog.funcs.values():
            par = parents(f.node)
            managed = 'contextmanager' in ' '.join(ast.unparse(d) for d in getattr(f.node, 'decorator_list', []))
            for n in own_nodes(f.node):
                if not is_opener(n, opener_funcs, f, prog):
                    continue
                p = par.get(n)
                # wrapped in closing(...) or an ExitStack
                if isinstance(p, ast.Call) and (ast.unparse(p.func).split('.')[-1] in ('closing', 'enter_context')):
                    sites.append((f, n, 'managed'))
                    continue
                if isinstance(p, ast.withitem):
                    sites.append((f, n, 'with'))
                    continue
                if isinstance(p, ast.Return):
                    if f.name not in opener_funcs:
                        opener_funcs.add(f.name)
                        changed = True
                    sites.append((f, n, 'returned'))
                    continue
                if isinstance(p, ast.NamedExpr):
                    p = par.get(p)
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                    name = p.targets[0].id
                    blk = par.get(p)
                    verdict = 'leak'
                    for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                        lst = getattr(blk, fld, None)
                        if isinstance(lst, list) and p in lst:
                            if closed_after(name, lst, lst.index(p)):
                                verdict = 'finally'
                            elif isinstance(blk, ast.Try) and any(
                                    isinstance(m, ast.Call) and ast.unparse(m.func) == f'{name}.close'
                                    for b in blk.finalbody for m in ast.walk(b)):
                                verdict = 'finally'
                            # name used in a with statement or returned further on
                            rest = lst[lst.index(p) + 1:]
                            if verdict == 'leak' and rest and isinstance(rest[0], ast.Return) and \
                                    isinstance(rest[0].value, ast.Name) and rest[0].value.id == name:
                                verdict = 'returned'
                                if f.name not in opener_funcs:
                                    opener_funcs.add(f.name)
                                    changed = True
                    if verdict == 'leak' and managed:
                        verdict = 'unknown'
                    sites.append((f, n, verdict))
                    continue
                if isinstance(p, (ast.Assign, ast.AnnAssign)):
                    sites.append((f, n, 'unknown'))
                    continue
                sites.append((f, n, 'leak' if isinstance(p, (ast.Attribute, ast.Call, ast.Expr, ast.comprehension, ast.For))
                              else 'unknown'))
    for f, n, verdict in sites:
        k = f'file:{short(f.key)}:{ast.unparse(n.func)}'
        if verdict == 'leak':
            rep.bad(k, where(f, n.lineno), f'{ast.unparse(n)} is not closed when a statement after it raises: use a with block')
        elif verdict == 'unknown':
            rep.undecided(k, f'{ast.unparse(n)} is stored where its closing cannot be followed')
        else:
            rep.ok(f'{k}:{n.lineno}', verdict)
    rep.count('open_calls', len(sites))


def check(prog, tier):
    rep = Report('C21', prog, tier, RULE,
                 'Simulation.run was followed with every call outside the pool management allowed to raise; an obligation is one '
                 'pool on one path, or one call that opens a file.',
                 ['Pool() itself either fails without leaving workers or returns a pool',
                  'assignments of plain attributes do not raise'])
    with rep.guard('pools'):
        check_pools(prog, rep)
    with rep.guard('files'):
        check_files(prog, rep)
    return rep.finish(minimum=1)
