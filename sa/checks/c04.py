"""C04: Hamiltonians built by the library equal their adjoint."""
from .common import *
from ..scen import Scene
from ..algebra import Unknown, madd, mscale, pconst, pmul, mkey, show_mat
from .c06 import OpAlgebra, interp as opinterp

RULE = ('adjoint normal form of every ready-made Hamiltonian and coupling over the elementary operators: the sum of operator products '
        'must be closed under taking the adjoint, with the same real strength')
T = 'QuantumToolbox.'
PAIR = {'create': 'destroy', 'destroy': 'create', 'Jp': 'Jm', 'Jm': 'Jp', 'sigmap': 'sigmam', 'sigmam': 'sigmap'}
HERM = {'sigmax', 'sigmay', 'sigmaz', 'Jx', 'Jy', 'Jz', 'Js', 'number', 'identity', 'paritySUM'}
QUB = {'sigmax', 'sigmay', 'sigmaz', 'sigmap', 'sigmam'}
SPIN = {'Jp', 'Jm', 'Jx', 'Jy', 'Jz', 'Js'}
CAV = {'create', 'destroy', 'number'}


class HamAlgebra(OpAlgebra):
    """all symbols are real numbers; the adjoint of an elementary operator is elementary"""

    def __init__(self):
        super().__init__(leaf=lambda t: t if t[0] == 'op' else None, allreal=True)

    def normw(self, w):
        out = []
        for f in w:
            if f[0] == 'M' and f[1][0] == 'op' and f[2]:
                n, op = f[1][1], f[2]
                if n in HERM - {'sigmay', 'Jy'}:
                    op = ''                       # real symmetric
                elif n in ('sigmay', 'Jy'):
                    op = {'h': '', 'T': 'c', 'c': 'c'}[op]
                elif n in PAIR:                   # real: the transpose is the adjoint
                    f = ('M', ('op', PAIR[n], f[1][2]), '') if op in ('h', 'T') else ('M', f[1], '')
                    op = ''
                f = ('M', f[1], op)
            out.append(f)
        return tuple(out)


def is_qubit(w, dims):
    return all(f[0] == 'M' and f[1][0] == 'op' and (f[1][1] in QUB or ('dimension', C(2)) in f[1][2]) for f in w)


def on_cavity(w, dim):
    return w == () or all(f[0] == 'M' and f[1][0] == 'op' and f[1][1] not in QUB and
                          any(v == dim for _, v in f[1][2]) for f in w)


def hamiltonians(prog, rep):
    dim = ('sym', 'cavDim')
    for f in list(prog.funcs.values()):
        if f.is_lambda or f.cls is not None or not f.module.name.endswith('QuantumToolbox.Hamiltonians'):
            continue
        names = params_of(f)
        if f.name.startswith('_') or 'cavDim' not in names:
            continue
        rep.count('hamiltonian_functions')
        with rep.guard(f.name):
            A = HamAlgebra()
            I = opinterp(prog)
            hook0 = I.call_hook

            def hook(I2, fn, args, kwargs, st, line):
                if isinstance(fn, Func) and fn.name == 'identity' and fn.module.name.endswith('operators'):
                    d = dict(zip(params_of(fn), args))
                    d.update(kwargs)
                    return [(st, ('op', 'identity', (('dimension', d['dimension']),)))]
                return hook0(I2, fn, args, kwargs, st, line)
            I.call_hook = hook
            n = 0
            for st, v in I.run(f, [('sym', x) for x in names]):
                if isinstance(v, Raise):
                    continue
                v = I.freeze(st, v)
                parts = list(v[1:]) if v[0] in ('tup', 'L') else [v]
                for k, x in enumerate(parts):
                    m = A.mat(x)
                    adj = A.adjoint(m)
                    if mkey(m) != mkey(adj):
                        rep.bad(f'hermitian:{f.name}', where(f), f'{f.name} returns {show_mat(m)[:200]}, which differs from its '
                                f'adjoint {show_mat(adj)[:200]}')
                        return
                    for w in m:
                        if len(w) == 1 and w[0][0] == 'kron' and len(w[0][1]) == 2:
                            a, b = w[0][1]
                            if is_qubit(b, dim) and on_cavity(a, dim) and a:
                                rep.bad(f'order:{f.name}', where(f), f'{f.name} has the cavity factor before the qubit factor: '
                                        f'{show_mat({w: m[w]})[:200]}')
                                return
                            if not (is_qubit(a, dim) and on_cavity(b, dim)):
                                raise Unknown(f'factors of {show_mat({w: m[w]})[:120]}')
                        else:
                            raise Unknown(f'not a product of a qubit and a cavity operator: {show_mat({w: m[w]})[:120]}')
                    n += 1
            if n:
                rep.count('expressions', n)
                rep.ok(f.name, f'{n} matrices equal to their adjoint, qubit factor first')
            else:
                rep.undecided(f.name, 'no path returns')


def opname(prog, t):
    """name of the toolbox operator that a callable denotes"""
    if t[0] == 'fn':
        f = prog.funcs.get(t[1])
        if f is not None and f.module.name.endswith('QuantumToolbox.operators'):
            return f.name
    return None


def seq(I, st, v):
    v = I.freeze(st, v)
    return list(v[1:]) if v[0] in ('L', 'tup') else None


def couplings(prog, rep):
    for f in list(prog.funcs.values()):
        if f.is_lambda or not f.module.name.endswith('extensions.couplings') or params_of(f)[:2] != ['obj', 'couplingStrength'] or \
                f.name == 'couplerDecorator':
            continue
        rep.count('couplings')
        with rep.guard(f.name):
            coupling(prog, rep, f)


def coupling(prog, rep, f):
    old = f.name.lower().endswith('old')
    I = Interp(prog)
    obj, g = ('sym', 'obj'), ('sym', 'g')
    cav, qub = ('sym', 'cavity'), ('sym', 'qubit')
    for s in (obj, cav, qub):
        I.kinds[s] = frozenset('o')
    I.types[obj] = prog.cls('compQSystem' if old else 'QuantumSystem')
    I.types[cav] = prog.cls('CavityOld' if old else 'Cavity')
    I.types[qub] = prog.cls('QubitOld' if old else 'Qubit')
    log = []

    def rec(st, kind, **kw):
        s = st.copy()
        s.events += (('coup', kind, tuple(sorted(kw.items(), key=lambda x: x[0]))),)
        return s

    def get(names, args, kwargs):
        d = dict(zip(names, args))
        d.update(kwargs)
        return d

    def hook(I2, fn, args, kwargs, st, line):
        if isinstance(fn, Func) and fn.cls is not None and fn.name == 'createTerm':
            d = get(params_of(fn), args, kwargs)
            ops, sys = seq(I2, st, d['operator']), seq(I2, st, d.get('qSystem', NONE))
            k = sum(1 for e in st.events if e[0] == 'coup')
            t = ('sym', f'term{k}')
            I.kinds[t] = frozenset('o')
            return [(rec(st, 'term', obj=t, ops=ops and tuple(ops), sys=sys and tuple(sys), freq=d.get('frequency', NONE),
                         order=I2.freeze(st, d['order']) if d.get('order') else NONE), t)]
        if isinstance(fn, Class) and fn.name == 'QTerm':
            d = dict(kwargs)
            sub = seq(I2, st, d.get('subSys', NONE))
            k = sum(1 for e in st.events if e[0] == 'coup')
            t = ('sym', f'coupling{k}')
            I.kinds[t] = frozenset('o')
            I.types[t] = fn
            return [(rec(st, 'sum', obj=t, members=sub and tuple(sub), freq=d.get('frequency', NONE), sys=d.get('qSystem', NONE)), t)]
        if isinstance(fn, Func) and fn.cls is not None and fn.name == 'createSysCoupling':
            d = dict(kwargs)
            s = rec(st, 'old', args=tuple(I2.freeze(st, a) for a in args[1:]),
                    freq=d.get('couplingStrength', d.get('frequency', NONE)))
            t = ('sym', 'oldcoupling')
            I.kinds[t] = frozenset('o')
            I.types[t] = prog.cls('qCoupling')
            return [(s, t)]
        if isinstance(fn, Func) and fn.cls is not None and fn.name == 'addTerm' and args[0] == ('sym', 'oldcoupling'):
            return [(rec(st, 'oldadd', args=tuple(I2.freeze(st, a) for a in args[1:])), args[0])]
        return None
    I.call_hook = hook
    raw = f
    n = 0
    for st, v in I.run(raw, [obj, g, cav, qub]):
        if isinstance(v, Raise):
            continue
        prods, freqs = [], []
        evs = [e for e in st.events if e[0] == 'coup']
        byobj, sums, used = {}, [], set()
        for e in evs:
            d = dict(e[2])
            if e[1] == 'term':
                byobj[d['obj']] = d
            elif e[1] == 'sum':
                sums.append(d)
            else:
                a = list(d['args'])
                sysl = None
                while a:
                    x = a.pop(0)
                    items = list(x[1:]) if x[0] in ('L', 'tup') else None
                    if items is None:
                        raise Unsupported(f'argument {show(x)}')
                    if all(opname(prog, y) for y in items):
                        prods.append((tuple(sysl), tuple(items)))
                    else:
                        sysl = items
                if e[1] == 'old':
                    freqs.append(d['freq'])
        for d in sums:
            if d['members'] is None:        # not a combination of terms
                continue
            freqs.append(d['freq'])
            for t in dict.fromkeys(d['members']):
                if t not in byobj:
                    raise Unsupported('a term of the coupling')
                b = byobj[t]
                used.add(t)
                if b['ops'] is None or b['sys'] is None:
                    raise Unsupported('operators of a term')
                if b['order'] != NONE:
                    raise Unsupported('order of a term')
                prods.append((b['sys'], b['ops']))
        for t in used:          # the terms of the coupling are also terms of the system: one contribution each
            byobj.pop(t)
        if byobj:
            for b in byobj.values():
                if b['freq'] != NONE and b['ops'] and b['sys']:
                    freqs.append(b['freq'])
                    prods.append((b['sys'], b['ops']))
                elif not sums or (b['obj'], 'frequency') in st.store or not b['ops']:
                    raise Unsupported('a term outside of the coupling')
                # otherwise the term never gets a strength
        if not prods:
            raise Unsupported('no operator products found')
        words = []
        for sys, ops in prods:
            names = [opname(prog, o) for o in ops]
            if None in names or len(sys) != len(ops) or set(sys) - {cav, qub}:
                raise Unsupported('operators of a product')
            w = {}
            for s, nm in zip(sys, names):
                w.setdefault(s, []).append(nm)
            words.append(tuple(sorted((s, tuple(x)) for s, x in w.items())))
        adj = [tuple((s, tuple(adjoint(nm) for nm in reversed(x))) for s, x in w) for w in words]
        txt = ' + '.join('*'.join(nm for _, x in w for nm in x) for w in words)
        if sorted(words, key=repr) != sorted(adj, key=repr):
            rep.bad(f'hermitian:{f.name}', where(f), f'{f.name} couples {txt}, which does not contain the adjoint of each product')
            return
        if set(freqs) != {g}:
            rep.bad(f'strength:{f.name}', where(f), f'{f.name} gives its products the strengths {", ".join(show(x) for x in freqs)}')
            return
        for w in words:
            for s, x in w:
                wrong = [nm for nm in x if (s == cav and nm not in CAV) or (s == qub and nm in {'number'})]
                if wrong:
                    rep.bad(f'side:{f.name}', where(f), f'{f.name} applies {wrong[0]} to the {s[1]}')
                    return
        n += 1
        last = txt
    if n:
        rep.count('paths', n)
        rep.ok(f.name, last)
    else:
        rep.undecided(f.name, 'no path returns')


def adjoint(nm):
    if nm in HERM:
        return nm
    if nm in PAIR:
        return PAIR[nm]
    raise Unsupported(f'adjoint of {nm}')


def wrappers(prog, rep):
    """the cavity comes first in what the couplers get, whichever order the user gives"""
    for wname, cavs, qubs in (('checkCavQub', ['Cavity'], ['Qubit', 'Spin']), ('checkCavQubOld', ['CavityOld'], ['QubitOld', 'SpinOld'])):
        for q in qubs:
            for first in (True, False):
                key = f'{wname}:{q}:{"qubit" if first else "cavity"} given first'
                with rep.guard(key):
                    f = prog.fn('classes.extensions.couplings.' + wname)
                    I = Interp(prog)
                    c, s = ('sym', 'cavity'), ('sym', 'qubit')
                    for x, k in ((c, cavs[0]), (s, q)):
                        I.kinds[x] = frozenset('o')
                        I.types[x] = prog.cls(k)
                    coup = ('sym', 'coupler')
                    n = 0
                    for st, d in I.run(f, [coup]):
                        if isinstance(d, Raise):
                            raise Unsupported('decorator raises')
                        a = (s, c) if first else (c, s)
                        I.stack, I.loops = [], []
                        for s2, v in I.call(d, (('sym', 'obj'), ('sym', 'g')) + a, (), st):
                            if isinstance(v, Raise):
                                rep.bad(f'rejects:{wname}', where(f), f'a {q} and a cavity are rejected ({v.name if hasattr(v, "name") else v})')
                                return
                            calls = [e for e in s2.events if e[0] == 'call' and e[1] == coup]
                            if len(calls) != 1:
                                raise Unsupported(f'{len(calls)} calls of the coupler')
                            pos = [x for x in calls[0][2]]
                            kw = dict(calls[0][3]) if len(calls[0]) > 3 and isinstance(calls[0][3], tuple) else {}
                            pos = (pos + [kw.get('subSys1'), kw.get('subSys2')])[2:4] if len(pos) < 4 else pos[2:4]
                            if pos != [c, s]:
                                rep.bad(f'swapped:{wname}', where(f), f'the coupling gets ({", ".join(show(x) for x in pos)}) instead of '
                                        'the cavity followed by the qubit')
                                return
                            n += 1
                    if n:
                        rep.ok(key, 'cavity first')
                    else:
                        rep.undecided(key, 'no path')


def terms_(prog, rep):
    """a term is its frequency times the product (or the sum) of the matrices of its parts"""
    Q = prog.cls('QTerm')
    # coupling between several systems: product of the parts, in their order
    for kind in ('product', 'sum'):
        with rep.guard(f'QTerm:{kind}'):
            S = Scene(prog)
            t = S.obj('term', Q)
            ts = [S.obj(f'part{i}', Q) for i in range(2)]
            S.members(t, 'subSys', ts)
            if kind == 'product':
                S.putp(t, 'qSystem', S.lst([S.obj('s0', prog.cls('QuantumSystem')), S.obj('s1', prog.cls('QuantumSystem'))]))
            else:
                S.putp(t, 'qSystem', S.obj('s0', prog.cls('QuantumSystem')))
            mats = {x: ('sym', f'matrix_{x[1]}') for x in ts}

            def hook(I2, fn, args, kwargs, st, line):
                if isinstance(fn, Func) and fn.name == '_constructMatrices' and args and args[0] in mats:
                    return [(st, mats[args[0]])]
                return None
            S.I.call_hook = hook
            f = prog.lookup(Q, '_constructMatrices')[1][1]
            A = HamAlgebra()
            A.leaf = lambda x: x if x in mats.values() else None
            a, b = (A.mat(m) for m in mats.values())
            from ..algebra import mmulmat
            want = [mmulmat(a, b), mmulmat(b, a)] if kind == 'product' else [madd(a, b)]
            n = 0
            for st, v in S.call(t, '_constructMatrices'):
                if isinstance(v, Raise):
                    continue
                for s2, fld in S.get(t, '_paramBoundBase__matrix', st):
                    m = A.mat(S.I.freeze(s2, fld))
                    if mkey(m) not in [mkey(w) for w in want]:
                        rep.bad(f'term:{kind}', where(f), f'the matrix of a {"coupling" if kind == "product" else "combined"} term is '
                                f'{show_mat(m)}, not the {kind} of its parts')
                        return
                    n += 1
            if n:
                rep.ok(f'QTerm:{kind}', show_mat(want[0]))
            else:
                rep.undecided(f'QTerm:{kind}', 'no path returns')
    # one system: the operator power of the given operator, extended by identities only
    with rep.guard('QTerm:Hamiltonian'):
        S = Scene(prog)
        t = S.obj('term', Q)
        w = S.unset('w', 'o')
        S.putp(t, 'frequency', w)
        free = ('sym', 'FREE')

        def hook(I2, fn, args, kwargs, st, line):
            if isinstance(fn, Func) and fn.name == '_freeMatrix' and len(args) == 1:
                return [(st, free)]
            return None
        S.I.call_hook = hook
        S.I.kinds[free] = frozenset('o')
        S.members(t, 'subSys', [])
        S.put(t, '_QTerm__HamiltonianTerm', NONE)
        A = HamAlgebra()
        A.leaf = lambda x: x if x == free else None
        n = 0
        f = prog.lookup(Q, 'totalHamiltonian')[1][1]
        fn = f.fget if hasattr(f, 'fget') else f
        for st, v in S.get(t, 'totalHamiltonian'):
            if isinstance(v, Raise):
                continue
            m = A.mat(S.I.freeze(st, v))
            if mkey(m) != mkey(mscale(A.sc(w), A.mat(free))):
                rep.bad('term:Hamiltonian', ('quanguru/classes/QTerms.py', 0, 'QTerm.totalHamiltonian'),
                        f'the Hamiltonian of a term is {show_mat(m)} instead of its frequency times its matrix')
                return
            n += 1
        if n:
            rep.ok('QTerm:Hamiltonian', 'frequency times matrix')
        else:
            rep.undecided('QTerm:Hamiltonian', 'no path returns')
    # a system: sum of the Hamiltonians of its sub-systems and terms
    with rep.guard('QuantumSystem:Hamiltonian'):
        S = Scene(prog)
        s = S.obj('system', prog.cls('QuantumSystem'))
        subs = [S.obj(f'sub{i}', prog.cls('QuantumSystem')) for i in range(2)]
        tms = [S.obj(f't{i}', Q) for i in range(2)]
        S.members(s, 'subSys', subs)
        S.members(s, 'terms', tms)
        for x in tms:
            S.putp(x, 'operator', S.obj('operator_' + x[1]))
        S.put(s, '_paramBoundBase__matrix', NONE)
        hams = {x: ('sym', 'H_' + x[1]) for x in subs + tms}

        def hook(I2, fn, args, kwargs, st, line):
            if isinstance(fn, Func) and fn.name == 'totalHamiltonian' and len(args) == 1 and args[0] in hams:
                return [(st, hams[args[0]])]
            return None
        S.I.call_hook = hook
        A = HamAlgebra()
        A.leaf = lambda x: x if x in hams.values() else None
        want = {}
        for x in hams.values():
            want = madd(want, A.mat(x))
        n = 0
        for st, v in S.get(s, 'totalHamiltonian'):
            if isinstance(v, Raise):
                continue
            m = A.mat(S.I.freeze(st, v))
            if mkey(m) != mkey(want):
                rep.bad('system:Hamiltonian', ('quanguru/classes/QSystem.py', 0, 'QuantumSystem.totalHamiltonian'),
                        f'the Hamiltonian of a system is {show_mat(m)} instead of the sum over its sub-systems and terms')
                return
            n += 1
        if n:
            rep.ok('QuantumSystem:Hamiltonian', 'sum over sub-systems and terms')
        else:
            rep.undecided('QuantumSystem:Hamiltonian', 'no path returns')


def defaults(prog, rep):
    """the operator a ready-made system starts with is Hermitian"""
    for cname in ('Cavity', 'Spin', 'Qubit', 'CavityOld', 'SpinOld', 'QubitOld'):
        with rep.guard(f'default:{cname}'):
            cls = prog.cls(cname)
            f = prog.lookup(cls, '__init__')[1][1]
            I = Interp(prog)
            me = ('sym', 'self')
            I.types[me] = cls
            I.kinds[me] = frozenset('o')

            def hook(I2, fn, args, kwargs, st, line):
                if isinstance(fn, Func) and fn.name in ('operator', 'dimension') and len(args) == 2 and args[0] == me:
                    s = st.copy()
                    if fn.name == 'operator':
                        s.events += (('defop', args[1]),)
                    return [(s, NONE)]
                if isinstance(fn, Func) and fn.name in ('__init__', '_named__setKwargs') and fn.cls is not None and fn is not f and \
                        args and args[0] == me:
                    if fn.cls.name in ('Spin', 'SpinOld'):
                        return None
                    return [(st, NONE)]
                return None
            I.call_hook = hook
            ops = set()
            for st, v in I.run(f, [me]):
                if isinstance(v, Raise):
                    continue
                for e in st.events:
                    if e[0] == 'defop':
                        ops.add(e[1])
            if not ops:
                raise Unsupported('no default operator found')
            for o in ops:
                nm = opname(prog, o)
                if nm in PAIR or nm == 'displacement':
                    rep.bad(f'default:{cname}', where(f), f'{cname} starts with the operator {nm}, which is not Hermitian')
                    return
                if nm not in HERM:
                    raise Unsupported(f'default operator {show(o)}')
            rep.ok(f'default:{cname}', ', '.join(sorted(opname(prog, o) for o in ops)))


def check(prog, tier='quick'):
    rep = Report('C04', prog, tier, RULE,
                 'Abstract interpretation of the ready-made Hamiltonians and of every coupling function for symbolic systems and real '
                 'strengths; the collected operator products are compared with their adjoints, and the assembly of terms and systems '
                 'from their parts is compared with a real combination of them.',
                 assumptions=['frequencies and coupling strengths are real', 'operators of different systems of a composite commute',
                              'the elementary operators have the adjoints established by C03'])
    with rep.guard('Hamiltonians'):
        hamiltonians(prog, rep)
    with rep.guard('couplings'):
        couplings(prog, rep)
    with rep.guard('wrappers'):
        wrappers(prog, rep)
    with rep.guard('terms'):
        terms_(prog, rep)
    with rep.guard('defaults'):
        defaults(prog, rep)
    return rep.finish(minimum=12)
