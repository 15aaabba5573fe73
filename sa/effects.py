"""Which caller-visible or persistent objects a function may modify or hand out (alias/effect analysis)."""
from .interp import Interp, State, Raise, Unsupported, subterms, is_c, show
from .loader import Func

# methods whose result may share memory with (or be) their receiver
VIEW_METHODS = {'T', 'transpose', 'conj', 'conjugate', 'reshape', 'ravel', 'view', 'squeeze', 'swapaxes', 'diagonal',
                'real', 'imag', 'data', 'indices', 'indptr', 'flat', 'base', 'tocsc', 'tocsr', 'tocoo', 'tolil', 'asformat',
                'astype', 'get', 'setdefault', '__getitem__', 'keys', 'values', 'items', 'H', 'getH', 'newbyteorder', 'todok'}
VIEW_EXT = {'numpy.asarray', 'numpy.asanyarray', 'numpy.asfarray', 'numpy.ascontiguousarray', 'numpy.reshape', 'numpy.ravel',
            'numpy.transpose', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.real',
            'numpy.imag', 'numpy.diagonal', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.broadcast_to', 'numpy.expand_dims',
            'numpy.asmatrix', 'numpy.real_if_close', 'numpy.rollaxis',
            'scipy.sparse.csc_matrix', 'scipy.sparse.csr_matrix', 'scipy.sparse.coo_matrix', 'scipy.sparse.lil_matrix',
            'builtins.iter', 'builtins.reversed', 'builtins.next', 'typing.cast', 'builtins.max', 'builtins.min',
            'builtins.getattr', 'builtins.zip', 'builtins.enumerate'}
# in-place methods of arrays and sparse matrices beyond the container mutators known to the interpreter
MUT_METHODS = {'sort', 'fill', 'setdiag', 'resize', 'sort_indices', 'sum_duplicates', 'eliminate_zeros', 'setflags',
               'put', 'itemset', 'partition', 'update', 'clear', 'pop', 'append', 'extend', 'insert', 'remove', 'reverse',
               'prune', 'popitem', 'setdefault', 'byteswap_inplace', '__setitem__', '__delitem__', '__iadd__', '__imul__',
               '__isub__', '__itruediv__', '__ipow__', '__ior__', 'add', 'discard', 'setfield', 'getfield_inplace',
               'rescale', '__imatmul__', '__iand__', '__ixor__', '__ifloordiv__', '__imod__', '__setattr__'}
# external functions that write into an argument: position of the argument
MUT_EXT = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
           'numpy.random.shuffle': 0, 'random.shuffle': 0, 'numpy.put_along_axis': 0, 'builtins.setattr': 0,
           'builtins.delattr': 0, 'heapq.heappush': 0, 'bisect.insort': 0, 'operator.iadd': 0, 'operator.imul': 0,
           'operator.setitem': 0, 'operator.isub': 0, 'operator.itruediv': 0, 'operator.delitem': 0,
           'numpy.add.at': 0, 'numpy.multiply.at': 0, 'numpy.subtract.at': 0}
FRESH_HEADS = {'c', 'bin', 'un', 'len', 'fstr', 'cmp', 'isinst', 'not', 'and', 'or', 'fn', 'cls', 'ext', 'clo', 'mod', 'pos',
               'eq', 'lt', 'is', 'in', 'nonempty', 'hasattr', 'callable', 'sum', 'any', 'all', 'unbound', 'slice', 'bm',
               'range', 'isnone', 'exc', 'nobreak'}


class Roots:
    """roots(term): the parameters / persistent objects whose memory the value may share"""

    def __init__(self, I, st, params, number_params=()):
        self.I, self.st, self.params, self.numbers = I, st, set(params), set(number_params)

    def is_global_obj(self, t):
        lab = self.I.info[t[1]].label
        return lab is not None or (t, '#c') in self.I.base or t in self.I.global_terms

    def __call__(self, t, seen=frozenset()):
        if not isinstance(t, tuple) or not t or t in seen:
            return set()
        if t in self.I.cached_terms:
            return {('global', 'memoised result')}
        if t in self.I.global_terms and t[0] != 'obj':
            return {('global', 'module variable')}
        seen = seen | {t}
        h = t[0]
        if h == 'sym':
            if t in self.params:
                return {('param', t[1])}
            if str(t[1]).startswith('global'):
                return {('global', t[1])}
            return set()
        if h == 'obj':
            if self.is_global_obj(t):
                lab = self.I.info[t[1]].label
                return {('global', lab or 'object kept by an enclosing scope')}
            return set()
        if h == 'cyc' or h in FRESH_HEADS:
            return set()
        if h in ('attr',):
            if t[2] in ('shape', 'dtype', 'size', 'ndim', 'nnz', 'A', 'name', 'format'):
                return set()
            return self(t[1], seen)
        if h in ('idx', 'content', 'keys', 'values', 'items', 'reversed', 'zip', 'enum', 'sliced'):
            r = set()
            for x in t[1:]:
                if isinstance(x, tuple) and not (h == 'idx' and x is t[2]):
                    r |= self(x, seen)
            return r
        if h == 'elem':
            return self.elem(t[1], seen)
        if h == 'mcall':
            if t[2] in VIEW_METHODS:
                return self(t[1], seen)
            if t[2] in ('pop',):
                return self(t[1], seen)
            return set()
        if h == 'call':
            f = t[1]
            if isinstance(f, tuple) and f[0] == 'ext':
                if f[1] in VIEW_EXT or f[1].split('.')[-1] in ('asarray', 'asanyarray'):
                    kw = dict(t[3])
                    if kw.get('copy') == ('c', 'bool', True):
                        return set()
                    r = set()
                    for a in t[2]:
                        r |= self(a, seen)
                    return r
                if f[1] == 'numpy.array' and dict(t[3]).get('copy') == ('c', 'bool', False):
                    return self(t[2][0], seen)
                return set()
            if isinstance(f, str):      # package function left opaque (recursion): may return one of its arguments
                r = set()
                for a in t[2]:
                    r |= self(a, seen)
                return r
            return set()
        if h in ('lv',):
            r = set()
            for x in self.I.lv_src.get(t, ()):
                r |= self(x, seen)
            return r
        # containers and merged values
        r = set()
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    r |= self(x, seen)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            for z in (y if not (y and isinstance(y[0], str)) else (y,)):
                                if isinstance(z, tuple) and z and isinstance(z[0], str):
                                    r |= self(z, seen)
        return r

    def elem(self, it, seen):
        return self(it, seen)


def walk_events(evs):
    """all events, including those of loop bodies"""
    for e in evs:
        if e[0] == 'loop':
            for facts, sub, sig in e[2]:
                yield from walk_events(sub)
        else:
            yield e


def mutations(I, st, roots, immutable=lambda t: False):
    """yields (what, line, root set) for every event that writes into a rooted object"""
    for e in walk_events(st.events):
        k = e[0]
        if k == 'mut':
            r = roots(e[1])
            if r:
                yield f'{e[2]} on {show(e[1])[:80]}', e[4], r
        elif k == 'inplace':
            r = roots(e[1])
            if r and not immutable(e[1]):
                yield f'in-place {e[2]}= on {show(e[1])[:80]}', e[3], r
        elif k == 'w':
            t = e[1]
            if t[0] == 'mod':
                yield f'assignment of module variable {e[2]}', e[4], {('global', e[2])}
            elif t[0] in ('fn', 'cls', 'ext'):
                yield f'assignment of attribute {e[2]} of {show(t)}', e[4], {('global', e[2])}
            else:
                r = roots(t)
                if r:
                    yield f'assignment of attribute {e[2]} of {show(t)[:80]}', e[4], r
        elif k == 'wdyn':
            r = roots(e[1])
            if r:
                yield f'setattr on {show(e[1])[:80]}', e[4], r
        elif k == 'mcall':
            if e[2] in MUT_METHODS:
                r = roots(e[1])
                if r:
                    yield f'{e[2]}() on {show(e[1])[:80]}', e[5], r
            for kk, v in e[4]:
                if kk == 'out':
                    r = roots(v)
                    if r:
                        yield f'out= of {e[2]}', e[5], r
        elif k == 'xcall':
            q = e[1]
            if q in MUT_EXT and len(e[2]) > MUT_EXT[q]:
                r = roots(e[2][MUT_EXT[q]])
                if r:
                    yield f'{q} on {show(e[2][0])[:80]}', e[4], r
            for kk, v in e[3]:
                if kk == 'out' or (kk.startswith('overwrite_') and v == ('c', 'bool', True)):
                    r = roots(v) if kk == 'out' else set().union(*[roots(a) for a in e[2]] or [set()])
                    if r:
                        yield f'{kk}= of {q}', e[4], r
