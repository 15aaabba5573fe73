"""Abstract heaps with named objects: the starting states of the heap-based checks."""
from .interp import Interp, State, Raise, C, NONE, TRUE, FALSE, Unsupported
from .loader import Func


class Scene:
    """symbolic objects of given classes whose containers have known members; every other field stays unknown"""

    def __init__(self, prog, path_limit=4000, step_limit=400000):
        self.p = prog
        self.I = Interp(prog, path_limit, step_limit)
        self.st = State()

    def obj(self, name, cls=None, exact=True):
        s = ('sym', name)
        if cls is not None:
            self.I.types[s] = self.p.cls(cls) if isinstance(cls, str) else cls
        self.I.kinds[s] = frozenset('o')
        return s

    def unset(self, name, kinds=None):
        s = ('sym', name)
        if kinds:
            self.I.kinds[s] = frozenset(kinds)
        return s

    def loc(self, o, prop):
        """the field (obj, name) that a plain property reads"""
        outs = self.I.getattr(o, prop, self.st.copy())
        vals = {v for _, v in outs if not isinstance(v, Raise)}
        if len(vals) != 1:
            raise Unsupported(f'property {prop} has {len(vals)} values')
        v = vals.pop()
        if v[0] != 'attr':
            raise Unsupported(f'property {prop} is not a field: {v}')
        return v

    def put(self, o, field, val):
        self.st.store[(o, field)] = val

    def putp(self, o, prop, val):
        t = self.loc(o, prop)
        self.st.store[(t[1], t[2])] = val

    def lst(self, items):
        return self.I.new_list(self.st, ('L',) + tuple(items))

    def dct(self, items):
        return self.I.new_dict(self.st, ('D',) + tuple(items))

    def content(self, o, prop, content):
        """give the container that the property reads a known content"""
        t = self.loc(o, prop)
        self.st.store[(t, '#c')] = content

    def members(self, o, prop, objs, keys=None):
        ks = keys or [('sym', 'key_' + x[1]) for x in objs]
        self.content(o, prop, ('D',) + tuple(zip(ks, objs)))

    def call(self, o, meth, args=(), kwargs=(), st=None):
        """call a method of o from the current (or given) state"""
        st = (st or self.st).copy()
        self.I.stack, self.I.loops = [], []
        res = []
        for s, f in self.I.getattr(o, meth, st):
            if isinstance(f, Raise):
                res.append((s, f))
            else:
                res.extend(self.I.call(f, tuple(args), tuple(kwargs), s))
        return res

    def set(self, o, attr, val, st=None):
        st = (st or self.st).copy()
        self.I.stack, self.I.loops = [], []
        return self.I.setattr(o, attr, val, st)

    def get(self, o, attr, st=None):
        st = (st or self.st).copy()
        self.I.stack, self.I.loops = [], []
        return self.I.getattr(o, attr, st)


def equal_under(st, a, b):
    """a and b denote the same value on this path (closure of the equalities it assumes)"""
    if a == b:
        return True
    pairs = [k[1:] for k, v in st.facts.items() if v is True and k[0] in ('eq', '==', 'is') and len(k) == 3]
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for p, q in pairs:
            for y, z in ((p, q), (q, p)):
                if y == x and z not in seen:
                    seen.add(z)
                    todo.append(z)
    return b in seen
