"""Values of the abstract interpreter: immutable trees over mutable cells."""


class Cell:
    __slots__ = ('v', 'tag')

    def __init__(self, v=None, tag=None):
        self.v = v
        self.tag = tag

    def __repr__(self):
        return 'cell(%r)' % (self.v,)


class Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class V:
    __slots__ = ()


class Str(V):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __hash__(self):
        return hash(('Str', self.s))

    def __repr__(self):
        return 'Str(%r)' % (self.s,)


class Sym(V):
    """An uninterpreted value: where it comes from is all that is known."""
    __slots__ = ('k', 'a', 'ty', '_h')

    def __init__(self, k, a=(), ty=None):
        self.k = k
        self.a = tuple(a)
        self.ty = ty
        self._h = hash((k, self.a))

    def __eq__(self, o):
        return isinstance(o, Sym) and self._h == o._h and o.k == self.k and o.a == self.a

    def __hash__(self):
        return self._h

    def __repr__(self):
        if not self.a:
            return self.k
        return '%s(%s)' % (self.k, ', '.join(map(repr, self.a)))


class Adt(V):
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Adt) and o.ty == self.ty and o.var == self.var and o.f == self.f

    def __hash__(self):
        return hash(('Adt', self.ty, self.var, self.f))

    def __repr__(self):
        return 'adt%s#%s%r' % (self.ty, self.var, list(self.f))


class Tup(V):
    __slots__ = ('f',)

    def __init__(self, f=()):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.f == self.f

    def __hash__(self):
        return hash(('Tup', self.f))

    def __repr__(self):
        return 'tup%r' % (list(self.f),)


class Arr(V):
    """contents of an array, slice, Vec"""
    __slots__ = ('f',)

    def __init__(self, f=()):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Arr) and o.f == self.f

    def __hash__(self):
        return hash(('Arr', self.f))

    def __repr__(self):
        return 'arr%r' % (list(self.f),)


class Clo(V):
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Clo) and o.ty == self.ty and o.f == self.f

    def __hash__(self):
        return hash(('Clo', self.ty, self.f))

    def __repr__(self):
        return 'closure%s%r' % (self.ty, list(self.f))


class FnV(V):
    """a function item or function pointer to a known function"""
    __slots__ = ('inst', 'decl', 'ctor')

    def __init__(self, inst, decl=None, ctor=None):
        self.inst = inst
        self.decl = decl
        self.ctor = ctor

    def __eq__(self, o):
        return isinstance(o, FnV) and o.inst == self.inst

    def __hash__(self):
        return hash(('FnV', self.inst))

    def __repr__(self):
        return 'fn#%s' % (self.inst,)


class Ref(V):
    __slots__ = ('c', 'p')

    def __init__(self, c, p=()):
        self.c = c
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.c is self.c and o.p == self.p

    def __hash__(self):
        return hash(('Ref', id(self.c), self.p))

    def __repr__(self):
        return 'ref(%r%s)' % (self.c.v, ''.join('.%s' % (x,) for x in self.p))


class Ptr(V):
    """an owning pointer: Box, Arc, Rc"""
    __slots__ = ('k', 'c', 'ty')

    def __init__(self, k, c, ty=None):
        self.k = k
        self.c = c
        self.ty = ty       # static type of what it was created with (for downcasts)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.c is self.c

    def __hash__(self):
        return hash(('Ptr', id(self.c)))

    def __repr__(self):
        return '%s(%r)' % (self.k, self.c.v)


class Obj(V):
    """a value of a modelled library type"""
    __slots__ = ('k', 'f')

    def __init__(self, k, *f):
        self.k = k
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, Obj) and o.k == self.k and o.f == self.f

    def __hash__(self):
        return hash(('Obj', self.k, self.f))

    def __repr__(self):
        return '<%s %s>' % (self.k, ' '.join(map(repr, self.f)))


UNIT = Tup(())


class Unsupported(Exception):
    pass


class RustPanic(Exception):
    def __init__(self, msg, payload=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.payload = payload


class Infeasible(Exception):
    """this combination of outcomes contradicts itself"""
