"""Values the executor computes with."""
import z3
from poly import Poly, P, CTX


class Opaque:
    """A value of an unknown type: a name and the indices it depends on."""
    __slots__ = ('name', 'idx', 'ty')

    def __init__(self, name, idx=(), ty=None):
        self.name, self.idx, self.ty = name, tuple(idx), ty

    def key(self):
        return (self.name,) + tuple(i.key() for i in self.idx)

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '<%s%s>' % (self.name, list(self.idx) if self.idx else '')


class Ptr:
    """A pointer into a memory region (rid None: an address without provenance)."""
    __slots__ = ('rid', 'off', 'meta')

    def __init__(self, rid, off, meta=None):
        self.rid, self.off, self.meta = rid, P(off), meta

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.rid, self.off, self.meta) == (o.rid, o.off, o.meta)

    def __hash__(self):
        return hash((self.rid, self.off))

    def __repr__(self):
        return '&%s+%s%s' % (self.rid, self.off, '' if self.meta is None else '[%s]' % (self.meta,))


class Ref:
    """A pointer to (part of) a structured cell."""
    __slots__ = ('cid', 'path', 'meta')

    def __init__(self, cid, path=(), meta=None):
        self.cid, self.path, self.meta = cid, tuple(path), meta

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.cid, self.path, self.meta) == (o.cid, o.path, o.meta)

    def __hash__(self):
        return hash((self.cid, self.path))

    def __repr__(self):
        return '&c%s%s' % (self.cid, ''.join('.%s' % (p,) for p in self.path))


class Agg:
    __slots__ = ('v', 'f')

    def __init__(self, f=(), v=0):
        self.f, self.v = tuple(f), v

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return '%s(%s)' % ('v%d' % self.v if self.v else '', ', '.join(map(repr, self.f)))


class UnionVal:
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, UnionVal) and self.x == o.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return 'u{%r}' % (self.x,)


class Bits:
    """An 8-bit value as eight conditions, least significant first."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, Bits) and len(self.b) == len(o.b) and all(
            (x is y) or (isinstance(x, bool) and isinstance(y, bool) and x == y) or
            (not isinstance(x, bool) and not isinstance(y, bool) and x.eq(y)) for x, y in zip(self.b, o.b))

    def __hash__(self):
        return hash(len(self.b))

    def __repr__(self):
        return 'bits%r' % (self.b,)


class Snap:
    """An array of symbolic length as a value: the bytes from off of a (frozen) region state."""
    __slots__ = ('rs', 'rid', 'off')

    def __init__(self, rs, rid, off):
        self.rs, self.rid, self.off = rs, rid, P(off)

    def __eq__(self, o):
        return isinstance(o, Snap) and self.rs is o.rs and (self.rid, self.off) == (o.rid, o.off)

    def __hash__(self):
        return hash((self.rid, self.off))

    def __repr__(self):
        return 'snap(%s+%s)' % (self.rid, self.off)


class InPlace:
    """An array of symbolic length in a local that has been borrowed: it lives in region rid."""
    __slots__ = ('rid',)

    def __init__(self, rid):
        self.rid = rid

    def __eq__(self, o):
        return isinstance(o, InPlace) and self.rid == o.rid

    def __hash__(self):
        return hash(self.rid)

    def __repr__(self):
        return 'array(%s)' % (self.rid,)


class FnVal:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, FnVal) and self.ty == o.ty

    def __hash__(self):
        return hash(self.ty)

    def __repr__(self):
        return 'fn<%s>' % self.ty


class _Undef:
    def __repr__(self):
        return '⊥'


UNDEF = _Undef()
UNIT = Agg(())


# ------------------------------------------------------------------ indexed atoms and substitution

_fns = {}


def fam(fname, idx, make=None):
    """The natural number fname(idx). make(idx) -> list of z3 facts about it (called once)."""
    idx = P(idx)
    name = '%s[%r]' % (fname, idx)
    if name not in CTX.term:
        if fname not in _fns:
            _fns[fname] = z3.Function(fname, z3.IntSort(), z3.IntSort())
        t = _fns[fname](idx.z())
        CTX.family[name] = (fname, idx, make)
        CTX.atom(name, term=t)
        if make is not None:
            CTX.addf(t, [f for f in make(idx) if not isinstance(f, bool)])
    return Poly({(name,): 1})


_bfns = {}


def bfam(fname, idx):
    """The condition fname(idx)."""
    if fname not in _bfns:
        _bfns[fname] = z3.Function(fname, z3.IntSort(), z3.BoolSort())
    return _bfns[fname](P(idx).z())


def psub(p, sub):
    """Substitute atoms (name -> Poly) in a Poly, including inside indexed and quotient atoms."""
    out = Poly({})
    hit = False
    for k, c in p.m.items():
        t = Poly.const(c)
        for a in k:
            r = asub(a, sub)
            if r is not None:
                hit = True
                t = t * r
            else:
                t = t * Poly({(a,): 1})
        out = out + t
    return out if hit else p


def asub(a, sub):
    if a in sub:
        return sub[a]
    f = CTX.family.get(a)
    if f is not None:
        i2 = psub(f[1], sub)
        if i2 is not f[1] and i2 != f[1]:
            return fam(f[0], i2, f[2])
        return None
    q = CTX.quot.get(a)
    if q is not None:
        x2, a2 = psub(q[0], sub), psub(q[1], sub)
        if x2 != q[0] or a2 != q[1]:
            return quotient(x2, a2)
        return None
    mx = CTX.defs.get(('minmax', a))
    if mx is not None:
        x2, y2 = psub(mx[1], sub), psub(mx[2], sub)
        if x2 != mx[1] or y2 != mx[2]:
            return minmax(mx[0], x2, y2)
    return None


def vsub(v, sub):
    if isinstance(v, Poly):
        return psub(v, sub)
    if isinstance(v, Opaque):
        return Opaque(v.name, [psub(i, sub) for i in v.idx], v.ty) if v.idx else v
    if isinstance(v, Ptr):
        return Ptr(v.rid, psub(v.off, sub), vsub(v.meta, sub))
    if isinstance(v, Snap):
        return Snap(v.rs, v.rid, psub(v.off, sub))
    if isinstance(v, Ref):
        return Ref(v.cid, [vsub(x, sub) if isinstance(x, Poly) else x for x in v.path], vsub(v.meta, sub))
    if isinstance(v, Agg):
        return Agg([vsub(x, sub) for x in v.f], v.v)
    if isinstance(v, UnionVal):
        return UnionVal(vsub(v.x, sub))
    if isinstance(v, tuple):
        return tuple(vsub(x, sub) for x in v)
    if isinstance(v, z3.ExprRef):
        return zsub(v, sub)
    if isinstance(v, Bits):
        return Bits([zsub(b, sub) if isinstance(b, z3.ExprRef) else b for b in v.b])
    return v


def zsub(f, sub):
    """Substitution in a z3 term; only used for plain atoms."""
    return z3.substitute(f, *[(CTX.term[a], p.z()) for a, p in sub.items()])


def exact_div(x, a):
    """x / a when every monomial of x is a multiple of a (const or single atom), else None."""
    x, a = P(x), P(a)
    if a.is_const():
        c = a.cval()
        if c != 0 and all(v % c == 0 for v in x.m.values()):
            return Poly({k: v // c for k, v in x.m.items()})
        return None
    if x.is_const() and x.cval() == 0:
        return Poly({})
    if len(a.m) != 1:
        if x == a:
            return Poly.const(1)
        return None
    (ak, ac), = a.m.items()
    m = {}
    for k, v in x.m.items():
        k = list(k)
        for t in ak:
            if t not in k:
                return None
            k.remove(t)
        if v % ac:
            return None
        m[tuple(k)] = v // ac
    return Poly(m)


def least(x):
    """A lower bound of x that is evident from its form (atoms are naturals, powers of two positive)."""
    r = 0
    for k, c in x.m.items():
        if all(a in CTX.pow2 for a in k):
            if c < 0 and k:
                return -1 << 200
            r += c
        elif c < 0:
            return -1 << 200
        elif len(k) == 1 and k[0] in CTX.quot and CTX.quot[k[0]][1].is_const():
            x, a = CTX.quot[k[0]]
            r += c * max(0, least(x) // a.cval())
    return r


def quotient(x, a):
    """floor(x / a) for a natural x and a positive a."""
    x, a = P(x), P(a)
    d = exact_div(x, a)
    if d is not None:
        return d
    if x.is_const() and a.is_const():
        return Poly.const(x.cval() // a.cval())
    if x + 1 == a:
        return Poly.const(0)
    one = a.single_atom()
    n = x.m.get((one,), 0) if one is not None else 0
    if n >= 1 and least(x - a * n) >= 0:
        return quotient(x - a * n, a) + n
    key = ('q', x, a)
    if key not in CTX.defs:
        name = '(%r)/(%r)' % (x, a)
        q = CTX.atom(name)
        CTX.quot[name] = (x, a)
        CTX.defs[key] = q
        aq = a * q
        from poly import le, lt, eq, OR, AND, cmp
        xz = x.z()
        f = OR(cmp('<=', a, 0), AND(le(aq, x), lt(x, aq + a)))
        fs = [z3.Implies(xz >= 0, f)] if not isinstance(f, bool) else []
        if n >= 1:
            # (a*n + r)/a = n + r/a for r >= 0
            r = x - a * n
            fs.append(z3.Implies(r.z() >= 0, eq(q, quotient(r, a) + n)))
        CTX.addf(CTX.term[name], fs)
    return CTX.defs[key]


def minmax(op, x, y):
    x, y = P(x), P(y)
    if x.is_const() and y.is_const():
        return Poly.const(max(x.cval(), y.cval()) if op == 'max' else min(x.cval(), y.cval()))
    if y.key() < x.key():
        x, y = y, x
    key = (op, x, y)
    if key not in CTX.defs:
        name = '%s(%r, %r)' % (op, x, y)
        from poly import le, eq
        p = CTX.atom(name)
        CTX.defs[key] = p
        CTX.defs[('minmax', name)] = key
        t = CTX.term[name]
        xz, yz = x.z(), y.z()
        from poly import cmp
        o = '>=' if op == 'max' else '<='
        CTX.addf(t, [f for f in (cmp(o, p, x), cmp(o, p, y)) if not isinstance(f, bool)] + [z3.Or(t == xz, t == yz)])
    return CTX.defs[key]
