"""Integer terms: polynomials with integer coefficients over named atoms (all atoms are
natural numbers), and their translation to Z3.

A product of atoms becomes one Z3 constant; true facts about products are instantiated as
lemmas, so most queries stay in linear arithmetic. smt.py decides the rest with Z3's nonlinear
solver or by exact case splits over powers of two."""
import z3


class Ctx:
    """Registry of atoms. facts: z3 ast id -> (term, [z3 Bools that hold whenever the term exists])."""

    def __init__(self):
        self.term = {}       # atom name -> z3 term
        self.facts = {}
        self.pow2 = {}       # atom -> largest exponent
        self.aligned = {}    # atom -> [Poly it is a multiple of]
        self.prods = {}      # product monomial (tuple of atoms) -> z3 const
        self.pair = {}       # ids of two products with a common factor -> lemmas
        self.byfactor = {}   # atom -> set of product monomials containing it
        self.defs = {}       # key -> Poly (rounding, quotients, ...)
        self.quot = {}       # quotient atom -> (x, a): q = floor(x/a)
        self.lem = {}        # comparison id -> (f, lemmas)
        self.uniq = 0
        self.names = {}
        self.family = {}
        self.scale = None    # a positive term; comparisons over atoms in `scaled` are also instantiated times it
        self.scaled = set()

    def fresh(self, hint):
        self.uniq += 1
        return '%s#%d' % (hint, self.uniq)

    def addf(self, term, fs):
        i = term.get_id()
        if i not in self.facts:
            self.facts[i] = (term, [])
        self.facts[i][1].extend(fs)

    def atom(self, name, lo=0, hi=None, pow2=None, aligned=None, term=None, facts=None):
        new = name not in self.term
        if new:
            t = term if term is not None else z3.Int(name)
            self.term[name] = t
            fs = [t >= lo]
            if hi is not None:
                fs.append(t <= hi)
            if pow2 is not None:
                self.pow2[name] = pow2
                fs += [t >= 1, t <= 2 ** pow2]
            self.addf(t, fs)
        if aligned is not None and new:
            self.aligned.setdefault(name, []).append(aligned)
        p = Poly({(name,): 1})
        if facts is not None and new:
            self.addf(self.term[name], facts(p))
        return p


CTX = Ctx()


def reset():
    CTX.__init__()


class Poly:
    __slots__ = ('m', '_h')

    def __init__(self, m):
        self.m = {k: c for k, c in m.items() if c != 0}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): int(c)})

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), 0)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        o = P(o)
        m = dict(self.m)
        for k, c in o.m.items():
            m[k] = m.get(k, 0) + c
        return Poly(m)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                m[k] = m.get(k, 0) + c1 * c2
        return Poly(m)

    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    def single_atom(self):
        if len(self.m) == 1:
            (k, c), = self.m.items()
            if c == 1 and len(k) == 1:
                return k[0]
        return None

    def subst(self, sub):
        """sub: atom -> Poly"""
        if not (self.atoms() & set(sub)):
            return self
        out = Poly({})
        for k, c in self.m.items():
            t = Poly.const(c)
            for a in k:
                t = t * (sub[a] if a in sub else Poly({(a,): 1}))
            out = out + t
        return out

    def __repr__(self):
        if not self.m:
            return '0'
        parts = []
        for k, c in sorted(self.m.items()):
            s = '*'.join(k)
            if not k:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%d*%s' % (c, s)
            parts.append(s)
        return ' + '.join(parts).replace('+ -', '- ')

    def z(self):
        t = None
        for k, c in self.m.items():
            u = mono_z(k)
            if k == ():
                u = z3.IntVal(c)
            elif c != 1:
                u = c * u
            t = u if t is None else t + u
        return z3.IntVal(0) if t is None else t


def mono_z(k):
    if len(k) == 0:
        return z3.IntVal(1)
    if len(k) == 1:
        return CTX.term[k[0]]
    if k not in CTX.prods:
        t = z3.Int('*'.join(k))
        CTX.prods[k] = t
        fs = [t >= 0]
        seen = set()
        for i, a in enumerate(k):
            if a in seen:
                continue
            seen.add(a)
            rest = k[:i] + k[i + 1:]
            x, y = CTX.term[a], mono_z(rest)
            fs += [z3.Implies(x == 0, t == 0), z3.Implies(x == 1, t == y),
                   z3.Implies(x >= 1, t >= y), z3.Implies(z3.And(x >= 2, y >= 1), t >= y + 1),
                   z3.Implies(y >= 1, t >= x), z3.Implies(y == 1, t == x), z3.Implies(y == 0, t == 0)]
        CTX.addf(t, fs)
        for a in set(k):
            for other in list(CTX.byfactor.get(a, ())):
                _pair_lemma(a, k, other)
            CTX.byfactor.setdefault(a, set()).add(k)
    return CTX.prods[k]


def _cofactor(k, a):
    k = list(k)
    k.remove(a)
    return tuple(k)


def _pair_lemma(a, k1, k2):
    s = CTX.term[a]
    x, y = mono_z(_cofactor(k1, a)), mono_z(_cofactor(k2, a))
    p, q = CTX.prods[k1], CTX.prods[k2]
    fs = [z3.Implies(x < y, p + s <= q), z3.Implies(y < x, q + s <= p), z3.Implies(x == y, p == q)]
    # instantiated only where both products occur (smt.walk)
    CTX.pair.setdefault(p.get_id(), {})[q.get_id()] = fs
    CTX.pair.setdefault(q.get_id(), {})[p.get_id()] = fs


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return Poly.const(x)
    raise TypeError('not an integer term: %r' % (x,))


def group_lemmas(d):
    """Lemmas about d = s*L + r for every factor s of a product in d."""
    out = []
    facs = set()
    for k in d.m:
        if len(k) >= 2:
            facs.update(k)
    for s in facs:
        L = {}
        for k, c in d.m.items():
            if s in k:
                L[_cofactor(k, s)] = c
        if len(L) == 1 and abs(list(L.values())[0]) == 1:
            continue
        Lp = Poly(L)
        Ls = (Lp * Poly({(s,): 1})).z()
        lz, sz = Lp.z(), CTX.term[s]
        out += [z3.Implies(lz >= 0, Ls >= 0), z3.Implies(lz >= 1, Ls >= sz),
                z3.Implies(lz <= 0, Ls <= 0), z3.Implies(lz <= -1, Ls <= -sz),
                z3.Implies(lz >= 2, Ls >= 2 * sz), z3.Implies(lz <= -2, Ls <= -2 * sz)]
    return out


def scalable(a):
    if a in CTX.scaled:
        return True
    f = CTX.family.get(a)
    if f is not None:
        return f[0] in CTX.scaled
    q = CTX.quot.get(a)
    if q is not None:
        return q[1] == CTX.scale
    mx = CTX.defs.get(('minmax', a))
    if mx is not None:
        return all(scalable(x) for p in mx[1:] for x in p.atoms())
    return False


def scale_lemmas(d):
    """d compared with 0 is s*d compared with 0, for the scale s > 0 of the context."""
    if any(len(k) > 1 for k in d.m) or not all(scalable(a) for a in d.atoms()):
        return []
    lz, Ls, sz = d.z(), (d * CTX.scale).z(), CTX.scale.z()
    return [z3.Implies(lz >= 0, Ls >= 0), z3.Implies(lz >= 1, Ls >= sz), z3.Implies(lz <= 0, Ls <= 0), z3.Implies(lz <= -1, Ls <= -sz)]


def cmp(op, a, b):
    """Comparison of two Polys as a python bool or a z3 Bool."""
    d = P(a) - P(b)
    if d.is_const():
        c = d.cval()
        return {'<=': c <= 0, '<': c < 0, '==': c == 0, '>=': c >= 0, '>': c > 0, '!=': c != 0}[op]
    f = _cmp(op, d)
    common = set.intersection(*[set(k) for k in d.m]) & CTX.pow2.keys()
    if common and any(len(k) > 1 for k in d.m):
        # s*x compared with 0 is x compared with 0 for s >= 1
        g = cmp(op, Poly({_cofactor(k, min(common)): c for k, c in d.m.items()}), 0)
        CTX.lem[f.get_id()][1].append(f == B(g))
    return f


def _cmp(op, d):
    pos = Poly({k: c for k, c in d.m.items() if c > 0})
    neg = Poly({k: -c for k, c in d.m.items() if c < 0})
    pz, nz = pos.z(), neg.z()
    f = {'<=': pz <= nz, '<': pz < nz, '==': pz == nz, '>=': pz >= nz, '>': pz > nz, '!=': pz != nz}[op]
    if f.get_id() not in CTX.lem:
        ls = group_lemmas(d)
        if CTX.scale is not None:
            ls = ls + scale_lemmas(d)
        CTX.lem[f.get_id()] = (f, ls, d)
    return f


def le(a, b): return cmp('<=', a, b)
def lt(a, b): return cmp('<', a, b)
def eq(a, b): return cmp('==', a, b)


def NOT(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def AND(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            ys.append(x)
    return True if not ys else (ys[0] if len(ys) == 1 else z3.And(*ys))


def OR(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            ys.append(x)
    return False if not ys else (ys[0] if len(ys) == 1 else z3.Or(*ys))


def IMPL(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if isinstance(a, bool):
        return b if a else NOT(b)
    if isinstance(b, bool):
        return a if b else NOT(a)
    return a == b


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
