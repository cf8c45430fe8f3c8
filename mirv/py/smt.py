"""Deciding the conditions the executor meets.

feasible(pc, c): may c hold on this path? (linear arithmetic plus instantiated lemmas; unsat is
  definite, anything else counts as feasible)
prove(pc, g): ('proved', how) | ('cex', model) | ('unknown', reason)
"""
import time
import z3
from poly import CTX, Poly

TIMEOUT_MS = 10000    # obligations
QUICK_MS = 3000       # decisions on the way


SUBS = {}    # id of a condition -> (the condition, ids of its subterms); the reference keeps the id alive


def subs(f):
    e = SUBS.get(f.get_id())
    if e is not None:
        return e[1]
    ids = set()
    todo = [f]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in ids:
            continue
        e = SUBS.get(i)
        if e is not None:
            ids |= e[1]
            continue
        ids.add(i)
        if z3.is_app(t):
            todo.extend(t.children())
    ids = frozenset(ids)
    SUBS[f.get_id()] = (f, ids)
    return ids


def walk(f, seen, out):
    """Collects into out the facts and lemmas attached to subterms of f not yet in seen (a list of
    sets, of which the last is updated)."""
    todo = [f]
    top = seen[-1]
    prods = []
    while todo or prods:
        if not todo:
            i = prods.pop()
            pr = CTX.pair[i]
            for sn in seen:
                for j in pr.keys() & sn:
                    if j not in prods:
                        for x in pr[j]:
                            out.append(x)
                            todo.append(x)
            continue
        ids = subs(todo.pop())
        new = ids.difference(*seen)
        top |= new
        prods.extend(new & CTX.pair.keys())
        for tab in (CTX.facts, CTX.lem):
            for i in new & tab.keys():
                for x in tab[i][1]:
                    out.append(x)
                    todo.append(x)


class Smt:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.how = {}
        self.log = None      # {SMT-LIB text: label} of the queries answered unsat, when asked for
        self.reset()

    def note(self, fs, label):
        s = z3.Solver()
        for f in fs:
            s.add(f)
        self.log.setdefault(s.to_smt2(), label)

    def reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', TIMEOUT_MS)
        self.stack = []      # list of (cond ids)
        self.conds = []
        self.seen = [set()]  # ids first met at each level
        SUBS.clear()
        self.cache = {}
        self.keep = []

    def sync(self, pc):
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] == pc[n].get_id():
            n += 1
        while len(self.stack) > n:
            self.s.pop()
            self.stack.pop()
            self.conds.pop()
            self.seen.pop()
        for c in pc[n:]:
            self.s.push()
            out = []
            self.seen.append(set())
            walk(c, self.seen, out)
            self.s.add(c)
            for x in out:
                self.s.add(x)
            self.stack.append(c.get_id())
            self.conds.append(c)

    def _check(self, pc, c, ms=TIMEOUT_MS):
        self.queries += 1
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        out = []
        if c is not None:
            walk(c, self.seen + [set()], out)
            self.s.add(c)
            for x in out:
                self.s.add(x)
        self.s.set('timeout', ms)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.time += time.time() - t0
        if self.log is not None and r == z3.unsat:
            fs, out = self.all_conds(pc, c if c is not None else z3.BoolVal(True))
            self.note(fs + out, 'linear')
        return r, m

    def sat(self, pc, c):
        """Whether c may hold: z3.unsat is definite, z3.sat up to the lemmas, z3.unknown is unknown."""
        if isinstance(c, bool):
            return z3.sat if c else z3.unsat
        k = (tuple(x.get_id() for x in pc), c.get_id(), len(CTX.facts))
        if k not in self.cache:
            self.cache[k] = self._check(pc, c, QUICK_MS)[0]
            self.keep.append((pc, c))
        return self.cache[k]

    def feasible(self, pc, c):
        return self.sat(pc, c) != z3.unsat

    # ------------------------------------------------------------ obligations
    def all_conds(self, pc, c):
        seen, out = [set()], []
        fs = list(pc) + [c]
        for f in fs:
            walk(f, seen, out)
        return fs, out

    def prove(self, pc, g):
        if isinstance(g, bool):
            if g:
                return ('proved', 'trivial')
            g = z3.BoolVal(False)
        ng = z3.simplify(z3.Not(g)) if z3.is_false(g) else z3.Not(g)
        r, m = self._check(pc, ng)
        if r == z3.unsat:
            return ('proved', 'z3-linear')
        if r == z3.sat and self.true_model(m):
            return ('cex', m)
        # exact products
        t0 = time.time()
        fs, facts = self.all_conds(pc, ng)
        base = list(facts)
        s = z3.Solver()
        s.set('timeout', TIMEOUT_MS)
        for f in fs + base:
            s.add(f)
        used = self.used_prods(fs + base)
        for k in used:
            e = None
            for a in k:
                e = CTX.term[a] if e is None else e * CTX.term[a]
            s.add(CTX.prods[k] == e)
        r = s.check()
        self.time += time.time() - t0
        self.queries += 1
        if r == z3.unsat:
            if self.log is not None:
                self.note(s.assertions(), 'nonlinear')
            return ('proved', 'z3-nonlinear')
        if r == z3.sat:
            m = s.model()
            if self.true_model(m):
                return ('cex', m)
        # case split on the powers of two
        t0 = time.time()
        p2 = [a for a in CTX.pow2 if self.occurs(a, fs + base)]
        res = self.split(fs + base, used, p2, 0)
        self.time += time.time() - t0
        return res

    def occurs(self, a, fs):
        i = CTX.term[a].get_id()
        return any(i in subs(f) for f in fs)

    def used_prods(self, fs):
        ids = {t.get_id(): k for k, t in CTX.prods.items()}
        return [ids[i] for i in sorted(set().union(*[subs(f) & ids.keys() for f in fs]))]

    def split(self, fs, used, p2, depth):
        if len(p2) > 2:
            p2 = p2[:2]
        if not p2:
            return ('unknown', 'nonlinear')
        unknown = False
        import itertools
        rng = [range(CTX.pow2[a] + 1) for a in p2]
        t0 = time.time()
        for es in itertools.product(*rng):
            s = z3.Solver()
            s.set('timeout', 2000)
            for f in fs:
                s.add(f)
            fix = {}
            for a, e in zip(p2, es):
                s.add(CTX.term[a] == 2 ** e)
                fix[a] = 2 ** e
            for k in used:
                e = None
                for a in k:
                    u = z3.IntVal(fix[a]) if a in fix else CTX.term[a]
                    e = u if e is None else e * u
                s.add(CTX.prods[k] == e)
            self.queries += 1
            r = s.check()
            if r == z3.sat:
                m = s.model()
                if self.true_model(m):
                    return ('cex', m)
                unknown = True
            elif r != z3.unsat:
                unknown = True
            elif self.log is not None:
                self.note(s.assertions(), 'pow2-split')
            if time.time() - t0 > 30:
                return ('unknown', 'timeout')
            if unknown and len(p2) > 1:
                return ('unknown', 'nonlinear')
        return ('unknown', 'nonlinear') if unknown else ('proved', 'pow2-split')

    def true_model(self, m):
        """Does the model give products and powers of two their true values?"""
        ev = lambda t: m.eval(t, model_completion=True)
        for k, t in CTX.prods.items():
            if m[t] is None and not any(m[CTX.term[a]] is not None for a in k if z3.is_const(CTX.term[a])):
                continue
            v = 1
            for a in k:
                v *= ev(CTX.term[a]).as_long()
            if m[t] is None:
                continue
            if ev(t).as_long() != v:
                return False
        for a in CTX.pow2:
            if m[CTX.term[a]] is None:
                continue
            v = ev(CTX.term[a]).as_long()
            if v < 1 or v & (v - 1):
                return False
        return True


def model_str(m):
    out = {}
    for d in m.decls():
        n = d.name()
        if d.arity() == 0:
            if '*' in n or n.startswith('k!'):
                continue
            out[n] = str(m[d])
    return out
