"""Symbolic execution of MIR, path by path, with obligations discharged by smt.py.

Machine integers are mathematical integers whose wrap-around is decided at every operation;
memory is a set of regions with symbolic sizes, each with a log of what was written to it.
Loops whose trip count is not fixed are summarized by inferred inductive invariants (loops.py).
"""
import z3
import poly
from poly import Poly, P, CTX, cmp, NOT, AND, OR, IMPL, IFF, B
from values import *
from smt import Smt
from loops import Fork, LOST

U64 = 2 ** 64
ISIZE_MAX = 2 ** 63 - 1


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Region:
    """Static facts about a region; its changing state is an RState."""

    def __init__(self, rid, name, size, align, kind, base):
        self.rid, self.name, self.size, self.align, self.kind, self.base = rid, name, P(size), P(align), kind, base


class RState:
    __slots__ = ('live', 'ev', 'init', 'parent')

    def __init__(self, live=True, ev=(), init=None):
        self.live, self.ev, self.init = live, ev, init

    def with_ev(self, *e):
        return RState(self.live, self.ev + e, self.init)


class Frame:
    __slots__ = ('body', 'bb', 'idx', 'cells', 'dest', 'dty', 'to', 'unwind', 'glue', 'loops', 'hooks')

    def __init__(self, body, cells, dest=None, dty=None, to=None, unwind='continue'):
        self.body, self.cells, self.dest, self.dty, self.to, self.unwind = body, cells, dest, dty, to, unwind
        self.bb, self.idx = 0, 0
        self.glue = None
        self.loops = ()
        self.hooks = None

    def clone(self):
        f = Frame(self.body, self.cells, self.dest, self.dty, self.to, self.unwind)
        f.bb, f.idx, f.glue, f.loops, f.hooks = self.bb, self.idx, self.glue, self.loops, self.hooks
        return f


class State:
    def __init__(self):
        self.frames = []
        self.cells = {}
        self.regions = {}
        self.pc = []
        self.trace = ()
        self.ghost = {}
        self.unwinding = None
        self.final = None
        self.ret = None
        self.decisions = []
        self.pos = 0
        self.snap = None
        self.taint = False  # a question on the way was left open by the solver
        self.ctxk = ()      # indices of enclosing summarized loops
        self.note = ()

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.cells = dict(self.cells)
        s.regions = dict(self.regions)
        s.pc = list(self.pc)
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.unwinding = self.unwinding
        s.final = self.final
        s.ret = self.ret
        s.decisions = list(self.decisions)
        s.pos = 0
        s.snap = None
        s.ctxk = self.ctxk
        s.taint = self.taint
        s.note = self.note
        return s

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)


class Obligation:
    def __init__(self, kind, where, status, detail):
        self.kind, self.where, self.status, self.detail = kind, where, status, detail


class Exec:
    MAX_STEPS = 200000

    def __init__(self, root, smt=None):
        self.root = root
        self.ty = root.types
        self.smt = smt or Smt()
        for x in self.ty.t:
            if x['k'] == 'alias' and x['str'].endswith('::Layout'):
                x['needs_drop'] = False     # assumed: the associated Layout types have no destructor
        self.obls = []
        self.has_snap = False       # some local is an array of symbolic length
        self.trial = False          # inside the search for a loop invariant
        self.nreg = 0
        self.ncell = 0
        self.rinfo = {}
        self.work = []
        self.done = []
        self.overrides = {}
        self.vl_consts = {}     # library types used by contract: name -> ALIGN
        self.obj_types = {}
        self.funcs = {}       # functions entered: name -> times
        self.steps = 0
        import natives
        self.assoc = dict(natives.ASSOC)
        self.rewrite_fn = None
        self.obl_seen = {}
        self.loop_info = {}
        self.unwind_calls = True
        self.copy_types = set()
        self.ghost_points = {}
        self.too_large = []
        self.log_calc = False
        self.obj_facts = None
        self.cex = None

    # ------------------------------------------------------------------ solver
    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        if st.pos < len(st.decisions):
            d, forced = st.decisions[st.pos]
            st.pos += 1
            if not forced:
                st.assume(c if d else NOT(c))
            return d
        t = self.smt.feasible(st.pc, c)
        f = self.smt.feasible(st.pc, NOT(c))
        if t and f:
            alt = st.snap.clone()
            alt.decisions = st.decisions + [(False, False)]
            alt.snap = st.snap
            st.alts.append(alt)
            st.decisions.append((True, False))
            st.pos += 1
            st.assume(c)
            return True
        if not t and not f:
            raise Infeasible()
        st.decisions.append((t, True))
        st.pos += 1
        return t

    def valid(self, st, g):
        """Does g hold on the path? When the solver does not say, the state is marked: what fails
        in it later is not refuted, only undecided."""
        if isinstance(g, bool):
            return g
        return not self.maybe(st, z3.Not(g))

    def maybe(self, st, c):
        r = self.smt.sat(st.pc, c)
        if r == z3.unknown:
            st.taint = True
        return r != z3.unsat

    def where(self, st):
        for f in reversed(st.frames):
            if f.body is not None and f.bb < len(f.body['blocks']):
                sp = f.body['blocks'][f.bb]['t'].get('span') or ''
                if '/repo/' in sp or 'varlen' in f.body['name']:
                    return '%s' % f.body['name']
        return self.root.name

    def oblige(self, st, g, kind, msg=''):
        """An obligation: the path condition implies g. Afterwards g may be assumed."""
        if st.pos < len(st.decisions) and any(not fo for _, fo in st.decisions[st.pos:]):
            # re-execution of a step: everything up to the last decision was already proved
            st.assume(g) if not (isinstance(g, bool) and g) else None
            return
        if isinstance(g, bool) and g:
            self.obls.append(Obligation(kind, self.where(st), 'proved', msg))
            return
        res, how = self.smt.prove(st.pc, g)
        d = msg
        if res == 'cex' and st.taint:
            res, how = 'unknown', 'refuted, but the solver left a question on the path open'
        if res == 'cex':
            from smt import model_str
            d = {'msg': msg, 'goal': str(g)[:600], 'model': model_str(how), 'pc': [str(c)[:200] for c in st.pc[-12:]],
                 'stack': [f.body['name'] for f in st.frames if f.body], 'note': list(st.note)}
            how = 'cex'
        elif res == 'unknown':
            d = {'msg': msg, 'goal': str(g)[:600], 'reason': how, 'note': list(st.note)}
        o = Obligation(kind, self.where(st), res, d if res != 'proved' else msg)
        o.how = how
        self.obls.append(o)
        self.smt.how[how] = self.smt.how.get(how, 0) + 1
        st.assume(g)
        if res != 'proved' and not self.smt.feasible(st.pc, z3.BoolVal(True)):
            raise Infeasible()

    # ------------------------------------------------------------------ running
    def run(self, st):
        self.work = [st]
        self.done = []
        return self.drain()

    def drain(self, stop=None):
        out = []
        while self.work:
            st = self.work.pop()
            while True:
                if st.final is not None or (stop is not None and stop(st)):
                    out.append(st)
                    break
                nxt = self.step(st)
                if nxt is None:
                    break
                st = nxt
        return out

    def step(self, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported('step limit')
        if st.snap is None:
            snap = st.clone()
            st.snap = snap
            st.decisions = []
            snap.decisions = []
        st.pos = 0
        st.alts = []
        try:
            self.exec1(st)
        except Infeasible:
            self.work.extend(st.alts)
            return None
        except Fork as f:
            self.work.extend(st.alts)
            for x in f.states:
                x.snap = None
                x.decisions = []
            self.work.extend(f.states)
            return None
        self.work.extend(st.alts)
        st.snap = None
        st.decisions = []
        return st

    def branches(self, st, fn):
        """All outcomes of fn(st), which may decide conditions: [(state, result)]."""
        out = []
        first = st.clone()
        first.snap = first.clone()
        todo = [first]
        while todo:
            s = todo.pop()
            s.pos = 0
            s.alts = []
            try:
                r = fn(s)
            except Infeasible:
                todo.extend(s.alts)
                continue
            todo.extend(s.alts)
            s.snap = None
            s.decisions = []
            out.append((s, r))
        return out

    # ------------------------------------------------------------------ set-up helpers
    def new_cell(self, st, v=UNDEF):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def new_region(self, st, name, size, align, kind, init=None, base=None):
        self.nreg += 1
        rid = self.nreg
        nm = '%s%d' % (name, rid)
        if base is None:
            base = CTX.atom('base:' + nm, lo=1, hi=2 ** 63, facts=lambda p: [
                f for f in [poly.le(p + size, Poly.const(2 ** 63))] if not isinstance(f, bool)])
            CTX.aligned.setdefault('base:' + nm, []).append(P(align))
            CTX.addf(CTX.term['base:' + nm], [CTX.term['base:' + nm] >= P(align).z()])
        self.rinfo[rid] = Region(rid, nm, size, align, kind, base)
        st.regions[rid] = RState(True, (), init)
        return Ptr(rid, 0)

    def start(self, args, body=None):
        pass

    def push_call(self, st, body, args, dest=None, dty=None, to=None, unwind='continue'):
        cells = []
        locs = body['locals']
        argc = body['argc']
        if len(args) != argc:
            # rust-call: the last argument is a tuple
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == argc and body['spread'] is None:
                args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Unsupported('argument count of ' + body['name'])
        for i in range(len(locs)):
            v = args[i - 1] if 1 <= i <= argc else UNDEF
            cells.append(self.new_cell(st, v))
        fr = Frame(body, cells, dest, dty, to, unwind)
        st.frames.append(fr)
        if len(st.frames) > 120:
            raise Unsupported('recursion too deep')
        self.funcs[body['name']] = self.funcs.get(body['name'], 0) + 1
        return fr

    # ------------------------------------------------------------------ types
    def T(self, t):
        return self.ty[t]

    def size_of(self, t):
        x = self.ty[t]
        if 'size' in x:
            return Poly.const(x['size'])
        k = x['k']
        if k in ('param', 'alias'):
            return self.param_size(x)[0]
        if k == 'array' and isinstance(x['len'], int):
            return self.size_of(x['elem']) * x['len']
        if k == 'array':
            return self.size_of(x['elem']) * self.const_param(x['len'])
        inner = self.single_field(t)
        if inner is not None:
            return self.size_of(inner)
        if k == 'adt' and x['adt'] == 'union':
            fs = [f[1] for f in x['variants'][0]['fields']]
            nz = [f for f in fs if not self.is_zst(f)]
            if len(nz) == 1:
                return self.size_of(nz[0])
        self.struct_layout(t)
        return CTX.atom('size:' + x['str'], hi=ISIZE_MAX)

    def struct_layout(self, t):
        """What holds of the layout of every struct or tuple that is not packed, whatever its
        type parameters are: fields are aligned, lie inside, and do not overlap."""
        x = self.ty[t]
        if x['k'] not in ('tuple', 'closure') and not (x['k'] == 'adt' and x['adt'] == 'struct' and not x.get('packed')):
            return
        nm = x['str']
        if 'align:' + nm in CTX.term:
            return
        fs = self.fields(t)
        al, sz = [self.align_of(f) for f in fs], [self.size_of(f) for f in fs]
        A = CTX.atom('align:' + nm, pow2=29, facts=lambda A: [f for f in (cmp('>=', A, a) for a in al) if not isinstance(f, bool)])
        S = CTX.atom('size:' + nm, hi=ISIZE_MAX, aligned=A)
        seen = []
        for i, f in enumerate(fs):
            if self.is_zst(f):
                continue
            others = list(seen)

            def facts(o, i=i, others=others):
                r = [cmp('<=', o + sz[i], S)]
                for j, oj in others:
                    r.append(OR(cmp('<=', o + sz[i], oj), cmp('<=', oj + sz[j], o)))
                return [f for f in r if not isinstance(f, bool)]
            o = CTX.atom('offset:%s.%d' % (nm, i), hi=ISIZE_MAX, aligned=al[i], facts=facts)
            seen.append((i, o))

    def const_param(self, name):
        return CTX.atom('const:' + str(name), hi=U64 - 1)

    def param_size(self, x):
        al = CTX.atom('align:' + x['str'], pow2=29)
        sz = CTX.atom('size:' + x['str'], hi=ISIZE_MAX, aligned=al)
        return sz, al

    def align_of(self, t):
        x = self.ty[t]
        if 'align' in x:
            return Poly.const(x['align'])
        k = x['k']
        if k in ('param', 'alias'):
            return self.param_size(x)[1]
        if k in ('array', 'slice'):
            return self.align_of(x['elem'])
        if k == 'str':
            return Poly.const(1)
        inner = self.single_field(t)
        if inner is not None:
            return self.align_of(inner)
        if k == 'adt' and x['adt'] == 'union':
            nz = [f[1] for f in x['variants'][0]['fields'] if not self.is_zst(f[1])]
            if len(nz) == 1:
                return self.align_of(nz[0])
        self.struct_layout(t)
        return CTX.atom('align:' + x['str'], pow2=29)

    def is_zst(self, t):
        x = self.ty[t]
        if 'size' in x:
            return x['size'] == 0
        k = x['k']
        if k == 'tuple':
            return all(self.is_zst(f) for f in x['fields'])
        if k == 'adt' and x['adt'] == 'struct':
            return all(self.is_zst(f[1]) for f in x['variants'][0]['fields'])
        if k == 'array':
            return x['len'] == 0 or self.is_zst(x['elem'])
        return False

    def fields(self, t, v=0):
        x = self.ty[t]
        k = x['k']
        if k in ('tuple', 'closure'):
            return x['fields']
        if k == 'adt':
            return [f[1] for f in x['variants'][v]['fields']]
        return []

    def single_field(self, t):
        """The only non-zero-sized field of a struct, or None."""
        x = self.ty[t]
        if x['k'] == 'pat':
            return x['base']
        if x['k'] == 'tuple' or (x['k'] == 'adt' and x['adt'] == 'struct') or x['k'] == 'closure':
            nz = [f for f in self.fields(t) if not self.is_zst(f)]
            if len(nz) == 1:
                return nz[0]
        return None

    def single_index(self, t):
        fs = self.fields(t)
        nz = [i for i, f in enumerate(fs) if not self.is_zst(f)]
        return nz[0] if len(nz) == 1 else None

    def field_off(self, t, i):
        x = self.ty[t]
        if 'offs' in x and x['offs'] and i < len(x['offs']):
            return Poly.const(x['offs'][i])
        if self.single_index(t) == i or x.get('adt') == 'union':
            return Poly.const(0)
        fs = self.fields(t)
        if self.is_zst(fs[i]):
            return Poly.const(0)
        self.struct_layout(t)
        return CTX.atom('offset:%s.%d' % (x['str'], i), hi=ISIZE_MAX)

    def int_range(self, t):
        x = self.ty[t]
        k = x['k']
        if k == 'uint':
            return (0, 2 ** x['w'] - 1, x['w'])
        if k == 'int':
            return (-2 ** (x['w'] - 1), 2 ** (x['w'] - 1) - 1, x['w'])
        if k == 'char':
            return (0, 0x10ffff, 32)
        if k == 'bool':
            return (0, 1, 8)
        if k in ('ptr', 'ref', 'fnptr'):
            return (0, U64 - 1, 64)
        if k == 'pat':
            return self.int_range(x['base'])
        return None

    def zst_value(self, t):
        x = self.ty[t]
        k = x['k']
        if k == 'fndef':
            return FnVal(t)
        if k in ('tuple', 'closure'):
            return Agg([self.zst_value(f) for f in x['fields']])
        if k == 'adt' and x['adt'] == 'struct':
            return Agg([self.zst_value(f[1]) for f in x['variants'][0]['fields']])
        if k == 'adt' and x['adt'] == 'union':
            return UnionVal(UNDEF)
        if k == 'array':
            return Agg([])
        if k == 'adt' and x['adt'] == 'enum' and len(x['variants']) == 1:
            return Agg([self.zst_value(f[1]) for f in x['variants'][0]['fields']])
        return UNIT

    # ------------------------------------------------------------------ addresses
    def addr(self, v):
        if isinstance(v, Ptr):
            if v.rid is None:
                return v.off
            return self.rinfo[v.rid].base + v.off
        raise Unsupported('address of a local')

    def is_mult(self, st, p, a):
        """Is the integer p provably a multiple of a?"""
        p, a = P(p), P(a)
        if a.is_const() and a.cval() == 1:
            return True
        if exact_div(p, a) is not None:
            return True
        for k, c in p.m.items():
            if not self.mono_mult(st, k, c, a):
                # last resort: the rest may be exactly divisible
                return False
        return True

    def mono_mult(self, st, k, c, a):
        if a.is_const():
            av = a.cval()
            if c % av == 0:
                return True
        if self.divides(st, a, P(abs(c))):
            return True
        for t in k:
            if self.atom_mult(st, t, a):
                return True
        return False

    def divides(self, st, a, b):
        """a | b for powers of two a (const or atom) and b."""
        if a == b:
            return True
        if b.is_const():
            bv = b.cval()
            if bv == 0:
                return True
            low = bv & -bv
            if a.is_const():
                return bv % a.cval() == 0
            return self.is_pow2(a) and self.valid(st, cmp('<=', a, low))
        if self.is_pow2(a) and self.is_pow2(b):
            return self.valid(st, cmp('<=', a, b))
        return False

    def is_pow2(self, a):
        if a.is_const():
            v = a.cval()
            return v > 0 and v & (v - 1) == 0
        s = a.single_atom()
        return s is not None and s in CTX.pow2

    def atom_mult(self, st, t, a):
        if a.single_atom() == t:
            return True
        if t in CTX.pow2:
            return self.divides(st, a, Poly({(t,): 1}))
        for b in CTX.aligned.get(t, ()):
            if self.divides(st, a, b):
                return True
        return False

    def ptr_aligned(self, st, p, a):
        if a.is_const() and a.cval() == 1:
            return True
        if isinstance(p, Ref):
            return True
        if p.rid is None:
            return self.is_mult(st, p.off, a)
        r = self.rinfo[p.rid]
        return self.divides(st, a, r.align) and self.is_mult(st, p.off, a)

    def log2(self, a):
        """The exponent of a power of two, as an atom of its own."""
        if a.is_const():
            return P(a.cval().bit_length() - 1)
        s = a.single_atom()
        p = CTX.atom('log2:' + s, hi=CTX.pow2[s])
        CTX.defs[('log2', p.single_atom())] = a
        return p

    def log2_of(self, y):
        """2^y where y is the exponent of a known power of two, plus a constant."""
        for m, c in y.m.items():
            if c == 1 and len(m) == 1 and ('log2', m[0]) in CTX.defs:
                r = y - Poly({m: 1})
                if r.is_const() and r.cval() >= 0:
                    return CTX.defs[('log2', m[0])] * 2 ** r.cval()
        return None

    def pow2_of(self, p):
        """p if it is a power of two usable as an alignment"""
        return p if self.is_pow2(p) else None

    def pow2_mult(self, p):
        """p if it is a power of two times a power of two atom."""
        if len(p.m) == 1:
            (k, v), = p.m.items()
            if len(k) == 1 and k[0] in CTX.pow2 and v > 0 and v & (v - 1) == 0:
                return p
        return None

    # ------------------------------------------------------------------ places
    def place(self, st, pl):
        """-> (lvalue, type). lvalue: ('cell', cid, path) | ('mem', rid, off, meta)"""
        fr = st.frames[-1]
        cid = fr.cells[pl[0]]
        ty = fr.body['locals'][pl[0]]
        lv = ('cell', cid, ())
        variant = 0
        meta = None
        for e in pl[1:]:
            k = e[0]
            if k == 'deref':
                v = self.load(st, lv, ty)
                x = self.ty[ty]
                if x['k'] not in ('ref', 'ptr'):
                    raise Unsupported('deref of ' + x['str'])
                ty = x['to']
                lv, meta = self.deref(st, v, ty)
            elif k == 'field':
                if lv[0] == 'cell':
                    lv = ('cell', lv[1], lv[2] + (e[1],))
                else:
                    if self.ty[ty].get('adt') == 'enum':
                        raise Unsupported('enum field in raw memory')
                    lv = ('mem', lv[1], lv[2] + self.field_off(ty, e[1]))
                ty = e[2]
                variant = 0
            elif k == 'downcast':
                variant = e[1]
            elif k in ('index', 'cindex'):
                if k == 'index':
                    i = st.cells[fr.cells[e[1]]]
                else:
                    i = P(e[1])
                    if e[3]:
                        n = meta if meta is not None else self.ty[ty].get('len')
                        i = P(n) - e[1]
                x = self.ty[ty]
                ety = x['elem']
                lv = self.settle(st, lv, ty)
                if lv[0] == 'cell':
                    if not i.is_const():
                        i = self.concretize(st, i, 64)
                    lv = ('cell', lv[1], self.pjoin(lv[2], i.cval()))
                else:
                    lv = ('mem', lv[1], lv[2] + i * self.size_of(ety))
                ty = ety
                meta = None
            elif k == 'subslice' and self.ty[ty]['k'] == 'slice' and meta is not None and (lv[0] == 'mem' or e[1] == 0):
                if lv[0] == 'mem':
                    lv = ('mem', lv[1], lv[2] + self.size_of(self.ty[ty]['elem']) * e[1])
                meta = P(meta) - e[1] - e[2] if e[3] else P(e[2] - e[1])
            elif k == 'opaquecast':
                ty = e[1]
            else:
                raise Unsupported('projection %s' % (e,))
        return lv, ty, meta

    def concretize(self, st, p, limit):
        for i in range(limit):
            if self.decide(st, cmp('==', p, i)):
                return P(i)
        raise Unsupported('symbolic index into a local array')

    def deref(self, st, v, ty):
        if isinstance(v, Agg):
            v = self.scalar(v)
        if isinstance(v, Ref):
            return ('cell', v.cid, v.path), v.meta
        if isinstance(v, Ptr):
            return ('mem', v.rid, v.off), v.meta
        if v is UNDEF:
            raise Unsupported('use of an uninitialized pointer')
        raise Unsupported('deref of %r' % (v,))

    def sym_array(self, ty):
        x = self.ty[ty]
        return x['k'] == 'array' and not isinstance(x['len'], int)

    def settle(self, st, lv, ty):
        """The place of an array of symbolic length in a local: a region of its own."""
        if lv[0] != 'cell':
            return lv
        path = lv[2]
        if not self.has_snap:
            return lv
        v = self.load(st, lv, ty)
        while isinstance(v, UnionVal) or (isinstance(v, Agg) and len(v.f) == 1):
            path = path + (0,)
            v = v.x if isinstance(v, UnionVal) else v.f[0]
        if v is UNDEF and self.sym_array(ty):
            v = self.fresh_array(st, ty)
        if isinstance(v, Snap):
            v = self.in_place(st, v)
            st.cells[lv[1]] = self.inject(st.cells[lv[1]], path, v)
        if isinstance(v, InPlace):
            return ('mem', v.rid, P(0))
        return lv

    def in_place(self, st, v):
        src = self.rinfo[v.rid]
        if v.off.is_const() and v.off.cval() == 0:
            p = self.new_region(st, 'array', src.size, src.align, 'local')
            st.regions[p.rid] = RState(True, v.rs.ev, v.rs.init)
            return InPlace(p.rid)
        raise Unsupported('array inside an object')

    def settle_all(self, st):
        """Every array of symbolic length gets a place of its own (before a loop is summarized)."""
        hit = []

        def go(v):
            if isinstance(v, Snap):
                hit.append(v)
                return self.in_place(st, v)
            if isinstance(v, Agg):
                return Agg([go(x) for x in v.f], v.v)
            if isinstance(v, UnionVal):
                return UnionVal(go(v.x))
            return v
        for cid, v in list(st.cells.items()):
            del hit[:]
            w = go(v)
            if hit:
                st.cells[cid] = w

    def fresh_array(self, st, ty):
        self.has_snap = True
        p = self.new_region(st, 'array', self.size_of(ty), self.align_of(ty), 'local')
        return Snap(st.regions[p.rid], p.rid, 0)

    def freeze(self, st, v):
        """v as a value: what borrowed arrays in it hold now."""
        if isinstance(v, InPlace):
            return Snap(st.regions[v.rid], v.rid, 0)
        if isinstance(v, Agg):
            return Agg([self.freeze(st, x) for x in v.f], v.v)
        if isinstance(v, UnionVal):
            return UnionVal(self.freeze(st, v.x))
        return v

    def load(self, st, lv, ty, move=False):
        if lv[0] == 'cell':
            v = st.cells[lv[1]]
            for i in lv[2]:
                v = self.proj(v, i)
            return v
        return self.mem_load(st, lv[1], lv[2], ty)

    def proj(self, v, i):
        if isinstance(v, Agg):
            if i >= len(v.f):
                raise Unsupported('projection outside a value')
            return v.f[i]
        if isinstance(v, UnionVal):
            if i == 0 and v.x is UNDEF:
                return UNIT
            return v.x if i == 1 else v.x
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Opaque):
            return Opaque('%s.%d' % (v.name, i), v.idx)
        raise Unsupported('projection .%s of %r' % (i, v))

    def inject(self, v, path, x, t=None):
        if not path:
            return x
        i = path[0]
        if isinstance(v, UnionVal):
            return UnionVal(self.inject(v.x, path[1:], x))
        if v is UNDEF:
            v = Agg([])
        if not isinstance(v, Agg):
            raise Unsupported('write into %r' % (v,))
        fs = list(v.f)
        while len(fs) <= i:
            fs.append(UNDEF)
        fs[i] = self.inject(fs[i], path[1:], x)
        return Agg(fs, v.v)

    def store(self, st, lv, ty, v):
        if lv[0] == 'cell':
            if self.has_snap and self.sym_array(ty):
                at = self.load(st, lv, ty)
                if isinstance(at, InPlace):
                    if not isinstance(v, Snap):
                        raise Unsupported('store of %r over an array' % (v,))
                    src = self.rinfo[v.rid]
                    st.regions[at.rid] = st.regions[at.rid].with_ev(('copy', P(0), src.size, v.rs, v.rid, v.off))
                    return
            if lv[2] and st.cells[lv[1]] is UNDEF and self.is_union_path(st, lv):
                pass
            st.cells[lv[1]] = self.inject(st.cells[lv[1]], lv[2], v)
        else:
            self.mem_store(st, lv[1], lv[2], ty, v)

    def is_union_path(self, st, lv):
        return False

    # ------------------------------------------------------------------ memory
    def access(self, st, rid, off, size, align, what):
        """Obligations of one access: live region, in bounds, aligned."""
        if rid is None:
            # only zero-sized accesses through a dangling pointer
            self.oblige(st, cmp('==', size, 0), 'memory:' + what, 'access through a dangling pointer')
            if align is not None:
                self.oblige_aligned(st, Ptr(None, off), align, what)
            return False
        r = self.rinfo[rid]
        rs = st.regions[rid]
        size = P(size)
        if not (size.is_const() and size.cval() == 0):
            if not rs.live:
                self.oblige(st, cmp('==', size, 0), 'use-after-free', '%s of freed %s' % (what, r.name))
            self.oblige(st, OR(cmp('==', size, 0), AND(cmp('>=', off, 0), cmp('<=', off + size, r.size))),
                        'memory:' + what, '%s inside %s' % (what, r.name))
        if align is not None:
            self.oblige_aligned(st, Ptr(rid, off), align, what)
        return True

    def oblige_aligned(self, st, p, a, what):
        if self.ptr_aligned(st, p, a):
            self.obls.append(Obligation('alignment', self.where(st), 'proved', what))
            return
        # try the solver: addr = a * q
        x = self.addr(p)
        q = quotient(x, a)
        g = cmp('==', q * a, x)
        self.oblige(st, g, 'alignment', '%s at an aligned address (%r by %r)' % (what, x, a))

    def mem_load(self, st, rid, off, ty):
        if self.is_zst(ty):
            self.oblige_aligned(st, Ptr(rid, off), self.align_of(ty), 'read')
            return self.zst_value(ty)
        x = self.ty[ty]
        self.access(st, rid, off, self.size_of(ty), self.align_of(ty), 'read')
        try:
            return self.mem_get(st, st.regions[rid], rid, off, ty)
        except Uninit as e:
            self.oblige(st, False, 'uninit-read', str(e))
            raise Infeasible()

    def mem_get(self, st, rs, rid, off, ty):
        """The value of type ty at off in the region state rs (no access obligations)."""
        x = self.ty[ty]
        k = x['k']
        if self.is_zst(ty):
            return self.zst_value(ty)
        if k in ('tuple', 'closure') or (k == 'adt' and x['adt'] == 'struct'):
            fs = self.fields(ty)
            return Agg([self.mem_get(st, rs, rid, off + self.field_off(ty, i), f) for i, f in enumerate(fs)])
        if k == 'adt' and x['adt'] == 'union':
            nz = [f[1] for f in x['variants'][0]['fields'] if not self.is_zst(f[1])]
            try:
                return UnionVal(self.mem_get(st, rs, rid, off, nz[0]))
            except Uninit:
                return UnionVal(UNDEF)
        if k == 'array':
            if not isinstance(x['len'], int):
                self.has_snap = True
                return Snap(rs, rid, off)
            es = self.size_of(x['elem'])
            return Agg([self.mem_get(st, rs, rid, off + es * i, x['elem']) for i in range(x['len'])])
        return self.leaf_get(st, rs, rid, off, self.size_of(ty), ty)

    def overlap(self, st, off, size, eoff, esize):
        """'same' | 'inside' | 'disjoint' ; decides when open."""
        off, size, eoff, esize = P(off), P(size), P(eoff), P(esize)
        d = off - eoff
        if d.is_const() and d.cval() == 0 and size == esize:
            return 'same'
        dis = OR(cmp('<=', off + size, eoff), cmp('<=', eoff + esize, off))
        if isinstance(dis, bool):
            if dis:
                return 'disjoint'
        elif self.decide(st, dis):
            return 'disjoint'
        if size == esize and self.decide(st, cmp('==', off, eoff)):
            return 'same'
        if self.decide(st, AND(cmp('<=', eoff, off), cmp('<=', off + size, eoff + esize))):
            return 'inside'
        raise Unsupported('partially overlapping access')

    def leaf_get(self, st, rs, rid, off, size, ty):
        for ev in reversed(rs.ev):
            k = ev[0]
            if k == 'kill':
                continue
            if k == 'fam':
                r = self.fam_get(st, ev, off, size, ty)
                if r is not None:
                    return r[0]
                continue
            how = self.overlap(st, off, size, ev[1], ev[2])
            if how == 'disjoint':
                continue
            if k == 'store':
                if how == 'same':
                    return self.retype(st, ev[4], ev[3], ty)
                raise Unsupported('partial read of a stored value')
            if k == 'fill':
                return self.fill_value(ev[3], size, ty)
            if k == 'copy':
                return self.leaf_get(st, ev[3], ev[4], off - ev[1] + ev[5], size, ty)
            if k == 'obj':
                return self.obj_bytes(st, ev[3], off - ev[1], size, ty)
            if k == 'havoc':
                self.uninit(st, 'read of memory that holds no value')
            raise Unsupported('event ' + k)
        if rs.init is None:
            self.uninit(st, 'read of uninitialized memory')
        return rs.init.load(self, st, rid, off, size, ty)

    def uninit(self, st, msg):
        raise Uninit(msg)

    def obj_bytes(self, st, obj, rel, size, ty):
        raise Unsupported('read of the bytes of an opaque object')

    def fill_value(self, b, size, ty):
        x = self.ty[ty]
        if isinstance(b, Poly) and b.is_const():
            v = b.cval()
            if x['k'] == 'uint':
                n = x['w'] // 8
                return Poly.const(int.from_bytes(bytes([v]) * n, 'little'))
            if x['k'] == 'bool' and v in (0, 1):
                return bool(v)
        raise Unsupported('typed read of filled memory')

    def retype(self, st, v, t1, t2):
        if t1 == t2 or self.ty[t1]['str'] == self.ty[t2]['str']:
            return v
        v = self.scalar(v)
        return self.wrap(v, t2)

    def fam_get(self, st, ev, off, size, ty):
        """Read over a family ('fam', kname, count, template)."""
        _, kn, cnt, tm = ev
        if tm[0] == 'fam':
            raise Unsupported('nested families')
        if tm[0] == 'kill':
            return None
        eoff, esize = tm[1], tm[2]
        # solve eoff(k) == off for k
        kz = {kn: Poly.const(0)}
        b0 = psub(eoff, kz)
        step = psub(eoff, {kn: Poly.const(1)}) - b0
        lin = b0 + step * Poly({(kn,): 1})
        if lin == eoff:
            # disjoint from the whole range? (the step is the size of an element, so not negative)
            hi = psub(eoff, {kn: cnt - 1}) + esize
            if self.valid(st, OR(cmp('<=', cnt, 0), AND(cmp('>=', step, 0), OR(cmp('<=', P(off) + size, b0), cmp('<=', hi, off))))):
                return None
        if lin == eoff and P(esize) == P(size):
            q = self.solve_div(st, P(off) - b0, step)
            if q is not None:
                if self.decide(st, AND(cmp('>=', q, 0), cmp('<', q, cnt))):
                    t2 = tuple(vsub(x, {kn: q}) for x in tm)
                    if tm[0] == 'store':
                        return (self.retype(st, t2[4], t2[3], ty),)
                    if tm[0] == 'fill':
                        return (self.fill_value(t2[3], size, ty),)
                    if tm[0] == 'copy':
                        return (self.leaf_get(st, t2[3], t2[4], P(off) - t2[1] + t2[5], size, ty),)
                    raise Unsupported('family of ' + tm[0])
                return None
        raise Unsupported('read over a loop family')

    def solve_div(self, st, d, step):
        """q with step * q = d (provably), or None."""
        q = exact_div(d, step)
        if q is not None:
            return q
        m, r = {}, {}
        for k, c in d.m.items():
            e = exact_div(Poly({k: c}), step)
            if e is not None:
                for kk, cc in e.m.items():
                    m[kk] = m.get(kk, 0) + cc
            else:
                r[k] = c
        m, r = Poly(m), Poly(r)
        if self.valid(st, cmp('==', r, 0)):
            return m
        return None

    def mem_store(self, st, rid, off, ty, v):
        if self.is_zst(ty):
            self.oblige_aligned(st, Ptr(rid, off), self.align_of(ty), 'write')
            return
        self.access(st, rid, off, self.size_of(ty), self.align_of(ty), 'write')
        evs = []
        self.flatten(ty, P(off), v, evs)
        st.regions[rid] = st.regions[rid].with_ev(*evs)

    def flatten(self, ty, off, v, out):
        if self.is_zst(ty):
            return
        if v is LOST:
            raise Unsupported('a value the loop summary lost')
        x = self.ty[ty]
        k = x['k']
        if k in ('tuple', 'closure') or (k == 'adt' and x['adt'] == 'struct'):
            fs = self.fields(ty)
            if v is UNDEF:
                out.append(('havoc', off, self.size_of(ty), 'undef'))
                return
            if isinstance(v, Opaque):
                out.append(('store', off, self.size_of(ty), ty, v))
                return
            if len(v.f) < len(fs):
                v = Agg(list(v.f) + [UNDEF] * (len(fs) - len(v.f)))
            for i, f in enumerate(fs):
                self.flatten(f, off + self.field_off(ty, i), v.f[i], out)
            return
        if k == 'adt' and x['adt'] == 'union':
            if isinstance(v, UnionVal):
                v = v.x
            nz = [f[1] for f in x['variants'][0]['fields'] if not self.is_zst(f[1])]
            if v is UNDEF:
                out.append(('havoc', off, self.size_of(ty), 'undef'))
                return
            self.flatten(nz[0], off, v, out)
            return
        if k == 'array' and isinstance(v, Agg):
            es = self.size_of(x['elem'])
            if not isinstance(x['len'], int):
                raise Unsupported('array')
            for i, e in enumerate(v.f):
                self.flatten(x['elem'], off + es * i, e, out)
            return
        if v is UNDEF:
            out.append(('havoc', off, self.size_of(ty), 'undef'))
            return
        if isinstance(v, Snap):
            out.append(('copy', off, self.size_of(ty), v.rs, v.rid, v.off))
            return
        out.append(('store', off, self.size_of(ty), ty, v))

    # ------------------------------------------------------------------ scalars
    def scalar(self, v):
        """Strip single-field wrappers."""
        while True:
            if isinstance(v, UnionVal):
                v = v.x
            elif isinstance(v, Agg):
                nz = [f for f in v.f if not self.zst_val(f)]
                if len(nz) == 1:
                    v = nz[0]
                elif len(nz) == 0 and v.v == 0:
                    return v
                else:
                    return v
            else:
                return v

    def zst_val(self, v):
        return isinstance(v, FnVal) or (isinstance(v, Agg) and v.v == 0 and all(self.zst_val(f) for f in v.f))

    def wrap(self, v, t):
        """Build a value of type t around the scalar v."""
        x = self.ty[t]
        k = x['k']
        if self.is_zst(t):
            return self.zst_value(t)
        if k == 'adt' and x['adt'] == 'struct' or k in ('tuple', 'closure'):
            fs = self.fields(t)
            i = self.single_index(t)
            if i is None:
                if isinstance(v, Agg) and len(v.f) == len(fs):
                    return v
                raise Unsupported('transmute to ' + x['str'])
            return Agg([self.wrap(v, f) if j == i else self.zst_value(f) for j, f in enumerate(fs)])
        if k == 'adt' and x['adt'] == 'union':
            nz = [f[1] for f in x['variants'][0]['fields'] if not self.is_zst(f[1])]
            return UnionVal(self.wrap(v, nz[0]))
        if k == 'array':
            if isinstance(v, (Agg, Snap)):
                return v
            return Agg([self.wrap(v, x['elem'])])
        if k == 'pat':
            return v
        if k in ('ptr', 'ref') and isinstance(v, Poly):
            return Ptr(None, v)
        if k in ('uint', 'int') and isinstance(v, (Ptr,)):
            return self.addr(v)
        if k == 'uint' and isinstance(v, bool):
            return P(int(v))
        if k == 'adt' and x['adt'] == 'enum':
            if isinstance(v, Poly):
                # a field-less enum stays its discriminant
                return v
            if isinstance(v, Agg):
                return v
        return v

    def nonzero(self, t):
        x = self.ty[t]
        return x['k'] == 'ref' or (x['k'] == 'adt' and x['path'] in ('core::num::nonzero::NonZero', 'core::ptr::non_null::NonNull'))

    def transmute(self, st, v, t1, t2):
        if t1 == t2 or v is UNDEF:
            return v
        x1, x2 = self.ty[t1], self.ty[t2]
        if x1['k'] == 'array' and x2['k'] == 'array' and isinstance(v, Agg):
            return Agg([self.transmute(st, e, x1['elem'], x2['elem']) for e in v.f])
        if x1['k'] in ('ref', 'ptr') and x2['k'] in ('ref', 'ptr'):
            return v
        if x2['k'] == 'adt' and x2['adt'] == 'enum' and len(x2['variants']) == 2 and x1['k'] != 'adt':
            vs = x2['variants']
            full = [i for i, w in enumerate(vs) if w['fields']]
            if len(full) == 1 and len(vs[full[0]]['fields']) == 1 and self.nonzero(vs[full[0]]['fields'][0][1]):
                # the variant without a value is represented by zero
                z = self.scalar(v)
                if self.decide(st, cmp('==', self.addr(z) if isinstance(z, Ptr) else z, 0)):
                    return Agg([], 1 - full[0])
                return Agg([self.wrap(z, vs[full[0]]['fields'][0][1])], full[0])
        return self.wrap(self.scalar(v), t2)

    # ------------------------------------------------------------------ operands
    def operand(self, st, o):
        k = o['op']
        if k in ('copy', 'move'):
            lv, ty, meta = self.place(st, o['p'])
            v = self.load(st, lv, ty)
            return self.freeze(st, v) if self.has_snap else v
        if k == 'const':
            return self.constant(st, o)
        if k == 'rtcheck':
            return True
        raise Unsupported('operand ' + k)

    def op_ty(self, st, o):
        if o['op'] in ('copy', 'move'):
            return self.place_ty(st, o['p'])
        if o['op'] == 'const':
            return o['ty']
        return None

    def place_ty(self, st, pl):
        fr = st.frames[-1]
        ty = fr.body['locals'][pl[0]]
        for e in pl[1:]:
            if e[0] == 'deref':
                ty = self.ty[ty]['to']
            elif e[0] == 'field':
                ty = e[2]
            elif e[0] in ('index', 'cindex'):
                ty = self.ty[ty]['elem']
            elif e[0] == 'opaquecast':
                ty = e[1]
        return ty

    def constant(self, st, o):
        x = self.ty[o['ty']]
        if 'zst' in o:
            return self.zst_value(o['ty'])
        if 'val' in o:
            v = o['val']
            if x['k'] == 'bool':
                return bool(v)
            if x['k'] == 'int' and v >= 2 ** (x['w'] - 1):
                v -= 2 ** x['w']
            if x['k'] in ('ptr', 'ref'):
                return Ptr(None, v)
            if x['k'] == 'adt' and x['adt'] == 'enum':
                for i, vv in enumerate(x['variants']):
                    if vv['discr'] == v:
                        return Agg([], i)
            if x['k'] in ('adt', 'tuple', 'pat'):
                return self.wrap(P(v), o['ty'])
            return P(v)
        if 'agg' in o:
            return Agg([self.constant(st, f) for f in o['agg']], o['variant'])
        if 'slice' in o:
            return Ptr(None, 1, P(o['slice']))
        if 'param' in o:
            return self.const_param(o['param'])
        if 'assoc' in o:
            return self.assoc_const(st, o)
        if 'cbody' in o:
            return self.const_body(st, o)
        if o.get('opaque') == 'core::mem::needs_drop::{{constant}}':
            import natives
            return natives.needs_drop(self, o['cargs'][0])
        return Opaque('const:' + str(o.get('opaque', '?'))[:60])

    def assoc_const(self, st, o):
        key = (o['assoc'], tuple(self.ty[a]['str'] if isinstance(a, int) else str(a) for a in o['cargs']))
        f = self.assoc.get(key[0])
        if f is None:
            raise Unsupported('associated constant %s' % (key,))
        return f(self, st, o['cargs'], key[1])

    def const_body(self, st, o):
        """Evaluate a constant's body here and now. Must not branch on anything undecided."""
        body = self.root.bodies[o['cbody']]
        key = ('constval', o['cbody'], tuple())
        if key in st.ghost:
            return st.ghost[key]
        # run it on a copy of the state; several outcomes are decided on the current state
        sub = State()
        sub.pc = list(st.pc)
        sub.cells = dict(st.cells)
        sub.regions = dict(st.regions)
        sub.ghost = dict(st.ghost)
        w = self.work
        self.work = []
        self.push_call(sub, body, [])
        self.work = [sub]
        outs = self.drain()
        self.work = w
        n = len(st.pc)
        for i, s in enumerate(outs):
            if s.final != 'return':
                self.oblige(st, False, 'const-eval', 'constant %s panics' % o.get('cpath'))
                raise Infeasible()
            c = AND(*[x for x in s.pc[n:]])
            if i == len(outs) - 1:
                st.assume(c)
                ok = True
            else:
                ok = self.decide(st, c)
            if ok:
                for cid, v in s.cells.items():
                    if cid not in st.cells:
                        st.cells[cid] = v
                st.ghost[key] = s.ret
                return s.ret
        raise Infeasible()

    # ------------------------------------------------------------------ arithmetic
    def wrap_int(self, st, v, t):
        lo, hi, w = self.int_range(t)
        if v.is_const():
            c = v.cval()
            if lo <= c <= hi:
                return v, False
            return P((c - lo) % 2 ** w + lo), True
        if self.decide(st, AND(cmp('<=', v, hi), cmp('>=', v, lo))):
            return v, False
        # one wrap up or down covers sums and differences
        if self.decide(st, cmp('>', v, hi)):
            if self.decide(st, cmp('<=', v - 2 ** w, hi)):
                return v - 2 ** w, True
            # a product: modulo
            if lo == 0:
                q = quotient(v, 2 ** w)
                return v - q * (2 ** w), True
        else:
            if self.decide(st, cmp('>=', v + 2 ** w, lo)):
                return v + 2 ** w, True
        if self.trial:
            return v, False     # looking for an invariant only: nothing is judged
        raise Unsupported('wrapping of %r' % v)

    def as_int(self, st, v):
        v0 = v
        if isinstance(v, (Agg, UnionVal)):
            v = self.scalar(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return P(int(v))
        if isinstance(v, Ptr):
            return self.addr(v)
        if isinstance(v, z3.BoolRef):
            return P(1 if self.decide(st, v) else 0)
        if isinstance(v, Bits):
            if all(isinstance(b, bool) for b in v.b):
                return P(sum(1 << i for i, b in enumerate(v.b) if b))
            n = CTX.atom(CTX.fresh('byte'), hi=255)
            return n
        if v is UNDEF or v is LOST:
            raise Unsupported('arithmetic on an uninitialized value')
        raise Unsupported('integer from %r' % (v0,))

    def to_bits(self, v, w=8):
        if isinstance(v, Bits):
            return v
        if isinstance(v, Poly) and v.is_const():
            return Bits([bool(v.cval() >> i & 1) for i in range(w)])
        raise Unsupported('bits of %r' % (v,))

    def binop(self, st, o, a, b, ta, tb):
        if o == 'Offset':
            el = self.ty[ta]['to']
            ra = self.scalar(a) if isinstance(a, Agg) else a
            if isinstance(ra, Ref):
                return self.ref_add(st, ra, self.as_int(st, b))
            return self.ptr_add(st, a, self.as_int(st, b) * self.size_of(el))
        if isinstance(a, Agg) and not isinstance(b, Poly):
            a = self.scalar(a)
        if isinstance(b, Agg) and not isinstance(a, Poly):
            b = self.scalar(b)
        if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, o, a, b)
        if o in ('BitAnd', 'BitOr', 'BitXor') and (isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef))):
            return {'BitAnd': AND, 'BitOr': OR, 'BitXor': lambda x, y: NOT(IFF(x, y))}[o](a, b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            if o in ('BitAnd', 'BitOr', 'BitXor'):
                x, y = self.to_bits(a), self.to_bits(b)
                f = {'BitAnd': AND, 'BitOr': OR, 'BitXor': lambda p, q: NOT(IFF(p, q))}[o]
                return Bits([f(p, q) for p, q in zip(x.b, y.b)])
            if o == 'Shr' and isinstance(b, Poly):
                k = b if b.is_const() else None
                if k is not None:
                    k = k.cval() % 8
                    return Bits(list(a.b[k:]) + [False] * k)
                if not self.valid(st, cmp('<', b, 8)):
                    raise Unsupported('shift')
                return Bits([OR(*[AND(cmp('==', b, s), a.b[i + s]) for s in range(8 - i)]) for i in range(8)])
        if o == 'Cmp':
            x, y = self.as_int(st, a), self.as_int(st, b)
            if self.decide(st, cmp('<', x, y)):
                return Agg([], 0)
            return Agg([], 1 if self.decide(st, cmp('==', x, y)) else 2)
        x, y = self.as_int(st, a), self.as_int(st, b)
        base = o.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            v = x + y if base == 'Add' else x - y if base == 'Sub' else x * y
            if o.endswith('Unchecked'):
                lo, hi, w = self.int_range(ta)
                self.oblige(st, AND(cmp('<=', v, hi), cmp('>=', v, lo)), 'arithmetic', 'unchecked %s does not overflow' % base)
                return v
            v, fl = self.wrap_int(st, v, ta)
            return Agg([v, fl]) if o.endswith('WithOverflow') else v
        if base in ('Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shr') and self.ty[ta]['k'] == 'int':
            # (the rules below are those for naturals)
            if not self.valid(st, AND(cmp('>=', x, 0), cmp('>=', y, 0))):
                raise Unsupported('operator %s on signed numbers' % o)
        if base in ('Div', 'Rem'):
            if y.is_const() and y.cval() > 0 or self.decide(st, cmp('>', y, 0)):
                if base == 'Rem' and not x.is_const() and self.pow2_of(y) is not None and self.is_mult(st, x, y):
                    return P(0)
                q = self.quot(st, x, y)
                return q if base == 'Div' else x - y * q
            raise Infeasible()
        if base == 'BitAnd':
            for p, q in ((x, y), (y, x)):
                r = self.mask(st, p, q, ta)
                if r is not None:
                    return r
            r = self.bit_and(st, x, y)
            if r is not None:
                return r
            raise Unsupported('bit-and of %r and %r' % (x, y))
        if base in ('Shl', 'Shr'):
            lo, hi, w = self.int_range(ta)
            if y.is_const():
                k = y.cval()
                if o.endswith('WithOverflow'):
                    raise Unsupported(o)
                k %= w
                if base == 'Shr':
                    return self.quot(st, x, P(2 ** k))
                return self.trunc(st, x * 2 ** k, w)
            if not self.valid(st, cmp('<', y, w)):
                raise Unsupported('shift')
            if base == 'Shr' and x.is_const() and x.cval() == 2 ** w - 1:
                b2 = self.log2_of(P(w) - y)
                if b2 is not None:      # all ones, shifted right by k - log2 a
                    return b2 - 1
            b2 = self.log2_of(y)
            if b2 is not None and not o.endswith('WithOverflow'):
                return self.quot(st, x, b2) if base == 'Shr' else self.wrap_int(st, x * b2, ta)[0]
            if base == 'Shl' and x.is_const() and w == 8:
                return Bits([OR(*[AND(cmp('==', y, s), bool(x.cval() >> (i - s) & 1)) for s in range(i + 1)]) for i in range(8)])
            raise Unsupported('shift')
        if base in ('BitOr', 'BitXor'):
            if x.is_const() and y.is_const():
                return P(x.cval() | y.cval() if base == 'BitOr' else x.cval() ^ y.cval())
            if x.is_const() and x.cval() == 0:
                return y
            if y.is_const() and y.cval() == 0:
                return x
            c = None
            for p, q in ((x, y), (y, x)):
                c = self.mask(st, p, q, ta) if c is None else c
            c = self.bit_and(st, x, y) if c is None else c
            if c is not None:
                return x + y - c if base == 'BitOr' else x + y - 2 * c
        raise Unsupported('operator ' + o)

    def bit_and(self, st, x, y):
        """x & y where one side is a constant with few runs of set bits, or a
        power of two."""
        for p, q in ((x, y), (y, x)):
            if q.is_const():
                c, runs, i = q.cval(), [], 0
                while c >> i:
                    if c >> i & 1:
                        j = i
                        while c >> j & 1:
                            j += 1
                        runs.append((i, j))
                        i = j
                    else:
                        i += 1
                if len(runs) <= 4:
                    r = P(0)
                    for i, j in runs:
                        a = self.quot(st, p, P(2 ** i))
                        r = r + (a - self.quot(st, a, P(2 ** (j - i))) * 2 ** (j - i)) * 2 ** i
                    return r
            a = self.pow2_of(q)
            if a is not None:
                h = self.quot(st, p, q)
                return (h - self.quot(st, h, P(2)) * 2) * q
        return None

    def trunc(self, st, v, w):
        if v.is_const():
            return P(v.cval() % 2 ** w)
        if self.decide(st, cmp('<', v, 2 ** w)):
            return v
        return v - quotient(v, 2 ** w) * 2 ** w

    def quot(self, st, x, y):
        if self.rewrite_fn is not None:
            r = self.rewrite_fn(self, st, P(x), P(y))
            if r is not None:
                return r
        q = quotient(x, y)
        # peel exact multiples: (y*m + r)/y = m + r/y for r >= 0
        if exact_div(x, y) is None and not x.is_const():
            m, r = {}, {}
            for k, c in x.m.items():
                e = exact_div(Poly({k: c}), y)
                if e is not None:
                    for kk, cc in e.m.items():
                        m[kk] = m.get(kk, 0) + cc
                else:
                    r[k] = c
            m, r = Poly(m), Poly(r)
            if m.m and self.valid(st, cmp('>=', r, 0)):
                if self.valid(st, cmp('<', r, y)):
                    return m
                return m + quotient(r, y)
        elif q.single_atom() in CTX.quot and self.valid(st, cmp('<', x, y)):
            return P(0)
        return q

    def mask(self, st, x, m, ty):
        """x & m where m is 2^w - a, a - 1 (a a power of two) or a constant; w is the width of the type."""
        w = self.int_range(ty)[2]
        a = self.pow2_of(2 ** w - m)
        if a is not None and (w == 64 or m.is_const()):
            if x.is_const() and a.is_const():
                return P(x.cval() & m.cval())
            return self.quot(st, x, a) * a
        a = self.pow2_of(m + 1) or self.pow2_mult(m + 1)
        if a is not None:
            if x.is_const() and a.is_const():
                return P(x.cval() & m.cval())
            if not x.is_const() and self.is_mult(st, x, a):
                return P(0)
            return x - self.quot(st, x, a) * a
        if m.is_const() and x.is_const():
            return P(x.cval() & m.cval())
        if m.is_const() and m.cval() == 0:
            return P(0)
        # x & (x-1) == 0 tests
        if x - m == P(1) and self.is_pow2(x):
            return P(0)
        return None

    def compare(self, st, o, a, b):
        op = {'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}[o]
        if isinstance(a, UnionVal):
            a = a.x
        if isinstance(b, UnionVal):
            b = b.x
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if o == 'Eq':
                return IFF(a, b)
            if o == 'Ne':
                return NOT(IFF(a, b))
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, y = self.to_bits(a), self.to_bits(b)
            e = AND(*[IFF(p, q) for p, q in zip(x.b, y.b)])
            if o == 'Eq':
                return e
            if o == 'Ne':
                return NOT(e)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref) and o in ('Eq', 'Ne'):
                if a.cid == b.cid and a.path == b.path:
                    return o == 'Eq'
                if a.cid != b.cid:
                    return o == 'Ne'
            other = b if isinstance(a, Ref) else a
            if isinstance(other, (Ptr, Poly)):
                z = other if isinstance(other, Poly) else (other.off if other.rid is None else None)
                if z is not None and z.is_const() and z.cval() == 0 and o in ('Eq', 'Ne'):
                    return o == 'Ne'
            raise Unsupported('comparison of local addresses')
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            c = cmp(op, a.off, b.off)
            if a.meta is not None and b.meta is not None and o in ('Eq', 'Ne'):
                e = AND(cmp('==', a.off, b.off), cmp('==', a.meta, b.meta))
                return e if o == 'Eq' else NOT(e)
            return c
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if o in ('Eq', 'Ne') and a == b:
                return o == 'Eq'
            raise Unsupported('comparison of opaque values')
        return cmp(op, self.as_int(st, a), self.as_int(st, b))

    def ptr_add(self, st, p, d):
        if isinstance(p, Agg):
            p = self.scalar(p)
        if isinstance(p, Ptr):
            return Ptr(p.rid, p.off + d, p.meta)
        if isinstance(p, Ref):
            if P(d).is_const() and P(d).cval() == 0:
                return p
            raise Unsupported('pointer arithmetic on a local')
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def ref_add(self, st, p, n):
        """n elements further in a local array."""
        if n.is_const() and n.cval() == 0:
            return p
        if n.is_const() and p.path and isinstance(p.path[-1], int):
            return Ref(p.cid, p.path[:-1] + (p.path[-1] + n.cval(),), p.meta)
        raise Unsupported('pointer arithmetic on a local')

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, r, dty):
        k = r['r']
        if k == 'use':
            return self.operand(st, r['a'])
        if k in ('ref', 'rawptr', 'reborrow'):
            lv, ty, meta = self.place(st, r['p'])
            lv = self.settle(st, lv, ty) if self.ty[ty]['k'] in ('array', 'slice') else lv
            if lv[0] == 'cell':
                return Ref(lv[1], lv[2], meta)
            if k in ('ref',) and self.ty[ty]['k'] not in ('slice', 'str', 'dyn'):
                # a reference must be aligned; what it points to is checked where it is used
                self.oblige_aligned(st, Ptr(lv[1], lv[2]), self.align_of(ty), 'reference')
            return Ptr(lv[1], lv[2], meta)
        if k == 'cast':
            return self.cast(st, r, self.operand(st, r['a']), self.op_ty(st, r['a']))
        if k == 'bin':
            a, b = self.operand(st, r['a']), self.operand(st, r['b'])
            return self.binop(st, r['o'], a, b, self.op_ty(st, r['a']), self.op_ty(st, r['b']))
        if k == 'un':
            a = self.operand(st, r['a'])
            t = self.op_ty(st, r['a'])
            o = r['o']
            if o == 'Not':
                if isinstance(a, (bool, z3.BoolRef)):
                    return NOT(a)
                if isinstance(a, Bits):
                    return Bits([NOT(b) for b in a.b])
                lo, hi, w = self.int_range(t)
                x = self.as_int(st, a)
                return (hi - x) if lo == 0 else (-1 - x)
            if o == 'Neg':
                return -self.as_int(st, a)
            if o == 'PtrMetadata':
                if isinstance(a, (Ref, Ptr)):
                    if a.meta is None:
                        return UNIT
                    return a.meta
            raise Unsupported('unary ' + o)
        if k == 'agg':
            ops = [self.operand(st, x) for x in r['ops']]
            if r['ak'] == 'unsupported':
                raise Unsupported('aggregate')
            if r['ak'] == 'rawptr':
                p, m = ops
                if isinstance(m, Agg):
                    m = None
                if isinstance(p, Agg):
                    p = self.scalar(p)
                if isinstance(p, Ptr):
                    return Ptr(p.rid, p.off, m)
                return self.local_slice(st, p, m) if isinstance(m, Poly) else Ref(p.cid, p.path, m)
            if 'ufield' in r:
                x = self.ty[dty]
                f = x['variants'][0]['fields'][r['ufield']][1]
                return UnionVal(UNDEF if self.is_zst(f) and not self.is_zst(dty) else ops[0])
            return Agg(ops, r.get('variant') or 0)
        if k == 'repeat':
            a = self.operand(st, r['a'])
            if isinstance(r['n'], int):
                if r['n'] > 4096:
                    raise Unsupported('large array')
                return Agg([a] * r['n'])
            v = self.fresh_array(st, dty)
            if isinstance(a, UnionVal) and a.x is UNDEF:
                return v
            ety = self.ty[dty]['elem']
            es, kn = self.size_of(ety), CTX.atom(CTX.fresh('k'))
            evs = []
            self.flatten(ety, es * kn, a, evs)
            return Snap(v.rs.with_ev(*[('fam', kn.single_atom(), self.const_param(self.ty[dty]['len']), e) for e in evs]), v.rid, 0)
        if k == 'discr':
            lv, ty, meta = self.place(st, r['p'])
            v = self.load(st, lv, ty)
            x = self.ty[ty]
            if isinstance(v, Poly):
                return v
            if isinstance(v, Agg):
                return P(x['variants'][v.v]['discr'])
            if v is UNDEF and self.is_zst(ty) and x['k'] == 'adt':
                # a zero-sized enum has one variant that can exist
                vs = [y for y in x['variants'] if not any(self.ty[f[1]]['str'] == '!' for f in y['fields'])]
                if len(vs) == 1:
                    return P(vs[0]['discr'])
            raise Unsupported('discriminant of %r' % (v,))
        raise Unsupported('rvalue %s %s' % (k, r.get('dbg', '')))

    def cast(self, st, r, v, t1):
        ck = r['ck']
        t2 = r['ty']
        x2 = self.ty[t2]
        if ck.startswith('IntToInt'):
            if isinstance(v, Bits):
                if x2.get('w') == 8:
                    return v
            if isinstance(v, Agg) and not v.f:
                v = P(self.ty[t1]['variants'][v.v]['discr'])
            x = self.as_int(st, v)
            lo, hi, w = self.int_range(t2)
            if x.is_const():
                return P((x.cval() - lo) % 2 ** w + lo)
            if self.decide(st, AND(cmp('<=', x, hi), cmp('>=', x, lo))):
                return x
            if lo == 0 and self.decide(st, cmp('>=', x, 0)):
                return x - quotient(x, P(2 ** w)) * 2 ** w
            return self.wrap_int(st, x, t2)[0]
        if ck.startswith('PtrToPtr') or ck.startswith('FnPtrToPtr'):
            m1 = self.ty[t1].get('to')
            m2 = x2.get('to')
            if isinstance(v, Agg):
                v = self.scalar(v)
            unsized2 = m2 is not None and self.ty[m2]['k'] in ('slice', 'str', 'dyn')
            if isinstance(v, Ptr) and v.meta is not None and not unsized2:
                return Ptr(v.rid, v.off)
            if isinstance(v, Ref) and v.meta is not None and not unsized2:
                return self.ref_head(st, v, m1, m2)
            return v
        if ck.startswith('Transmute') or ck.startswith('Subtype'):
            return self.transmute(st, v, t1, t2)
        if 'Unsize' in ck:
            m1 = self.ty[t1].get('to')
            tail = m1
            while tail is not None and self.ty[tail].get('adt') == 'struct' and self.ty[tail]['variants'][0]['fields']:
                tail = self.ty[tail]['variants'][0]['fields'][-1][1]
            if tail is not None and self.ty[tail]['k'] == 'array':
                n = self.ty[tail]['len']
                n = P(n) if isinstance(n, int) else self.const_param(n)
                if isinstance(v, Ptr):
                    return Ptr(v.rid, v.off, n)
                return Ref(v.cid, v.path, n)
            if isinstance(v, Ref):
                return Ref(v.cid, v.path, 'dyn')
            if isinstance(v, Ptr):
                return Ptr(v.rid, v.off, 'dyn')
            return v
        if 'PointerExposeProvenance' in ck or 'PointerExposeAddress' in ck:
            return self.as_int(st, v)
        if 'PointerWithExposedProvenance' in ck or 'PointerFromExposedAddress' in ck:
            return Ptr(None, self.as_int(st, v))
        if 'PointerCoercion' in ck or 'MutToConst' in ck or 'ReifyFn' in ck or 'ClosureFn' in ck:
            return v
        raise Unsupported('cast ' + ck)

    def ref_head(self, st, v, m1, m2):
        """*[T] -> *T on a local array: a pointer to element 0."""
        return Ref(v.cid, self.pjoin(v.path, 0), None)

    def pjoin(self, path, i):
        """Element i of the (part of a) local array at path."""
        if path and isinstance(path[-1], tuple):
            return path[:-1] + (path[-1][1] + i,)
        return path + (i,)

    def local_slice(self, st, p, n):
        """The slice of n elements that starts at the element pointer p into a local array."""
        if n.is_const() and n.cval() == 0:
            return Ref(p.cid, p.path, n)
        if not p.path or not isinstance(p.path[-1], int):
            raise Unsupported('slice of a local')
        i = p.path[-1]
        return Ref(p.cid, p.path[:-1] + ((('s', i),) if i else ()), n)

    # ------------------------------------------------------------------ one step
    def exec1(self, st):
        fr = st.frames[-1]
        if fr.glue is not None:
            return self.step_glue(st, fr)
        blk = fr.body['blocks'][fr.bb]
        if fr.idx < len(blk['s']):
            s = blk['s'][fr.idx]
            if s[0] == '=':
                lv, ty, meta = self.place(st, s[1])
                v = self.rvalue(st, s[2], ty)
                self.store(st, lv, ty, v)
            elif s[0] == 'setdiscr':
                lv, ty, meta = self.place(st, s[1])
                v = self.load(st, lv, ty)
                fs = v.f if isinstance(v, Agg) else ()
                self.store(st, lv, ty, Agg(fs, s[2]))
            elif s[0] == 'assume':
                c = self.operand(st, s[1])
                self.oblige(st, c, 'arithmetic', 'hint::assert_unchecked')
            elif s[0] == 'cpy':
                self.memcpy(st, self.operand(st, s[1]), self.operand(st, s[2]), self.operand(st, s[3]), self.ty[self.op_ty(st, s[1])]['to'], True)
            else:
                raise Unsupported('statement %s' % s[0])
            fr.idx += 1
            return
        self.terminator(st, fr, blk['t'])

    def goto(self, st, fr, bb):
        from loops import at_head
        fr.bb, fr.idx = bb, 0
        at_head(self, st, fr, bb)

    def terminator(self, st, fr, t):
        k = t['t']
        if k == 'goto':
            self.goto(st, fr, t['to'])
        elif k == 'switch':
            d = self.operand(st, t['d'])
            if isinstance(d, (Agg, UnionVal)):
                d = self.scalar(d)
            for v, bb in t['cases']:
                if isinstance(d, (bool, z3.BoolRef)):
                    c = d if v == 1 else NOT(d)
                elif isinstance(d, Bits):
                    c = self.compare(st, 'Eq', d, P(v))
                else:
                    x = self.as_int(st, d)
                    vv = v
                    if self.ty[t['dty']]['k'] == 'int' and vv >= 2 ** (self.ty[t['dty']]['w'] - 1):
                        vv -= 2 ** self.ty[t['dty']]['w']
                    c = cmp('==', x, vv)
                if self.decide(st, c):
                    return self.goto(st, fr, bb)
            self.goto(st, fr, t['otherwise'])
        elif k == 'return':
            self.do_return(st, fr)
        elif k == 'unreachable':
            self.oblige(st, False, 'unreachable', 'unreachable code is reached')
            raise Infeasible()
        elif k == 'assert':
            c = self.operand(st, t['c'])
            c = c if t['expected'] else NOT(c)
            kind = 'overflow' if 'verflow' in t['msg'] else ('bounds' if 'BoundsCheck' in t['msg'] or 'index' in t['msg'] else 'arithmetic')
            self.oblige(st, c, kind, t['msg'][:60])
            self.goto(st, fr, t['to'])
        elif k == 'drop':
            lv, ty, meta = self.place(st, t['p'])
            fr.bb, fr.idx = t['to'], 0
            self.drop_value(st, lv, ty, meta, t['unwind'])
        elif k == 'call':
            self.call(st, fr, t)
        elif k == 'resume':
            self.unwind(st)
        elif k == 'abort':
            st.final = 'abort'
        else:
            raise Unsupported('terminator %s %s' % (k, t.get('dbg', '')))

    def do_return(self, st, fr):
        v = st.cells[fr.cells[0]]
        st.frames.pop()
        if fr.hooks is not None:
            v = fr.hooks(self, st, v)
        if not st.frames:
            st.final = 'return'
            st.ret = v
            return
        if fr.dest is not None:
            caller = st.frames[-1]
            lv, ty, _ = fr.dest
            self.store(st, lv, ty, v)
        if fr.to is not None:
            self.goto(st, st.frames[-1], fr.to)
        for c in fr.cells:
            pass

    def panic(self, st, why):
        st.unwinding = why
        self.unwind_from_call(st, self.cur_unwind)

    def unwind_from_call(self, st, action):
        """The call (or drop) just made in the top frame unwinds."""
        fr = st.frames[-1]
        if action == 'continue':
            self.unwind(st)
        elif action == 'unreachable':
            self.oblige(st, False, 'unwind', 'unwinding out of code that cannot unwind')
            raise Infeasible()
        elif action == 'terminate':
            st.final = 'abort'
        else:
            fr.bb, fr.idx = action, 0

    def unwind(self, st):
        fr = st.frames.pop()
        while True:
            if not st.frames:
                st.final = 'unwind'
                return
            top = st.frames[-1]
            if top.glue is not None:
                top.glue = ('unwinding',) + tuple(top.glue[1:])
                return
            a = fr.unwind
            if a == 'continue':
                fr = st.frames.pop()
                continue
            return self.unwind_from_call(st, a)

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, t):
        import natives
        f = t['f']
        args = [self.operand(st, a) for a in t['args']]
        atys = [self.op_ty(st, a) for a in t['args']]
        lv, dty, meta = self.place(st, t['dest'])
        self.cur_unwind = t['unwind']
        self.cur_call = t
        natives.dispatch(self, st, fr, t, f, args, atys, (lv, dty, meta))

    def finish(self, st, fr, t, dest, v):
        lv, dty, _ = dest
        self.store(st, lv, dty, v)
        if t['to'] is None:
            raise Infeasible()
        self.goto(st, fr, t['to'])

    def call_fn(self, st, body, args, dest, dty, to, unwind):
        self.push_call(st, body, args, dest, dty, to, unwind)

    # ------------------------------------------------------------------ drops
    def drop_value(self, st, lv, ty, meta, unwind):
        """Start dropping the value at lv in place. Runs as a glue frame."""
        g = self.glue_items(st, lv, ty, meta)
        if not g:
            return
        fr = Frame(None, [], None, None, None, unwind)
        fr.glue = ('running', tuple(g))
        st.frames.append(fr)

    def glue_items(self, st, lv, ty, meta):
        x = self.ty[ty]
        if not x['needs_drop']:
            return []
        return [('drop', lv, ty, meta)]

    def step_glue(self, st, fr):
        mode, items = fr.glue[0], fr.glue[1]
        if not items:
            st.frames.pop()
            if mode == 'unwinding':
                if not st.frames:
                    st.final = 'unwind'
                    return
                if st.frames[-1].glue is not None:
                    st.frames[-1].glue = ('unwinding',) + tuple(st.frames[-1].glue[1:])
                    return
                return self.unwind_from_call(st, fr.unwind)
            if not st.frames:
                st.final = 'return'
                st.ret = UNIT
            elif fr.to is not None:
                self.goto(st, st.frames[-1], fr.to)
            return
        it, rest = items[0], items[1:]
        fr.glue = (mode, rest)
        _, lv, ty, meta = it
        x = self.ty[ty]
        if not x['needs_drop']:
            return
        k = x['k']
        if k in ('param', 'alias', 'dyn'):
            v = self.load(st, lv, ty)
            self.drop_opaque(st, fr, lv, ty, v)
            return
        if k in ('slice', 'array', 'str'):
            return self.drop_slice(st, fr, lv, ty, meta)
        if k in ('tuple', 'closure'):
            fr.glue = (mode, tuple(('drop', self.sub_lv(lv, ty, i), f, None) for i, f in enumerate(self.fields(ty))) + rest)
            return
        if k == 'adt':
            if x.get('manually_drop'):
                return
            fs = ()
            if x['adt'] == 'enum':
                v = self.load(st, lv, ty)
                if not isinstance(v, Agg):
                    if v is UNDEF:
                        raise Unsupported('drop of an uninitialized enum')
                    raise Unsupported('drop of %r' % (v,))
                fs = tuple(('drop', ('cell', lv[1], lv[2] + (i,)), f, None) for i, f in enumerate(self.fields(ty, v.v)))
            elif x['adt'] == 'struct':
                fs = tuple(('drop', self.sub_lv(lv, ty, i), f, None) for i, f in enumerate(self.fields(ty)))
            fr.glue = (mode, fs + rest)
            if 'drop' in x:
                p = self.lv_ptr(lv, meta)
                import natives
                natives.call_drop_impl(self, st, fr, x, p, ty)
            return
        raise Unsupported('drop of ' + x['str'])

    def sub_lv(self, lv, ty, i):
        if lv[0] == 'cell':
            return ('cell', lv[1], lv[2] + (i,))
        return ('mem', lv[1], lv[2] + self.field_off(ty, i))

    def lv_ptr(self, lv, meta=None):
        return Ref(lv[1], lv[2], meta) if lv[0] == 'cell' else Ptr(lv[1], lv[2], meta)

    def drop_opaque(self, st, fr, lv, ty, v):
        """Drop of a value of unknown type: an event; may unwind."""
        st.trace = st.trace + (('drop', v, self.where_lv(lv)),)
        self.kill_value(st, lv, ty, v)
        if self.unwind_calls and self.nondet(st, 'drop-unwinds'):
            st.unwinding = 'user:drop'
            fr.glue = ('unwinding',) + tuple(fr.glue[1:])

    def kill_value(self, st, lv, ty, v):
        if lv[0] == 'mem':
            rid, off = lv[1], lv[2]
            st.regions[rid] = st.regions[rid].with_ev(('kill', off, self.size_of(ty), 'drop'))

    def where_lv(self, lv):
        return lv if lv[0] == 'mem' else ('cell',)

    def nondet(self, st, hint):
        i = st.pos
        n = z3.Bool('nd:%s:%d:%d' % (hint, len(st.trace), len(st.pc)))
        if st.pos < len(st.decisions):
            d, _ = st.decisions[st.pos]
            st.pos += 1
            return d
        alt = st.snap.clone()
        alt.decisions = st.decisions + [(True, False)]
        alt.snap = st.snap
        st.alts.append(alt)
        st.decisions.append((False, False))
        st.pos += 1
        return False

    def drop_slice(self, st, fr, lv, ty, meta):
        x = self.ty[ty]
        el = x['elem']
        if x['k'] == 'array' and isinstance(x['len'], int):
            n = P(x['len'])
        else:
            n = self.const_param(x['len']) if x['k'] == 'array' else meta
        lv = self.settle(st, lv, ty)
        if n is None:
            raise Unsupported('drop of an array of unknown length')
        if n.is_const() and n.cval() <= 64:
            fr.glue = (fr.glue[0], tuple(('drop', (('cell', lv[1], self.pjoin(lv[2], i)) if lv[0] == 'cell' else ('mem', lv[1], lv[2] + self.size_of(el) * i)), el, None) for i in range(n.cval())) + fr.glue[1])
            return
        # all elements, in order; if one unwinds the compiler's glue drops the rest as well
        es = self.size_of(el)
        kn = CTX.atom(CTX.fresh('k'))
        k = kn.single_atom()
        self.access(st, lv[1], lv[2], es * n, self.align_of(el), 'read') if lv[1] is not None or True else None
        st.trace = st.trace + (('fam', k, n, ('drop', Opaque('elem@%s' % (lv[1],), [kn]), ('mem', lv[1], lv[2] + es * kn))),)
        if lv[1] is not None:
            st.regions[lv[1]] = st.regions[lv[1]].with_ev(('fam', k, n, ('kill', lv[2] + es * kn, es, 'drop')))
        if self.unwind_calls and self.nondet(st, 'drop-unwinds'):
            st.unwinding = 'user:drop'
            fr.glue = ('unwinding',) + tuple(fr.glue[1:])

    # ------------------------------------------------------------------ bulk memory
    def memcpy(self, st, src, dst, count, ety, nonoverlap):
        src, dst = self.scalar(src), self.scalar(dst)
        es = self.size_of(ety)
        n = P(count) * es
        al = self.align_of(ety)
        if isinstance(src, Ref) or isinstance(dst, Ref):
            if P(count).is_const() and P(count).cval() == 1:
                v = self.load_ptr(st, src, ety)
                self.store_ptr(st, dst, ety, v)
                return
            if self.decide(st, cmp('==', count, 0)):
                return
            if isinstance(src, Ref) and isinstance(dst, Ptr) and P(count).is_const():
                for i in range(P(count).cval()):
                    v = self.load(st, ('cell', src.cid, src.path[:-1] + (src.path[-1] + i,)), ety)
                    self.mem_store(st, dst.rid, dst.off + es * i, ety, v)
                return
            raise Unsupported('block copy of locals')
        if n.is_const() and n.cval() == 0:
            self.oblige_aligned(st, src, al, 'read')
            self.oblige_aligned(st, dst, al, 'write')
            return
        self.access(st, src.rid, src.off, n, al, 'read')
        self.access(st, dst.rid, dst.off, n, al, 'write')
        if src.rid is None or dst.rid is None:
            # nothing is copied; an object of size zero comes into being at the destination
            g = st.ghost.get(('dangling', src.off.key())) if src.rid is None else None
            if g is not None:
                import natives
                natives.put_obj(self, st, dst, g[0], P(0), g[1])
            return
        if nonoverlap and src.rid == dst.rid:
            self.oblige(st, OR(cmp('==', n, 0), cmp('<=', src.off + n, dst.off), cmp('<=', dst.off + n, src.off)),
                        'memory:overlap', 'copy_nonoverlapping of disjoint ranges')
        rs = st.regions[src.rid]
        st.regions[dst.rid] = st.regions[dst.rid].with_ev(('copy', dst.off, n, rs, src.rid, src.off))

    def load_ptr(self, st, p, ty):
        if isinstance(p, Agg):
            p = self.scalar(p)
        if isinstance(p, Ref):
            v = self.load(st, ('cell', p.cid, p.path), ty)
            return v
        return self.mem_load(st, p.rid, p.off, ty)

    def store_ptr(self, st, p, ty, v):
        if isinstance(p, Agg):
            p = self.scalar(p)
        if isinstance(p, Ref):
            self.store(st, ('cell', p.cid, p.path), ty, v)
        else:
            self.mem_store(st, p.rid, p.off, ty, v)


class Uninit(Unsupported):
    pass
