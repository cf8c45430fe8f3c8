"""Contracts for sequences and their iterators.

A sequence is described by ghost functions: element i is the object e(i); pos(i) is its offset, with
pos(0) = 0 and pos(i+1) = pos(i) + units(i), units(i) being the number of ALIGN units that max(size of
e(i), 1) bytes take. The invariant of a sequence of n elements:
  occupied = pos(n) <= capacity; e(i) lives at pos(i)*ALIGN for all i < n;
  capacity 0: no block, nothing stored; otherwise one block of capacity*ALIGN bytes aligned to ALIGN,
  with checked indexing followed by ceil(capacity/8) bytes, bit o of which is set exactly when an
  element starts at o."""
from contracts_own import *

E = 'e'


class Sq:
    pass


def start_at(sq, o):
    """An element of the sequence starts at offset o (as a condition)."""
    o = P(o)
    t = bfam('isstart', o)
    if t.get_id() not in CTX.facts:
        k = fam('at', o)
        CTX.addf(t, [z3.Implies(z3.And(t, B(cmp('<', o, sq.occ))), z3.And(B(cmp('==', pos(sq, k), o)), B(cmp('<', k, sq.n))))])
    return t


def pos(sq, i):
    """The offset of element i."""
    n, occ = sq.n, sq.occ

    def facts(i):
        p = fam('pos', i, facts)
        fs = [IMPL(cmp('<=', i, n), cmp('<=', p, occ)), IMPL(cmp('<', i, n), cmp('<', p, occ)), cmp('>=', p, i),
              IMPL(cmp('==', i, n), cmp('==', p, occ)), IMPL(cmp('==', i, 0), cmp('==', p, 0))]
        t = p.z()
        for j, q in sq.offs.values():
            # offsets increase; instantiated where both occur (smt.walk)
            u = q.z()
            ls = [B(IMPL(cmp('<', i, j), cmp('<', p, q))), B(IMPL(cmp('<', j, i), cmp('<', q, p)))]
            CTX.pair.setdefault(t.get_id(), {})[u.get_id()] = ls
            CTX.pair.setdefault(u.get_id(), {})[t.get_id()] = ls
        sq.offs[t.get_id()] = (i, p)
        return [f for f in fs if not isinstance(f, bool)]
    return fam('pos', i, facts)


def size_e(c, i):
    return N.obj_size(c.ex, Opaque(E, [P(i)]), c.ty('T'))


def seq_ghost(c, n, occ, cap, checked):
    sq = Sq()
    sq.offs = {}
    sq.A = N.vl_align(c.ex, c.ty('T'))
    sq.n, sq.occ, sq.cap, sq.checked = P(n), P(occ), P(cap), checked
    A = sq.A
    CTX.scale = A
    CTX.scaled |= {'occ', 'cap', 'pos'}
    Tt = c.ty('T')

    def step(name, i):
        """pos(i+1) - pos(i) is the room of element i."""
        if name != E:
            return []
        p, q = pos(sq, i), pos(sq, P(i) + 1)
        m = minmax('max', fam('size:' + E, i), P(1))
        d = A * q - A * p
        fs = [cmp('>=', d, m), cmp('<', d, m + A), cmp('>=', q, p + 1),
              IMPL(cmp('<', i, sq.n), cmp('<=', q, sq.occ))]
        return [f for f in fs if not isinstance(f, bool)]
    c.ex.obj_facts = step

    def rw(ex, st, x, y):
        """(max(size of e(i), 1) + ALIGN - 1) / ALIGN is pos(i+1) - pos(i)"""
        if y != A:
            return None
        s = (x - A + 1).single_atom()
        if s is None:
            return None
        mx = CTX.defs.get(('minmax', s))
        if mx is not None and mx[0] == 'max' and P(1) in mx[1:]:
            o = mx[1] if mx[2] == P(1) else mx[2]
            s = o.single_atom()
        elif not ex.valid(st, cmp('>=', x - A + 1, 1)):
            return None
        f = CTX.family.get(s)
        if f is None or f[0] != 'size:' + E:
            return None
        return pos(sq, f[1] + 1) - pos(sq, f[1])
    c.ex.rewrite_fn = rw
    return sq


class SeqInit:
    """The storage of a sequence that satisfies the invariant."""

    def __init__(self, sq):
        self.sq = sq

    def load(self, ex, st, rid, off, size, ty):
        sq = self.sq
        j = P(off) - sq.cap * sq.A
        if sq.checked and P(size) == P(1):
            ex.oblige(st, cmp('>=', j, 0), 'bitmap', 'a byte is read from the room of the elements, not from the validity bits')
            return Bits([AND(cmp('<', j * 8 + b, sq.occ), start_at(sq, j * 8 + b)) for b in range(8)])
        raise X.Unsupported('read of sequence storage at %r' % (off,))

    def index(self, ex, st, off):
        sq = self.sq
        x = ex.solve_div(st, P(off), sq.A)
        if x is None:
            return None
        a = x.single_atom()
        f = CTX.family.get(a) if a is not None else None
        if f is not None and f[0] == 'pos':
            k = f[1]
        elif x == P(0):
            k = P(0)
        elif x == sq.occ:
            return None
        else:
            if not ex.decide(st, AND(cmp('<', x, sq.occ), start_at(sq, x))):
                return None
            k = fam('at', x)
        return k if ex.decide(st, AND(cmp('>=', k, 0), cmp('<', k, sq.n))) else None

    def obj_at(self, ex, st, rid, off, t):
        k = self.index(ex, st, off)
        return None if k is None else Opaque(E, [k])


def fld(c, ty, name):
    """(index, type) of a field of a struct type"""
    for i, f in enumerate(c.ex.ty[ty]['variants'][0]['fields']):
        if f[0] == name:
            return i, f[1]
    raise KeyError('field ' + name)


def struct_val(c, ty, vals):
    fs = []
    for f in c.ex.ty[ty]['variants'][0]['fields']:
        if f[0] in vals:
            fs.append(c.ex.wrap(vals[f[0]], f[1]))
        else:
            if not c.ex.is_zst(f[1]):
                raise KeyError('field %s is not part of the contract' % f[0])
            fs.append(c.ex.zst_value(f[1]))
    return Agg(fs)


def get(c, ty, v, name):
    return c.ex.scalar(v.f[fld(c, ty, name)[0]])


def seq_state(c, checked, empty=False, shift=False):
    """A sequence in any state its invariant allows: (ghost, pointer, value of the struct)"""
    A = N.vl_align(c.ex, c.ty('T'))
    if empty:
        sq = seq_ghost(c, 0, 0, 0, checked)
        p = Ptr(None, c.align('T'))
    else:
        n, occ, cap = CTX.atom('n'), CTX.atom('occ'), CTX.atom('cap', lo=1)
        sq = seq_ghost(c, n, occ, cap, checked)
        c.st.assume(cmp('<=', occ, cap))
        c.st.assume(cmp('<=', n, occ))
        c.st.assume(IFF(cmp('==', n, 0), cmp('==', occ, 0)))
        size = cap * A + (quotient(cap + 7, 8) if checked else 0)
        c.st.assume(cmp('<=', size + A, 2 ** 63))
        c.st.assume(cmp('<=', A * occ, A * cap))
        p = c.ex.new_region(c.st, 'storage', size, A, 'heap', SeqInit(sq))
        if shift:
            p = Ptr(p.rid, A * pos(sq, P(0)))
    sq.p = p
    sq.empty = empty
    return sq


def seq_val(c, ty, sq):
    return struct_val(c, ty, {'ptr': sq.p, 'len_elements': sq.n, 'occupied_offsets': sq.occ, 'capacity_offsets': sq.cap})


def seq_arg(c, checked, empty=False, byref=True, shift=False):
    sq = seq_state(c, checked, empty, shift)
    t = c.argty(0)
    if byref:
        t = c.ex.ty[t]['to']
    sq.ty = t
    v = seq_val(c, t, sq)
    if byref:
        sq.cell = c.ex.new_cell(c.st, v)
        return sq, Ref(sq.cell)
    return sq, v


def same_fields(c, o, prop, sq, msg='the sequence is unchanged'):
    v = o.cells[sq.cell]
    for name, w in (('len_elements', sq.n), ('occupied_offsets', sq.occ), ('capacity_offsets', sq.cap)):
        c.post(o, prop, cmp('==', get(c, sq.ty, v, name), w), '%s: %s' % (msg, name))
    c.post(o, prop, veq(c, o, get(c, sq.ty, v, 'ptr'), sq.p), msg + ': the storage')
    if sq.p.rid is not None:
        unchanged(c, o, sq.p, prop, msg)


def storage_ok(c, o, sq, v, n2, occ2, start2, elems, props, moved=None):
    """The invariant of the sequence value v: n2 elements, occ2 occupied; elems: [(offset, obj, size)] besides
    the ones of sq when moved is not None; start2(o): whether an element starts at o."""
    PL, PO, PB, PH = props          # list, offsets, bitmap, heap
    ln, oc, cp, p = (get(c, sq.ty, v, x) for x in ('len_elements', 'occupied_offsets', 'capacity_offsets', 'ptr'))
    c.post(o, PL, cmp('==', ln, n2), 'the length')
    c.post(o, PO, cmp('==', oc, occ2), 'the occupied offsets')
    c.post(o, 'C18', cmp('<=', oc, cp), 'occupied storage never exceeds capacity')
    c.post(o, 'C18', cmp('>=', cp, sq.cap), 'capacity never shrinks')
    A = sq.A
    if p.rid is None:
        c.post(o, PH, AND(cmp('==', cp, 0), cmp('==', n2, 0), cmp('!=', p.off, 0)), 'no storage only for no capacity')
        return
    r = c.ex.rinfo[p.rid]
    c.post(o, PH, o.regions[p.rid].live and r.kind == 'heap', 'the storage is a live block')
    c.post(o, PH, AND(cmp('==', p.off, 0), cmp('>', cp, 0)), 'the storage is the start of the block')
    need = cp * A + (quotient(cp + 7, 8) if sq.checked else 0)
    c.post(o, PH, AND(cmp('==', r.size, need), cmp('==', r.align, A)), 'the block has exactly the size and alignment the sequence will release it with')
    c.post(o, 'C02', cmp('>=', r.size, need), 'the storage is not smaller than elements and validity bits need')
    # the elements
    k = c.index()
    s = c.assume(o, cmp('<', k, sq.n)) if moved is None and not sq.empty else None
    if s is not None:
        obj_is(c, s, PL, p, A * pos(sq, k), c.ty('T'), Opaque(E, [k]), 'every element is still there, at its offset')
    for off, obj, sz in elems:
        obj_is(c, o, PL, p, A * off, c.ty('T'), obj, 'the new element is at the offset announced')
        c.post(o, PL, cmp('<=', A * off + sz, A * oc), 'the new element lies in occupied storage')
    if sq.checked:
        j = c.index('j')
        s = c.assume(o, cmp('<', j, quotient(cp + 7, 8)))
        if s is not None:
            for s2, b in c.read(s, Ptr(p.rid, A * cp + j), c.ty('u8')):
                if isinstance(b, Exception):
                    c.bad(s2, PB, 'validity bits: %s' % b)
                    continue
                q = quotient(sq.occ, 8)
                j = q if c.ex.valid(s2, cmp('==', j, q)) else j
                for x in range(8):
                    bb = c.ex.to_bits(b).b[x]
                    c.post(s2, PB, IFF(bb, start2(j * 8 + x)), 'a validity bit is set exactly when an element starts at its offset (bit %d)' % x)


def seq_push(c, checked, empty):
    sq, arg = seq_arg(c, checked, empty)
    init = Opaque('init')
    obj = N.obj_of(init)
    S = N.obj_size(c.ex, obj, c.ty('T'))
    A = sq.A
    u = c.ex.quot(c.st, minmax('max', S, P(1)) + A - 1, A)
    outs = c.run([arg, init])
    occ2 = sq.occ + u
    ok = panics = 0
    old = lambda x: AND(cmp('<', x, sq.occ), start_at(sq, x)) if not sq.empty else False
    for o in outs:
        if o.final == 'oom':
            c.post(o, 'C08', [e[0] for e in heap_events(o)][-2:] == ['alloc-failed', 'oom'], 'handle_alloc_error only after a failed allocation')
            continue
        v = o.cells[sq.cell]
        cp = get(c, sq.ty, v, 'capacity_offsets')
        ev = heap_events(o)
        got = [e for e in ev if e[0] in ('alloc', 'realloc')]
        c.post(o, 'C08', not [e for e in ev if e[0] == 'dealloc'], 'storage is resized, not released')
        if o.final in ('return', 'unwind'):
            if got:
                c.post(o, 'C18', cmp('>', occ2, sq.cap), 'storage is reallocated only when the next element does not fit')
                c.post(o, 'C18', cmp('>=', cp, sq.cap * 2), 'each reallocation at least doubles the capacity')
                c.post(o, 'C18', len(got) == 1, 'one reallocation per push')
                c.post(o, 'C18', cmp('>=', cp, occ2), 'the new capacity holds the element')
                if got[0][0] == 'realloc':
                    c.post(o, 'C08', got[0][1] == sq.p.rid, 'the sequence\'s own block is resized')
            else:
                c.post(o, 'C18', cmp('==', cp, sq.cap), 'capacity changes only with the storage')
        dr = [e for e in o.trace if e[0] in ('drop', 'vdrop')]
        ini = [e for e in o.trace if e[0] == 'initialize']
        if o.final == 'return':
            ok += 1
            c.post(o, 'C02', N.layout_ok(init), 'an object whose size overflows is refused')
            c.post(o, 'C07', len(ini) == 1 and not dr, 'the initializer is used once, nothing is dropped')
            c.post(o, 'C02', cmp('<=', occ2, cp), 'the element fits the storage')
            storage_ok(c, o, sq, v, sq.n + 1, occ2, lambda x: OR(old(x), cmp('==', x, sq.occ)), [(sq.occ, obj, S)], ('C04', 'C05', 'C06', 'C08'))
            c.post(o, 'C05', cmp('>', u, 0), 'offsets of distinct elements are distinct and increase')
            continue
        if o.final == 'abort':
            continue
        panics += 1
        if not user_unwind(o):
            want = maxp(c, [occ2, sq.cap * 2, quotient(A + 31, A)])
            room = want * A + (quotient(want + 7, 8) if checked else 0)
            c.post(o, 'C02', OR(NOT(N.layout_ok(init)), bool([e for e in ev if e[0] == 'alloc-failed']), cmp('>', room + A, 2 ** 63)),
                   'a push panics only when there is no room for it: %s' % o.unwinding)
        n_used = len(ini) + len([e for e in dr if e[0] == 'drop'])
        c.post(o, 'C07', not [e for e in dr if e[0] == 'vdrop'], 'no element is dropped by a push')
        c.post(o, 'C07', n_used == 1 or (n_used == 0 and NOT(N.needs_drop(c.ex, c.argty(1)))) or 'drop' in str(o.unwinding), 'an initializer that was not used is dropped once')
        storage_ok(c, o, sq, v, sq.n, sq.occ, old, [], ('C17', 'C17', 'C17', 'C17'))
    c.cover('returns', ok)
    c.cover('panics', panics)


for _ck, _s in ((False, 'u'), (True, 'c')):
    for _e in (True, False):
        contract('seq_push_' + _s, ['C02', 'C04', 'C05', 'C07', 'C08', 'C17', 'C18'] + (['C06'] if _ck else []),
                 name='seq_push_%s%s' % (_s, '_empty' if _e else ''), checked=_ck, empty=_e)(seq_push)
