"""Contracts for boxes and owned references. T is any VarLen type, init any initializer of it."""
from contracts_comp import *


def T_facts(c, obj=None):
    """(size, ALIGN) of an object of the unknown type T"""
    return (N.obj_size(c.ex, obj, c.ty('T')) if obj is not None else None), N.vl_align(c.ex, c.ty('T'))


def live_obj(c, kind, zero=False, obj=Opaque('x'), aligned_only=False):
    """A live object x of type T. zero: of size 0, at any aligned non-null address (a box never has a
    block for such an object); otherwise in a block of its own, of its own size and ALIGN."""
    sz, A = T_facts(c, obj)
    c.st.assume(cmp('<=', sz + A, 2 ** 63))
    if zero:
        c.st.assume(cmp('==', sz, 0))
        q = CTX.atom('slot', lo=1, hi=2 ** 63)
        p = Ptr(None, A * q)
        c.st.assume(cmp('<', A * q, 2 ** 64))
        c.st.ghost[('dangling', p.off.key())] = (obj, c.ty('T'))
        return p, obj, sz, A
    if kind == 'heap':
        c.st.assume(cmp('>', sz, 0))
    p = c.ex.new_region(c.st, 'obj', sz, A, kind, ObjsInit([], [(P(0), obj, c.ty('T'))]))
    return p, obj, sz, A


def heap_events(o):
    return [e for e in o.trace if e[0] in ('alloc', 'realloc', 'dealloc', 'alloc-failed', 'oom')]


def no_heap(c, o, prop):
    c.post(o, prop, not heap_events(o), 'no block is obtained or released (%s)' % (heap_events(o)[:2],))


def holds(c, o, prop, p, obj, sz, msg):
    """p points to the live object obj."""
    p = c.ex.scalar(p)
    if p.rid is None:
        g = o.ghost.get(('dangling', p.off.key()))
        c.post(o, prop, AND(g is not None and repr(g[0]) == repr(obj), cmp('==', sz, 0), cmp('!=', p.off, 0)), msg)
    else:
        obj_is(c, o, prop, p, P(0), c.ty('T'), obj, msg)


def box_new(c, clone=False, zero=False):
    if clone:
        p0, x, _, _ = live_obj(c, 'heap', zero)
        b = c.ex.new_cell(c.st, c.ex.wrap(p0, c.ex.ty[c.argty(0)]['to']))
        init = Opaque('vclone(x)')
        outs = c.run([Ref(b)])
    else:
        init = Opaque('init')
        outs = c.run([init])
    obj = N.obj_of(init)
    sz, A = T_facts(c, obj)
    ret = refused = 0
    for o in outs:
        ev = heap_events(o)
        if clone:
            c.post(o, 'C12', p0.rid is None or not o.regions[p0.rid].ev, 'the original is unchanged')
            c.post(o, 'C12', o.final != 'return' or len([e for e in o.trace if e[0] == 'vclone']) == 1, 'vclone is called once')
        if user_unwind(o):
            if not clone:
                used = [e for e in o.trace if e[0] == 'initialize'] + [e for e in o.trace if e[0] == 'drop']
                nd = N.needs_drop(c.ex, c.argty(0))
                c.post(o, 'C07', len(used) == 1 or (not used and NOT(nd)) or o.final == 'abort', 'the initializer is used or dropped once')
            continue
        if o.final == 'oom':
            c.post(o, 'C08', len(ev) == 2 and ev[0][0] == 'alloc-failed', 'handle_alloc_error only after a failed allocation')
            continue
        if o.final != 'return':
            refused += 1
            c.post(o, 'C02', OR(NOT(N.layout_ok(init)), cmp('>', sz + A, 2 ** 63)), 'boxing panics only when the object cannot be allocated: %s' % o.unwinding)
            c.post(o, 'C08', not ev, 'no block is obtained for a refused object')
            continue
        ret += 1
        c.post(o, 'C02', AND(N.layout_ok(init), cmp('<=', sz + A, 2 ** 63)), 'an object that cannot be allocated is refused')
        c.post(o, 'C07', len([e for e in o.trace if e[0] == 'initialize']) == 1 and not [e for e in o.trace if e[0] in ('drop', 'vdrop')], 'the initializer is used once, nothing is dropped')
        holds(c, o, 'C12' if clone else 'C03', o.ret, obj, sz, 'the box holds what the initializer made')
        q = c.ex.scalar(o.ret)
        if q.rid is None:
            c.post(o, 'C08', AND(cmp('==', sz, 0), not ev), 'no block is obtained only for an object of size zero')
            c.ex.oblige_aligned(o, q, A, 'the object')
        else:
            r = c.ex.rinfo[q.rid]
            c.post(o, 'C08', len(ev) == 1 and ev[0][0] == 'alloc' and ev[0][1] == q.rid, 'one block is obtained')
            c.post(o, 'C08', AND(cmp('==', q.off, 0), cmp('==', r.size, sz), cmp('==', r.align, A)), 'the block has the object\'s size and alignment')
            if clone:
                c.post(o, 'C12', q.rid != p0.rid, 'the clone is in separate storage')
    c.cover('returns', ret)
    c.cover('refuses', refused)


contract('box_new', ['C02', 'C03', 'C07', 'C08'])(box_new)
contract('box_clone', ['C12', 'C07', 'C08', 'C02'], clone=True)(box_new)
contract('box_clone', ['C12', 'C07', 'C08', 'C02'], name='box_clone_zero', clone=True, zero=True)(box_new)


def box_clone_from(c, zero=False, yzero=False):
    """a.clone_from(b): a then holds a clone of what b holds, what a held is dropped."""
    p0, x, xs, A = live_obj(c, 'heap', zero)
    p1, y, ys, _ = live_obj(c, 'heap', yzero, obj=Opaque('y'))
    bt = c.ex.ty[c.argty(0)]['to']
    a, b = c.ex.new_cell(c.st, c.ex.wrap(p1, bt)), c.ex.new_cell(c.st, c.ex.wrap(p0, bt))
    outs = c.run([Ref(a), Ref(b)])
    obj = N.obj_of(Opaque('vclone(x)'))
    sz, A = T_facts(c, obj)
    ret = 0
    for o in outs:
        c.post(o, 'C12', p0.rid is None or not o.regions[p0.rid].ev, 'the original is unchanged')
        c.post(o, 'C12', veq(c, o, c.ex.scalar(o.cells[b]), p0), 'the original stays in its box')
        vd = [e[1] for e in o.trace if e[0] == 'vdrop']
        c.post(o, 'C07', len(vd) <= 1 and all(repr(v) == repr(y) for v in vd), 'what the box held is dropped at most once')
        if o.final != 'return':
            continue
        ret += 1
        c.post(o, 'C07', len(vd) == 1, 'what the box held is dropped exactly once')
        holds(c, o, 'C12', o.cells[a], obj, sz, 'the box holds the clone')
        c.post(o, 'C12', len([e for e in o.trace if e[0] == 'vclone']) == 1, 'vclone is called once')
        q = c.ex.scalar(o.cells[a])
        live = [r for r, s in o.regions.items() if s.live and c.ex.rinfo[r].kind == 'heap']
        c.post(o, 'C08', sorted(live) == sorted(r for r in (p0.rid, q.rid) if r is not None), 'the block of what the box held is released or used again')
        c.post(o, 'C12', p0.rid is None or q.rid != p0.rid, 'the clone is in separate storage')
        if q.rid is not None:
            r = c.ex.rinfo[q.rid]
            c.post(o, 'C08', AND(cmp('==', q.off, 0), cmp('==', r.size, sz), cmp('==', r.align, A)), 'the block has the object\'s size and alignment')
        else:
            c.post(o, 'C08', cmp('==', sz, 0), 'no block only for an object of size zero')
    c.cover('returns', ret)


contract('box_clone_from', ['C12', 'C07', 'C08'])(box_clone_from)
contract('box_clone_from', ['C12', 'C07', 'C08'], name='box_clone_from_zero', zero=True)(box_clone_from)
contract('box_clone_from', ['C12', 'C07', 'C08'], name='box_clone_from_onto_zero', yzero=True)(box_clone_from)


def own_arg(c, box, zero, byref):
    kind = 'heap' if box else 'block'
    p, x, sz, A = live_obj(c, kind, zero)
    t = c.argty(0)
    if byref:
        t = c.ex.ty[t]['to']
        cell = c.ex.new_cell(c.st, c.ex.wrap(p, t))
        return p, x, sz, A, Ref(cell)
    return p, x, sz, A, c.ex.wrap(p, t)


def own_drop(c, box, zero):
    p, x, sz, A, arg = own_arg(c, box, zero, False)
    outs = c.run([arg])
    ret = 0
    for o in outs:
        vd = [e[1] for e in o.trace if e[0] == 'vdrop']
        c.post(o, 'C07', len(vd) <= 1 and all(repr(v) == repr(x) for v in vd), 'the object is dropped at most once')
        if user_unwind(o):
            continue
        if o.final != 'return':
            c.bad(o, 'C07', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        ret += 1
        c.post(o, 'C07', len(vd) == 1, 'the object is dropped exactly once')
        ev = heap_events(o)
        if box and not zero:
            c.post(o, 'C08', ev == [('dealloc', p.rid)], 'the block is released exactly once')
            c.post(o, 'C08', o.trace.index(('vdrop', x)) < o.trace.index(('dealloc', p.rid)) if ev and vd else False, 'the block is released after the object is dropped')
        else:
            c.post(o, 'C08', not ev, 'there is no block to release')
    c.cover('returns', ret)


def own_view(c, box, zero, mut):
    p, x, sz, A, arg = own_arg(c, box, zero, True)
    before = c.st.cells[arg.cid]
    outs = c.run([arg])
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C03', 'finishes: %s' % o.unwinding)
            continue
        c.post(o, 'C03', veq(c, o, c.ex.scalar(o.ret), p), 'the view is of the stored object')
        c.post(o, 'C03', o.cells[arg.cid] == before and not o.trace, 'nothing else happens')
        if p.rid is not None:
            unchanged(c, o, p, 'C03')
    c.cover('returns', outs)


def own_give(c, box, zero):
    """into_raw, into_raw then from_raw, leak: the same object, neither dropped nor released."""
    p, x, sz, A, arg = own_arg(c, box, zero, False)
    outs = c.run([arg])
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C07', 'finishes: %s' % o.unwinding)
            continue
        c.post(o, 'C07', veq(c, o, c.ex.scalar(o.ret), p), 'the pointer is to the same object')
        c.post(o, 'C07', not o.trace, 'an object given up is not dropped (%s)' % (o.trace[:2],))
        c.post(o, 'C08', not heap_events(o), 'no block is obtained or released')
        if p.rid is not None:
            unchanged(c, o, p, 'C07')
    c.cover('returns', outs)


def own_move(c, box, zero):
    """The box or owned reference as an initializer."""
    p, x, sz, A, arg = own_arg(c, box, zero, False)
    outs = c.run([arg])

    def contents(o, q, prop):
        holds(c, o, prop, q, x, sz, 'the moved object is stored unchanged')
        ev = heap_events(o)
        if box and not zero:
            c.post(o, 'C08', ev == [('dealloc', p.rid)], 'the box\'s block is released exactly once')
        else:
            c.post(o, 'C08', not ev, 'there is no block to release')
        c.post(o, 'C07', not [e for e in o.trace if e[0] in ('vdrop', 'drop')], 'a moved object is not dropped')
        if not box and p.rid is not None:
            unchanged(c, o, p, 'C03', 'the old storage is not written')
    build_posts(c, outs, sz, A, contents)
    for o in outs:
        if o.final == 'return' and o.ret.v == 0:
            c.bad(o, 'C02', 'moving an existing object is never refused')


def own_new_in(c):
    init = Opaque('init')
    bump = c.ex.new_cell(c.st, Opaque('bump'))

    def alloc_layout(ex, st, fr, t, f, args, atys, dest):
        lay = args[1]
        size, al = lay.f[0], c.ex.scalar(lay.f[1])
        al = c.ex.as_int(st, al)
        size = c.ex.as_int(st, size)
        N.legal_layout(ex, st, size, al)
        if ex.nondet(st, 'arena-full'):
            ex.panic(st, 'user:bumpalo')
            return N.DONE
        p = ex.new_region(st, 'arena', size, al, 'arena')
        st.trace = st.trace + (('arena', p.rid, size, al),)
        return ex.wrap(p, dest[1])
    c.ex.overrides['bumpalo::Bump::alloc_layout'] = alloc_layout
    outs = c.run([init, Ref(bump)])
    obj = N.obj_of(init)
    sz, A = T_facts(c, obj)
    ret = refused = 0
    for o in outs:
        c.post(o, 'C08', not heap_events(o), 'arena storage is not obtained from the global allocator')
        if user_unwind(o):
            continue
        if o.final != 'return':
            refused += 1
            c.post(o, 'C02', OR(NOT(N.layout_ok(init)), cmp('>', sz + A, 2 ** 63)), 'panics only when the object cannot be allocated: %s' % o.unwinding)
            continue
        ret += 1
        c.post(o, 'C02', AND(N.layout_ok(init), cmp('<=', sz + A, 2 ** 63)), 'an object that cannot be allocated is refused')
        holds(c, o, 'C03', o.ret, obj, sz, 'the reference is to what the initializer made')
        q = c.ex.scalar(o.ret)
        ar = [e for e in o.trace if e[0] == 'arena']
        c.post(o, 'C08', len(ar) == 1 and ar[0][1] == q.rid, 'one stretch of the arena is used')
        c.post(o, 'C08', AND(cmp('==', q.off, 0), cmp('==', ar[0][2], sz), cmp('==', ar[0][3], A)), 'it has the object\'s size and alignment')
        c.post(o, 'C07', len([e for e in o.trace if e[0] == 'initialize']) == 1 and not [e for e in o.trace if e[0] in ('drop', 'vdrop')], 'the initializer is used once')
    c.cover('returns', ret)
    c.cover('refuses', refused)


contract('own_new_in', ['C02', 'C03', 'C07', 'C08', 'C14'])(own_new_in)
for _box, _b in ((True, 'box'), (False, 'own')):
    for _z in (False, True):
        _s = '_zero' if _z else ''
        contract(_b + '_drop', ['C07', 'C08'], name=_b + '_drop' + _s, box=_box, zero=_z)(own_drop)
        contract(_b + '_deref', ['C03'], name=_b + '_deref' + _s, box=_box, zero=_z, mut=False)(own_view)
        contract(_b + '_as_mut', ['C03'], name=_b + '_as_mut' + _s, box=_box, zero=_z, mut=True)(own_view)
        contract(_b + '_raw', ['C07', 'C08'], name=_b + '_raw' + _s, box=_box, zero=_z)(own_give)
        contract(_b + '_into_raw', ['C07', 'C08'], name=_b + '_into_raw' + _s, box=_box, zero=_z)(own_give)
        contract(_b + '_move', ['C01', 'C02', 'C03', 'C07', 'C08'], name=_b + '_move' + _s, box=_box, zero=_z)(own_move)
        if not _box:
            contract('own_leak', ['C07', 'C08'], name='own_leak' + _s, box=_box, zero=_z)(own_give)
