"""Contracts for the views and iterators of sequences (the invariant is that of contracts_seq)."""
from contracts_seq import *

PROPS_IT = ['C04', 'C15']


def finishes(c, outs, prop):
    """The outcomes that return; any other is a violation."""
    ret = []
    for o in outs:
        if o.final == 'return':
            ret.append(o)
        else:
            c.bad(o, prop, 'finishes: %s %s' % (o.final, o.unwinding))
    c.cover('returns', ret)
    return ret


def quiet(c, o, prop, sq):
    c.post(o, prop, not o.trace, 'nothing is obtained, released, dropped or called (%s)' % (o.trace[:2],))
    if sq.p.rid is not None:
        unchanged(c, o, sq.p, prop, 'the storage is not written')


def seq_new(c, checked):
    outs = c.run([])
    for o in finishes(c, outs, 'C04'):
        t = c.retty()
        v = o.ret
        c.post(o, 'C08', not o.trace, 'no storage is obtained (%s)' % (o.trace[:2],))
        for name in ('len_elements', 'occupied_offsets', 'capacity_offsets'):
            c.post(o, 'C04', cmp('==', get(c, t, v, name), 0), 'a new sequence is empty: ' + name)
        p = get(c, t, v, 'ptr')
        p = c.ex.scalar(p)
        x = p.off if isinstance(p, Ptr) and p.rid is None else p if isinstance(p, Poly) else None
        c.post(o, 'C02', x is not None and cmp('!=', x, 0), 'the pointer is not null')


def seq_facts(c, checked, empty):
    sq, arg = seq_arg(c, checked, empty)
    outs = c.run([arg])
    for o in finishes(c, outs, 'C04'):
        c.post(o, 'C04', cmp('==', o.ret.f[0], sq.n), 'len is the number of elements')
        c.post(o, 'C05', cmp('==', o.ret.f[1], sq.occ), 'offset is where the next element goes')
        c.post(o, 'C18', cmp('==', o.ret.f[2], sq.cap), 'capacity_in_offsets is the capacity')
        same_fields(c, o, 'C04', sq)
        quiet(c, o, 'C04', sq)


def seq_iter(c, checked, empty):
    sq, arg = seq_arg(c, checked, empty)
    outs = c.run([arg])
    for o in finishes(c, outs, 'C15'):
        t = c.retty()
        c.post(o, 'C15', cmp('==', get(c, t, o.ret, 'len_elements'), sq.n), 'the iterator covers all elements')
        c.post(o, 'C04', veq(c, o, get(c, t, o.ret, 'ptr'), sq.p), 'the iterator starts at the first element')
        same_fields(c, o, 'C04', sq)
        quiet(c, o, 'C04', sq)


def iter_at(c, t, empty):
    """An iterator with m elements to go, the next being element k."""
    sq = seq_state(c, False, empty)
    if empty:
        k, m, p = P(0), P(0), sq.p
    else:
        k, m = CTX.atom('k'), CTX.atom('m')
        c.st.assume(cmp('<=', k + m, sq.n))
        p = Ptr(sq.p.rid, sq.A * pos(sq, k))
    return sq, k, m, p, struct_val(c, t, {'ptr': p, 'len_elements': m})


def iter_next(c, empty):
    t = c.ex.ty[c.argty(0)]['to']
    sq, k, m, p, v = iter_at(c, t, empty)
    cell = c.ex.new_cell(c.st, v)
    outs = c.run([Ref(cell)])
    some = none = 0
    for o in finishes(c, outs, 'C04'):
        q, l = get(c, t, o.cells[cell], 'ptr'), get(c, t, o.cells[cell], 'len_elements')
        quiet(c, o, 'C04', sq)
        if o.ret.v == 1:
            some += 1
            c.post(o, 'C15', cmp('>', m, 0), 'no element is yielded after the last')
            c.post(o, 'C04', veq(c, o, c.ex.scalar(o.ret.f[0]), p), 'the next element is yielded')
            c.post(o, 'C04', veq(c, o, q, Ptr(p.rid, sq.A * pos(sq, k + 1))), 'the iterator moves to the following element')
            c.post(o, 'C15', cmp('==', l, m - 1), 'one element fewer is left')
        else:
            none += 1
            c.post(o, 'C15', cmp('==', m, 0), 'every element is yielded before None')
            c.post(o, 'C15', AND(cmp('==', l, m), veq(c, o, q, p)), 'a finished iterator stays finished')
    c.cover('None', none)
    if not empty:
        c.cover('Some', some)


def iter_sizes(c, empty, byref=False):
    t = c.argty(0)
    t = c.ex.ty[t]['to'] if byref else t
    sq, k, m, p, v = iter_at(c, t, empty)
    outs = c.run([Ref(c.ex.new_cell(c.st, v)) if byref else v])
    for o in finishes(c, outs, 'C15'):
        r = o.ret.f
        c.post(o, 'C15', cmp('==', r[0], m), 'len is the number of elements left')
        c.post(o, 'C15', cmp('==', r[1], m), 'the lower bound of size_hint is the number of elements left')
        c.post(o, 'C15', r[2].v == 1 and cmp('==', r[2].f[0], m), 'the upper bound of size_hint is the number of elements left')
        if len(r) > 3:
            c.post(o, 'C15', cmp('==', r[3], m), 'count is the number of elements left')
        quiet(c, o, 'C15', sq)


def drops_range(c, o, prop, sq, k, m, where='the elements left'):
    """vdrop was called exactly once for each of elements k .. k+m, in order, and on nothing else."""
    ev = []
    for e in o.trace:
        if e[0] == 'vdrop':
            ev.append((None, P(1), e))
        elif e[0] == 'fam':
            tms = [tm for tm in (e[3] if isinstance(e[3][0], tuple) else [e[3]]) if tm[0] in ('vdrop', 'fam')]
            if not tms:
                continue
            if len(tms) > 1 or tms[0][0] == 'fam':
                raise X.Unsupported('a loop that drops several elements in an iteration')
            ev.append((e[1], e[2], tms[0]))
    done = P(0)
    for kn, cnt, tm in ev:
        x = tm[1]
        ok = isinstance(x, Opaque) and x.name == E
        if ok:
            i = x.idx[0]
            j = Poly({(kn,): 1}) if kn else P(0)
            if kn:
                s = c.assume(o, cmp('<', j, cnt))
                if s is None:
                    continue
                c.post(s, prop, cmp('==', i, k + done + j), 'elements are dropped in order, each once')
            else:
                c.post(o, prop, cmp('==', i, k + done), 'elements are dropped in order, each once')
        else:
            c.bad(o, prop, 'only elements are dropped: %r' % (x,))
        done = done + cnt
    return done


def iter_owned_drop(c, empty, count=False):
    t = c.argty(0)
    sq, k, m, p, v = iter_at(c, t, empty)
    outs = c.run([v])
    for o in outs:
        vd = drops_range(c, o, 'C07', sq, k, m)
        c.post(o, 'C08', not heap_events(o), 'no block is obtained or released')
        if o.final != 'return':
            c.post(o, 'C07', cmp('<=', vd, m), 'nothing but the elements left is dropped')
            if not user_unwind(o):
                c.bad(o, 'C07', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        if count:
            c.post(o, 'C15', cmp('==', o.ret, m), 'count is the number of elements left')
        c.post(o, 'C07', OR(cmp('==', vd, m), AND(cmp('==', vd, 0), NOT(may_need(c)))), 'every element left is dropped, unless none needs it')
    c.cover('returns', [o for o in outs if o.final == 'return'])


def iter_nth(c, empty):
    t = c.ex.ty[c.argty(0)]['to']
    sq, k, m, p, v = iter_at(c, t, empty)
    x = CTX.atom('nth', hi=2 ** 64 - 1)
    cell = c.ex.new_cell(c.st, v)
    outs = c.run([Ref(cell), x])
    owned = 'OwnedElems' in c.ex.ty[t]['str']
    some = none = 0
    for o in outs:
        vd = drops_range(c, o, 'C07', sq, k, m)
        if o.final != 'return':
            if not user_unwind(o):
                c.bad(o, 'C04', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        c.post(o, 'C08', not heap_events(o), 'no block is obtained or released')
        q, l = get(c, t, o.cells[cell], 'ptr'), get(c, t, o.cells[cell], 'len_elements')
        if o.ret.v == 1:
            some += 1
            c.post(o, 'C15', cmp('<', x, m), 'no element is yielded after the last')
            c.post(o, 'C04', veq(c, o, c.ex.scalar(o.ret.f[0]), Ptr(p.rid, sq.A * pos(sq, k + x))), 'nth(n) yields the n-th of the elements left')
            c.post(o, 'C15', cmp('==', l, m - 1 - x), 'n + 1 elements fewer are left')
            skipped = x
        else:
            none += 1
            c.post(o, 'C15', cmp('>=', x, m), 'None only when there are not so many elements left')
            c.post(o, 'C15', cmp('==', l, 0), 'nothing is left')
            skipped = m
        c.post(o, 'C07', OR(cmp('==', vd, skipped), AND(cmp('==', vd, 0), NOT(may_need(c)))) if owned else cmp('==', vd, 0), 'the elements skipped are dropped if they were owned')
    c.cover('None', none)
    if not empty:
        c.cover('Some', some)


def iter_last(c, empty):
    t = c.argty(0)
    sq, k, m, p, v = iter_at(c, t, empty)
    outs = c.run([v])
    owned = 'OwnedElems' in c.ex.ty[t]['str']
    for o in outs:
        if o.final != 'return':
            if not user_unwind(o):
                c.bad(o, 'C04', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        vd = drops_range(c, o, 'C07', sq, k, m)
        some = o.ret.v == 1
        c.post(o, 'C15', cmp('>', m, 0) if some else cmp('==', m, 0), 'last yields an element exactly when one is left')
        if some:
            c.post(o, 'C04', veq(c, o, c.ex.scalar(o.ret.f[0]), Ptr(p.rid, sq.A * pos(sq, k + m - 1))), 'last yields the last element')
        c.post(o, 'C07', OR(cmp('==', vd, m - 1 if some else 0), AND(cmp('==', vd, 0), NOT(may_need(c)))) if owned else cmp('==', vd, 0), 'the elements before it are dropped if they were owned')
    c.cover('returns', [o for o in outs if o.final == 'return'])


def iter_each(c, empty):
    """A visitor is given the elements left, in order, each once (and owns them if the iterator does)."""
    t = c.argty(0)
    sq, k, m, p, v = iter_at(c, t, empty)
    outs = c.run([v, Opaque('f')])
    for o in outs:
        if o.final != 'return':
            if not user_unwind(o):
                c.bad(o, 'C04', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        done = P(0)
        for e in o.trace:
            kn, cnt, tm = (e[1], e[2], e[3]) if e[0] == 'fam' else (None, P(1), e)
            if isinstance(tm[0], tuple) and len(tm) == 1:
                tm = tm[0]
            if tm[0] == 'drop' and repr(tm[1]) == '<f>':
                continue
            if kn and c.ex.valid(o, cmp('==', cnt, 0)):
                continue
            if tm[0] != 'call_mut' or repr(tm[1]) != '<f>':
                c.bad(o, 'C07', 'nothing is done but visiting: %r' % (tm,))
                continue
            j = Poly({(kn,): 1}) if kn else P(0)
            s = c.assume(o, cmp('<', j, cnt)) if kn else o
            if s is not None:
                x = tm[2]
                while isinstance(x, Agg):
                    x = x.f[0]
                c.post(s, 'C04', veq(c, s, x, Ptr(p.rid, sq.A * pos(sq, k + done + j))), 'the visitor is given the elements in order')
            done = done + cnt
        c.post(o, 'C15', cmp('==', done, m), 'the visitor is given every element left')
    c.cover('returns', [o for o in outs if o.final == 'return'])


def may_need(c):
    """T::NEEDS_VDROP, or T has drop glue"""
    return OR(N.needs_drop(c.ex, c.ty('T')), N.as_const_NEEDS(c.ex, c.st, [c.ty('T')], ['T']))


def iter_limited(c, empty, byref):
    t = c.argty(0)
    t = c.ex.ty[t]['to'] if byref else t
    sq, k, m, p, v = iter_at(c, t, empty)
    lim = CTX.atom('limit', hi=2 ** 64 - 1)
    cell = c.ex.new_cell(c.st, v) if byref else None
    outs = c.run([Ref(cell) if byref else v, lim])
    for o in finishes(c, outs, 'C15'):
        l = get(c, c.retty(), o.ret, 'len_elements')
        c.post(o, 'C15', AND(cmp('<=', l, m), cmp('<=', l, lim), OR(cmp('==', l, m), cmp('==', l, lim))), 'limited_to(n) yields the first min(n, len) elements')
        c.post(o, 'C04', veq(c, o, get(c, c.retty(), o.ret, 'ptr'), p), 'and starts at the same element')
        if byref:
            c.post(o, 'C15', veq(c, o, o.cells[cell], v), 'the original iterator is unchanged')
        quiet(c, o, 'C15', sq)


def offset_of(c, checked):
    sq, arg = seq_arg(c, checked)
    k = CTX.atom('k')
    c.st.assume(cmp('<', k, sq.n))
    outs = c.run([arg, Ptr(sq.p.rid, sq.A * pos(sq, k))])
    for o in finishes(c, outs, 'C05'):
        c.post(o, 'C05', cmp('==', o.ret, pos(sq, k)), 'offset_of an element is the offset push announced for it')
        same_fields(c, o, 'C05', sq)
        quiet(c, o, 'C05', sq)


def offset_of_foreign(c, checked, empty):
    """An element that is not in the sequence is never given an offset."""
    sq, arg = seq_arg(c, checked, empty)
    x = Opaque('x')
    q, _, sz, A = live_obj(c, 'block', obj=x)
    c.st.assume(cmp('>', sz, 0))
    if not empty:
        # storage of live objects of positive size does not overlap
        a, b = c.ex.addr(q), c.ex.addr(sq.p)
        c.st.assume(OR(cmp('<=', a + sz, b), cmp('<=', b + c.ex.rinfo[sq.p.rid].size, a)))
    outs = c.run([arg, q])
    for o in outs:
        if o.final == 'return':
            c.bad(o, 'C05', 'an object outside the occupied storage has an offset')
        quiet(c, o, 'C05', sq)
    c.cover('panics', [o for o in outs if o.final == 'unwind'])


def from_off_u(c):
    sq, arg = seq_arg(c, False)
    k = CTX.atom('k')
    c.st.assume(cmp('<', k, sq.n))
    outs = c.run([arg, pos(sq, k)])
    for o in finishes(c, outs, 'C05'):
        c.post(o, 'C05', veq(c, o, c.ex.scalar(o.ret), Ptr(sq.p.rid, sq.A * pos(sq, k))), 'the element that was pushed at the offset')
        same_fields(c, o, 'C05', sq)
        quiet(c, o, 'C05', sq)


def valid_c(c, empty, how):
    """is_offset_valid and the checked accessors, for any offset at all."""
    sq, arg = seq_arg(c, True, empty)
    x = CTX.atom('o', hi=2 ** 64 - 1)
    outs = c.run([arg, x])
    isst = AND(cmp('<', x, sq.occ), start_at(sq, x)) if not empty else False
    y = n = 0
    for o in outs:
        quiet(c, o, 'C06', sq)
        same_fields(c, o, 'C06', sq)
        if how == 'valid':
            if o.final != 'return':
                c.bad(o, 'C06', 'finishes: %s' % o.unwinding)
                continue
            c.post(o, 'C06', IFF(o.ret, isst), 'an offset is valid exactly when an element starts there')
            y += 1
            n += 1
        elif o.final == 'return':
            y += 1
            c.post(o, 'C06', isst, 'only the offset of an element is accepted')
            c.post(o, 'C06', veq(c, o, c.ex.scalar(o.ret), Ptr(sq.p.rid, sq.A * x)), 'the element at the offset')
        else:
            n += 1
            c.post(o, 'C06', NOT(isst), 'the offset of an element is not refused: %s' % o.unwinding)
            c.post(o, 'C06', o.final == 'unwind', 'an invalid offset panics')
    c.cover('accepts', y or empty)
    c.cover('refuses', n)


def take(c, checked, empty):
    sq, arg = seq_arg(c, checked, empty)
    outs = c.run([arg])
    for o in finishes(c, outs, 'C07'):
        t = c.retty()
        c.post(o, 'C15', cmp('==', get(c, t, o.ret, 'len_elements'), sq.n), 'every element is handed over')
        c.post(o, 'C04', veq(c, o, get(c, t, o.ret, 'ptr'), sq.p), 'from the first one on')
        v = o.cells[sq.cell]
        c.post(o, 'C07', AND(cmp('==', get(c, sq.ty, v, 'len_elements'), 0), cmp('==', get(c, sq.ty, v, 'occupied_offsets'), 0)), 'the sequence is empty afterwards')
        c.post(o, 'C18', cmp('==', get(c, sq.ty, v, 'capacity_offsets'), sq.cap), 'the capacity is kept')
        c.post(o, 'C08', veq(c, o, get(c, sq.ty, v, 'ptr'), sq.p), 'the storage is kept')
        c.post(o, 'C08', not o.trace, 'nothing is obtained, released or dropped')
        if sq.p.rid is None:
            continue
        if checked:
            # the storage of the elements is untouched, the validity bits are all zero
            j = c.index('j')
            s = c.assume(o, cmp('<', j, quotient(sq.cap + 7, 8)))
            if s is not None:
                for s2, b in c.read(s, Ptr(sq.p.rid, sq.A * sq.cap + j), c.ty('u8')):
                    if isinstance(b, Exception):
                        c.bad(s2, 'C06', 'validity bits: %s' % b)
                        continue
                    for x in range(8):
                        c.post(s2, 'C06', NOT(c.ex.to_bits(b).b[x]), 'no offset is valid after take_elems (bit %d)' % x)
            k = c.index()
            s = c.assume(o, cmp('<', k, sq.n))
            if s is not None:
                obj_is(c, s, 'C07', sq.p, sq.A * pos(sq, k), c.ty('T'), Opaque(E, [k]), 'the elements are untouched')
        else:
            unchanged(c, o, sq.p, 'C07', 'the storage is untouched')


def seq_drop(c, checked, empty):
    sq, arg = seq_arg(c, checked, empty, byref=False, shift=True)
    outs = c.run([arg])
    for o in outs:
        vd = drops_range(c, o, 'C07', sq, P(0), sq.n)
        de = [e for e in heap_events(o)]
        if o.final != 'return':
            c.post(o, 'C07', cmp('<=', vd, sq.n), 'nothing but the elements is dropped')
            c.post(o, 'C08', len(de) <= 1 and all(e == ('dealloc', sq.p.rid) for e in de), 'the block is released at most once')
            if not user_unwind(o):
                c.bad(o, 'C07', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        c.post(o, 'C07', OR(cmp('==', vd, sq.n), AND(cmp('==', vd, 0), NOT(may_need(c)))), 'every element is dropped, unless none needs it')
        c.post(o, 'C08', de == ([('dealloc', sq.p.rid)] if sq.p.rid is not None else []), 'the block is released exactly once: %s' % (de,))
        if de:
            c.post(o, 'C08', o.trace[-1][0] == 'dealloc', 'after the elements are dropped')
    c.cover('returns', [o for o in outs if o.final == 'return'])


def more(v):
    return bfam('more:' + v.name, v.idx[-1]) if v.idx else z3.Bool('more:' + v.name)


def push_override(cell, log):
    def push(ex, st, fr, t, f, args, atys, dest):
        r = ex.scalar(args[0])
        if not (isinstance(r, Ref) and r.cid == cell(st) and not r.path):
            raise X.Unsupported('push to %r' % (r,))
        st.trace = st.trace + (('push', args[1]),)
        if ex.unwind_calls and ex.nondet(st, 'push-panics'):
            ex.panic(st, 'user:push')
            return N.DONE
        return X.UNIT
    return push


def pushes_all(c, o, it, prop):
    """The trace is: into_iter, then per item next and push of that item, in order, until next says no."""
    evs = []
    for e in o.trace:
        if e[0] == 'fam':
            tms = list(e[3] if isinstance(e[3][0], tuple) else [e[3]])
            evs += [('in', tm) for tm in tms] + [('end-in', None)]
        else:
            evs.append(('at', e))
    i = 0
    if evs and evs[0][1][0] == 'into_iter':
        c.post(o, prop, repr(evs[0][1][1]) == repr(it), 'the items come from the argument')
        i = 1
    pending, ended, drops = None, False, []
    ok = True
    for where, e in evs[i:]:
        if where == 'end-in':
            ok = ok and pending is None
            continue
        if e[0] == 'next':
            ok = ok and pending is None and not ended and not drops
            pending = e[1]
        elif e[0] == 'push':
            v = e[1]
            ok = ok and pending is not None and isinstance(v, Opaque) and repr(v) == repr(pending) and not drops
            pending = None
        elif e[0] == 'drop':
            drops.append(e[1])
        else:
            c.bad(o, prop, 'unexpected: %s' % (e[:2],))
    c.post(o, prop, ok, 'every item is pushed, once, in the order of the iterator')
    c.post(o, prop, len({repr(d) for d in drops}) == len(drops), 'nothing is dropped twice')
    if o.final == 'return':
        done = pending is not None and NOT(more(pending))
        if o.ghost.get('upper') is not None:
            # as many as the iterator has at most
            n = P(0)
            for e in o.trace:
                if e[0] == 'fam':
                    n = n + e[2] * sum(x[0] == 'push' for x in (e[3] if isinstance(e[3][0], tuple) else [e[3]]))
                elif e[0] == 'push':
                    n = n + 1
            done = OR(done, cmp('==', n, o.ghost['upper']))
        c.post(o, prop, done, 'until the iterator has no more')


def extend(c):
    cell = c.ex.new_cell(c.st, Opaque('seq'))
    it = Opaque('it')
    c.ex.overrides['varlen::seq::Seq::push'] = push_override(lambda st: cell, None)
    outs = c.run([Ref(cell), it])
    for o in outs:
        pushes_all(c, o, it, 'C04')
        c.post(o, 'C04', repr(o.cells[cell]) == repr(Opaque('seq')), 'the sequence is changed by push only')
        if o.final != 'return':
            c.post(o, 'C17', user_unwind(o), 'panics only when the iterator or a push does: %s' % o.unwinding)
    c.cover('returns', [o for o in outs if o.final == 'return'])
    c.cover('unwinds', [o for o in outs if o.final == 'unwind'])


def collect(c):
    it = Opaque('it')
    state = {}

    def ext(ex, st, fr, t, f, args, atys, dest):
        r = ex.scalar(args[0])
        if not isinstance(r, Ref) or r.path:
            raise X.Unsupported('extend of %r' % (r,))
        v = st.cells[r.cid]
        st.trace = st.trace + (('extend', v, args[1]),)
        st.cells[r.cid] = Opaque('extended')
        if ex.unwind_calls and ex.nondet(st, 'extend-panics'):
            ex.panic(st, 'user:extend')
            return N.DONE
        return X.UNIT

    def drop_impl(ex, st, fr, x, p, ty):
        r = ex.scalar(p)
        st.trace = st.trace + (('seq-drop', st.cells[r.cid] if isinstance(r, Ref) and not r.path else None),)
        return True
    c.ex.overrides['<varlen::seq::Seq as core::iter::traits::collect::Extend>::extend'] = ext
    c.ex.overrides['drop-impl'] = drop_impl
    outs = c.run([it])
    for o in outs:
        ev = list(o.trace)
        ex = [e for e in ev if e[0] == 'extend']
        c.post(o, 'C04', len(ex) == 1 and repr(ex[0][2]) == repr(it), 'the sequence is extended once, from the argument')
        if len(ex) == 1:
            v = ex[0][1]
            for name in ('len_elements', 'occupied_offsets', 'capacity_offsets'):
                c.post(o, 'C04', cmp('==', get(c, c.retty(), v, name), 0), 'starting from an empty sequence: ' + name)
        dr = [e for e in ev if e[0] == 'seq-drop']
        if o.final == 'return':
            c.post(o, 'C04', repr(o.ret) == repr(Opaque('extended')), 'the extended sequence is returned')
            c.post(o, 'C07', not dr, 'the returned sequence is not dropped')
        else:
            c.post(o, 'C07', len(dr) == 1 and repr(dr[0][1]) == repr(Opaque('extended')), 'when a push panics what was collected is dropped, once')
            c.post(o, 'C17', user_unwind(o), 'panics only when extend does: %s' % o.unwinding)
        c.post(o, 'C04', len(ev) == len(ex) + len(dr), 'nothing else happens')
    c.cover('returns', [o for o in outs if o.final == 'return'])
    c.cover('unwinds', [o for o in outs if o.final == 'unwind'])


for _ck, _s in ((False, 'u'), (True, 'c')):
    contract('seq_extend_' + _s, ['C04', 'C17'])(extend)
    contract('seq_collect_' + _s, ['C04', 'C07', 'C17'])(collect)
    contract('seq_new_' + _s, ['C02', 'C04', 'C08'], checked=_ck)(seq_new)
    contract('seq_offset_of_' + _s, ['C05'], checked=_ck)(offset_of)
    for _e in (True, False):
        _z = '_empty' if _e else ''
        contract('seq_facts_' + _s, ['C04', 'C05', 'C18'], name='seq_facts_%s%s' % (_s, _z), checked=_ck, empty=_e)(seq_facts)
        contract('seq_iter_' + _s, ['C04', 'C15'], name='seq_iter_%s%s' % (_s, _z), checked=_ck, empty=_e)(seq_iter)
        contract('seq_iter_mut_' + _s, ['C04', 'C15'], name='seq_iter_mut_%s%s' % (_s, _z), checked=_ck, empty=_e)(seq_iter)
        contract('seq_offset_of_' + _s, ['C05'], name='seq_offset_of_foreign_%s%s' % (_s, _z), checked=_ck, empty=_e)(offset_of_foreign)
        contract('seq_take_' + _s, ['C04', 'C07', 'C08', 'C15', 'C18'] + (['C06'] if _ck else []), name='seq_take_%s%s' % (_s, _z), checked=_ck, empty=_e)(take)
        contract('seq_drop_' + _s, ['C07', 'C08'], name='seq_drop_%s%s' % (_s, _z), checked=_ck, empty=_e)(seq_drop)
contract('seq_new_m', ['C02', 'C04', 'C08'], checked=False)(seq_new)
contract('seq_from_off_u', ['C05'])(from_off_u)
contract('seq_from_off_mut_u', ['C05'])(from_off_u)
for _e in (True, False):
    _z = '_empty' if _e else ''
    for _k in ('iter', 'iter_mut', 'iter_owned'):
        contract(_k + '_next', ['C04', 'C15'], name=_k + '_next' + _z, empty=_e)(iter_next)
        contract(_k + '_nth', ['C04', 'C07', 'C15'], name=_k + '_nth' + _z, empty=_e)(iter_nth)
        contract(_k + '_last', ['C04', 'C07', 'C15'], name=_k + '_last' + _z, empty=_e)(iter_last)
        contract(_k + '_each', ['C04', 'C07', 'C15'], name=_k + '_each' + _z, empty=_e)(iter_each)
        contract(_k + '_sizes', ['C15'], name=_k + '_sizes' + _z, empty=_e, byref=_k == 'iter_owned')(iter_sizes)
    contract('iter_limited', ['C04', 'C15'], name='iter_limited' + _z, empty=_e, byref=True)(iter_limited)
    contract('iter_mut_limited', ['C04', 'C15'], name='iter_mut_limited' + _z, empty=_e, byref=False)(iter_limited)
    contract('iter_owned_drop', ['C07', 'C08'], name='iter_owned_drop' + _z, empty=_e)(iter_owned_drop)
    contract('iter_owned_count', ['C07', 'C08', 'C15'], name='iter_owned_count' + _z, empty=_e, count=True)(iter_owned_drop)
    contract('seq_valid_c', ['C06'], name='seq_valid_c' + _z, empty=_e, how='valid')(valid_c)
    contract('seq_from_off_c', ['C06'], name='seq_from_off_c' + _z, empty=_e, how='get')(valid_c)
    contract('seq_from_off_mut_c', ['C06'], name='seq_from_off_mut_c' + _z, empty=_e, how='get')(valid_c)
