"""Calls that are not followed into a body: intrinsics, the allocator, panics, and the methods of
unknown types, which are governed by the contracts their traits document."""
import z3
import poly
from poly import Poly, P, CTX, cmp, NOT, AND, OR, IMPL, B
from values import *
import exec as X

U64 = X.U64
DONE = object()


FN_CALLS = ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')


def dispatch(ex, st, fr, t, f, args, atys, dest):
    path = f.get('path') or ''
    rpath = f.get('rpath') or path
    if path in FN_CALLS:
        x = ex.ty[atys[0]]
        while x['k'] in ('ref', 'ptr'):
            x = ex.ty[x['to']]
        if x['k'] == 'fndef':       # a function or constructor used as a value: its own body runs
            return dispatch(ex, st, fr, t, x['callee'], list(args[1].f), ex.ty[atys[1]]['fields'], dest)
    fn = ex.overrides.get(rpath) or ex.overrides.get(path)
    if fn is not None:
        r = fn(ex, st, fr, t, f, args, atys, dest)
        if r is not None:
            return None if r is DONE else ex.finish(st, fr, t, dest, r)
    if rpath.startswith('core::panicking::') or rpath in PANICS:
        if fr.body is not None:
            st.note = st.note + (('panic', fr.body['name']),)
        ex.panic(st, panic_reason(ex, st, fr, rpath))
        return
    if rpath.endswith('precondition_check'):
        pre_check(ex, st, rpath, args, atys, f)
        return ex.finish(st, fr, t, dest, UNIT)
    if f['kind'] == 'ctor':
        return ex.finish(st, fr, t, dest, ctor(ex, dest[1], args, f))
    if f['kind'] == 'intrinsic':
        g = INTR.get(f['name'])
        if g is not None:
            r = g(ex, st, f, args, atys, dest[1])
            if r is DONE:
                return
            return ex.finish(st, fr, t, dest, r)
        if 'body' not in f:
            raise X.Unsupported('intrinsic ' + f['name'])
    g = NATIVE.get(rpath)
    if g is not None:
        r = g(ex, st, fr, f, args, atys, dest[1])
        return None if r is DONE else ex.finish(st, fr, t, dest, r)
    if f['kind'] == 'dropglue' or path == 'core::ptr::drop_glue':
        pt = ex.ty[atys[0]]['to']
        p = args[0]
        if isinstance(p, Agg):
            p = ex.scalar(p)
        lv = ('cell', p.cid, p.path) if isinstance(p, Ref) else ('mem', p.rid, p.off)
        ex.store(st, dest[0], dest[1], UNIT)
        if t['to'] is None:
            raise X.Unsupported('diverging drop')
        fr.bb, fr.idx = t['to'], 0
        return ex.drop_value(st, lv, pt, p.meta, t['unwind'])
    if 'body' in f and not (rpath == path and path in TRAITS):
        body = ex.root.bodies.get(f['body'])
        if body is None:
            raise X.Unsupported('body of %s is missing' % rpath)
        if path in FN_CALLS and body['spread'] is None and len(args) == 2 and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f)      # a closure's body takes the arguments one by one
        return ex.push_call(st, body, args, dest, dest[1], t['to'], t['unwind'])
    g = TRAITS.get(path)
    if g is not None:
        r = g(ex, st, fr, f, args, atys, dest[1])
        return None if r is DONE else ex.finish(st, fr, t, dest, r)
    raise X.Unsupported('call of %s (%s)' % (rpath, f['kind']))


PANICS = {'core::slice::index::slice_index_fail', 'core::slice::copy_from_slice_impl::len_mismatch_fail',
          'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
          'core::str::slice_error_fail', 'alloc::raw_vec::capacity_overflow'}


def panic_reason(ex, st, fr, rpath):
    return 'panic:' + (fr.body['name'] if fr.body else rpath)


def ctor(ex, ty, args, f):
    x = ex.ty[ty]
    if x['k'] == 'adt' and x['adt'] == 'enum':
        nm = f['path'].split('::')[-1]
        for i, v in enumerate(x['variants']):
            if v.get('name') == nm:
                return Agg(args, i)
        raise X.Unsupported('constructor ' + f['path'])
    return Agg(args)


def pre_check(ex, st, rpath, args, atys, f):
    if 'from_size_align_unchecked' in rpath:
        size, align = ex.as_int(st, args[0]), ex.as_int(st, args[1])
        if not ex.is_pow2(align):
            raise X.Unsupported('alignment %r' % align)
        ex.oblige(st, cmp('<=', size + align, 2 ** 63), 'layout', 'Layout::from_size_align_unchecked with a legal size')
    elif 'NonNull' in rpath or 'non_null' in rpath:
        p = args[0]
        if isinstance(p, Ref):
            return
        if isinstance(p, Agg):
            p = ex.scalar(p)
        if isinstance(p, Ref):
            return
        if p.rid is not None:
            return
        ex.oblige(st, cmp('!=', p.off, 0), 'null', 'NonNull::new_unchecked of a null pointer')


# ------------------------------------------------------------------------------------ intrinsics

def targ(f, i=0):
    return f['rargs'][i] if 'rargs' in f else f['args'][i]


def i_size_of(ex, st, f, args, atys, dty):
    return ex.size_of(targ(f))


def i_size_of_val(ex, st, f, args, atys, dty):
    x = ex.ty[targ(f)]
    if x['k'] in ('slice', 'str'):
        v = ex.scalar(args[0])
        return P(v.meta) * (ex.size_of(x['elem']) if x['k'] == 'slice' else 1)
    return ex.size_of(targ(f))


def i_align_of(ex, st, f, args, atys, dty):
    return ex.align_of(targ(f))


def i_needs_drop(ex, st, f, args, atys, dty):
    return needs_drop(ex, targ(f))


def needs_drop(ex, t):
    """A python bool, or a condition for unknown types."""
    x = ex.ty[t]
    k = x['k']
    if not x['needs_drop']:
        return False
    if k in ('param', 'alias'):
        if x['str'] in ex.copy_types:
            return False
        return z3.Bool('needs_drop:' + x['str'])
    if k == 'adt':
        if x.get('manually_drop'):
            return False
        if 'drop' in x:
            return True
        return OR(*[needs_drop(ex, fl[1]) for v in x['variants'] for fl in v['fields']])
    if k in ('tuple', 'closure'):
        return OR(*[needs_drop(ex, fl) for fl in x['fields']])
    if k in ('array', 'slice'):
        return needs_drop(ex, x['elem'])
    return True


def i_arith_offset(ex, st, f, args, atys, dty):
    return ex.ptr_add(st, args[0], ex.as_int(st, args[1]) * ex.size_of(ex.ty[atys[0]]['to']))


def i_offset(ex, st, f, args, atys, dty):
    if isinstance(args[0], Ref):
        return ex.ref_add(st, args[0], ex.as_int(st, args[1]))
    return ex.ptr_add(st, args[0], ex.as_int(st, args[1]) * ex.size_of(ex.ty[atys[0]]['to']))


def i_copy(nonover):
    def g(ex, st, f, args, atys, dty):
        ex.memcpy(st, args[0], args[1], ex.as_int(st, args[2]), ex.ty[atys[0]]['to'], nonover)
        return UNIT
    return g


def i_write_bytes(ex, st, f, args, atys, dty):
    p, b, n = ex.scalar(args[0]), args[1], ex.as_int(st, args[2])
    el = ex.ty[atys[0]]['to']
    sz = n * ex.size_of(el)
    if isinstance(p, Ref):
        raise X.Unsupported('write_bytes to a local')
    ex.access(st, p.rid, p.off, sz, ex.align_of(el), 'write')
    if p.rid is not None:
        st.regions[p.rid] = st.regions[p.rid].with_ev(('fill', p.off, sz, b))
    return UNIT


def i_ptr_off_unsigned(ex, st, f, args, atys, dty):
    a, b = ex.scalar(args[0]), ex.scalar(args[1])
    d = ex.addr(a) - ex.addr(b) if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid) else a.off - b.off
    ex.oblige(st, cmp('>=', d, 0), 'arithmetic', 'offset_from_unsigned is not negative')
    sz = ex.size_of(ex.ty[atys[0]]['to'])
    return ex.quot(st, d, sz)


def i_read_via_copy(ex, st, f, args, atys, dty):
    return ex.load_ptr(st, args[0], dty)


def i_write_via_move(ex, st, f, args, atys, dty):
    ex.store_ptr(st, args[0], atys[1], args[1])
    return UNIT


def i_ctpop(ex, st, f, args, atys, dty):
    x = ex.as_int(st, args[0])
    if x.is_const():
        return P(bin(x.cval()).count('1'))
    if ex.is_pow2(x):
        return P(1)
    n = CTX.atom(CTX.fresh('ctpop'), hi=64)
    return n


def i_cttz(ex, st, f, args, atys, dty):
    x = ex.as_int(st, args[0])
    if x.is_const() and x.cval() > 0:
        return P((x.cval() & -x.cval()).bit_length() - 1)
    if ex.is_pow2(x):
        return ex.log2(x)
    raise X.Unsupported('trailing zeros of %r' % x)


def i_ctlz(ex, st, f, args, atys, dty):
    x = ex.as_int(st, args[0])
    w = ex.int_range(atys[0])[2]
    if x.is_const():
        return P(w - x.cval().bit_length())
    if ex.is_pow2(x):
        return P(w - 1) - ex.log2(x)
    raise X.Unsupported('leading zeros of %r' % x)


def i_saturating(op):
    def g(ex, st, f, args, atys, dty):
        x, y = ex.as_int(st, args[0]), ex.as_int(st, args[1])
        v = x + y if op == 'add' else x - y
        lo, hi, w = ex.int_range(atys[0])
        if op == 'add' and ex.decide(st, cmp('>', v, hi)):
            return P(hi)
        if (op == 'sub' or lo < 0) and ex.decide(st, cmp('<', v, lo)):
            return P(lo)
        if op == 'sub' and lo < 0 and ex.decide(st, cmp('>', v, hi)):
            return P(hi)
        return v
    return g


def i_exact_div(ex, st, f, args, atys, dty):
    x, y = ex.as_int(st, args[0]), ex.as_int(st, args[1])
    q = ex.quot(st, x, y)
    ex.oblige(st, cmp('==', q * y, x), 'arithmetic', 'exact division leaves no remainder')
    return q


def i_discr(ex, st, f, args, atys, dty):
    v = ex.load_ptr(st, args[0], ex.ty[atys[0]]['to'])
    x = ex.ty[ex.ty[atys[0]]['to']]
    if isinstance(v, Poly):
        return v
    if isinstance(v, Agg) and x['k'] == 'adt' and x['adt'] == 'enum':
        return P(x['variants'][v.v]['discr'])
    raise X.Unsupported('discriminant')


def i_overflow(op):
    def g(ex, st, f, args, atys, dty):
        return ex.binop(st, op, args[0], args[1], atys[0], atys[1])
    return g


def i_unchecked(op):
    def g(ex, st, f, args, atys, dty):
        y = ex.as_int(st, args[1])
        if op in ('Div', 'Rem'):
            ex.oblige(st, cmp('!=', y, 0), 'arithmetic', 'the divisor is not zero')
        else:
            ex.oblige(st, AND(cmp('>=', y, 0), cmp('<', y, ex.int_range(atys[0])[2])), 'arithmetic', 'the shift is less than the width')
        return ex.binop(st, op, args[0], args[1], atys[0], atys[1])
    return g


def unit(ex, st, f, args, atys, dty):
    return UNIT


def i_transmute(ex, st, f, args, atys, dty):
    return ex.transmute(st, args[0], atys[0], dty)


INTR = {
    'size_of': i_size_of, 'align_of': i_align_of, 'size_of_val': i_size_of_val, 'align_of_val': i_align_of, 'needs_drop': i_needs_drop,
    'arith_offset': i_arith_offset, 'offset': i_offset,
    'copy': i_copy(False), 'copy_nonoverlapping': i_copy(True), 'write_bytes': i_write_bytes,
    'ptr_offset_from_unsigned': i_ptr_off_unsigned, 'read_via_copy': i_read_via_copy,
    'write_via_move': i_write_via_move, 'ctpop': i_ctpop, 'discriminant_value': i_discr,
    'cold_path': unit, 'assert_inhabited': unit, 'assert_zero_valid': unit, 'assert_mem_uninitialized_valid': unit,
    'wrapping_add': i_overflow('Add'), 'wrapping_sub': i_overflow('Sub'), 'wrapping_mul': i_overflow('Mul'),
    'unchecked_add': i_overflow('AddUnchecked'), 'unchecked_sub': i_overflow('SubUnchecked'), 'unchecked_mul': i_overflow('MulUnchecked'),
    'add_with_overflow': i_overflow('AddWithOverflow'), 'sub_with_overflow': i_overflow('SubWithOverflow'),
    'mul_with_overflow': i_overflow('MulWithOverflow'),
    'saturating_add': i_saturating('add'), 'saturating_sub': i_saturating('sub'), 'exact_div': i_exact_div,
    'cttz': i_cttz, 'cttz_nonzero': i_cttz, 'ctlz': i_ctlz, 'ctlz_nonzero': i_ctlz,
    'unchecked_div': i_unchecked('Div'), 'unchecked_rem': i_unchecked('Rem'), 'unchecked_shl': i_unchecked('Shl'), 'unchecked_shr': i_unchecked('Shr'),
    'transmute': i_transmute, 'forget': unit,
    'likely': lambda ex, st, f, args, atys, dty: args[0], 'unlikely': lambda ex, st, f, args, atys, dty: args[0],
    'black_box': lambda ex, st, f, args, atys, dty: args[0],
}


# ------------------------------------------------------------------------------------ core natives

def n_max(ex, st, fr, f, args, atys, dty):
    x, y = ex.as_int(st, args[0]), ex.as_int(st, args[1])
    if ex.valid(st, cmp('>=', x, y)):
        return x
    if ex.valid(st, cmp('<=', x, y)):
        return y
    return minmax('max', x, y)


def n_min(ex, st, fr, f, args, atys, dty):
    x, y = ex.as_int(st, args[0]), ex.as_int(st, args[1])
    if ex.valid(st, cmp('<=', x, y)):
        return x
    if ex.valid(st, cmp('>=', x, y)):
        return y
    if ex.is_pow2(x) and ex.is_pow2(y):
        return x if ex.decide(st, cmp('<=', x, y)) else y
    return minmax('min', x, y)


def n_next_multiple(ex, st, fr, f, args, atys, dty):
    """Its documented value, when that fits."""
    x, y = ex.as_int(st, args[0]), ex.as_int(st, args[1])
    if not ex.valid(st, cmp('>=', y, 1)):
        raise X.Unsupported('next_multiple_of zero')
    v = ex.quot(st, x + y - 1, y) * y
    if not ex.valid(st, cmp('<=', v, ex.int_range(atys[0])[1])):
        raise X.Unsupported('next_multiple_of beyond the range')
    return v


INTR['integer_max'] = lambda ex, st, f, args, atys, dty: n_max(ex, st, None, f, args, atys, dty)
INTR['integer_min'] = lambda ex, st, f, args, atys, dty: n_min(ex, st, None, f, args, atys, dty)


def n_from_raw_parts(ex, st, fr, f, args, atys, dty):
    """slice::from_raw_parts(_mut): the slice must lie in one live region and be aligned."""
    p, n = ex.scalar(args[0]), ex.as_int(st, args[1])
    el = ex.ty[ex.ty[dty]['to']]['elem']
    if isinstance(p, Ref):
        return ex.local_slice(st, p, n)
    size = n * ex.size_of(el)
    if p.rid is None:
        ex.oblige(st, AND(cmp('!=', p.off, 0), cmp('==', size, 0)), 'memory:slice', 'a slice of dangling memory is empty')
        ex.oblige_aligned(st, p, ex.align_of(el), 'slice')
    else:
        ex.access(st, p.rid, p.off, size, ex.align_of(el), 'slice')
    return Ptr(p.rid, p.off, n)


NATIVE = {
    'core::slice::raw::from_raw_parts': n_from_raw_parts,
    'core::slice::raw::from_raw_parts_mut': n_from_raw_parts,
}


# ------------------------------------------------------------------------------------ allocator

def layout_args(ex, st, size, align):
    size, align = ex.as_int(st, size), ex.as_int(st, align)
    return size, align


def a_alloc(ex, st, fr, f, args, atys, dty):
    size, align = layout_args(ex, st, args[0], args[1])
    ex.oblige(st, cmp('>', size, 0), 'alloc', 'a zero-sized block is never requested')
    legal_layout(ex, st, size, align)
    if ex.nondet(st, 'alloc-fails'):
        st.trace = st.trace + (('alloc-failed', size, align),)
        return Ptr(None, 0)
    p = ex.new_region(st, 'heap', size, align, 'heap')
    st.trace = st.trace + (('alloc', p.rid, size, align),)
    return p


def legal_layout(ex, st, size, align):
    if not ex.is_pow2(align):
        raise X.Unsupported('alignment %r' % align)
    ex.oblige(st, cmp('<=', size + align, 2 ** 63), 'alloc', 'the requested size is legal')


def own_block(ex, st, p, size, align, what):
    if isinstance(p, Agg):
        p = ex.scalar(p)
    if not isinstance(p, Ptr) or p.rid is None:
        ex.oblige(st, False, 'alloc', '%s of a pointer that is not a heap block' % what)
        raise X.Infeasible()
    r = ex.rinfo[p.rid]
    if r.kind != 'heap':
        ex.oblige(st, False, 'alloc', '%s of memory that is not on the heap (%s)' % (what, r.name))
        raise X.Infeasible()
    ex.oblige(st, cmp('==', p.off, 0), 'alloc', '%s of the start of a block' % what)
    if not st.regions[p.rid].live:
        ex.oblige(st, False, 'alloc', '%s of a block already released' % what)
        raise X.Infeasible()
    ex.oblige(st, cmp('==', size, r.size), 'alloc', '%s with the size the block was obtained with' % what)
    ex.oblige(st, cmp('==', align, r.align), 'alloc', '%s with the alignment the block was obtained with' % what)
    return p


def a_dealloc(ex, st, fr, f, args, atys, dty):
    size, align = layout_args(ex, st, args[1], args[2])
    p = own_block(ex, st, args[0], size, align, 'release')
    rs = st.regions[p.rid]
    st.regions[p.rid] = X.RState(False, rs.ev, rs.init)
    st.trace = st.trace + (('dealloc', p.rid),)
    return UNIT


def a_realloc(ex, st, fr, f, args, atys, dty):
    size, align = layout_args(ex, st, args[1], args[2])
    new = ex.as_int(st, args[3])
    p = own_block(ex, st, args[0], size, align, 'resizing')
    ex.oblige(st, cmp('>', new, 0), 'alloc', 'a zero-sized block is never requested')
    legal_layout(ex, st, new, align)
    if ex.nondet(st, 'alloc-fails'):
        st.trace = st.trace + (('alloc-failed', new, align),)
        return Ptr(None, 0)
    q = ex.new_region(st, 'heap', new, align, 'heap')
    rs = st.regions[p.rid]
    old = ex.rinfo[p.rid].size
    n = old if ex.valid(st, cmp('<=', old, new)) else n_min(ex, st, None, f, [old, new], atys, dty)
    st.regions[q.rid] = X.RState(True, (('copy', P(0), n, rs, p.rid, P(0)),), None)
    st.regions[p.rid] = X.RState(False, rs.ev, rs.init)
    st.trace = st.trace + (('realloc', p.rid, q.rid, new),)
    return q


def a_oom(ex, st, fr, f, args, atys, dty):
    st.final = 'oom'
    st.trace = st.trace + (('oom',),)
    return DONE


def n_unit(ex, st, fr, f, args, atys, dty):
    return UNIT


NATIVE.update({
    'alloc::alloc::{{extern}}::__rust_alloc': a_alloc,
    'alloc::alloc::{{extern}}::__rust_dealloc': a_dealloc,
    'alloc::alloc::{{extern}}::__rust_realloc': a_realloc,
    'alloc::alloc::{{extern}}::__rust_no_alloc_shim_is_unstable_v2': n_unit,
    'alloc::alloc::handle_alloc_error': a_oom,
})


def n_ghost_alloc(ex, st, fr, f, args, atys, dty):
    size, align = ex.as_int(st, args[0]), ex.as_int(st, args[1])
    # the precondition of Initializer::initialize: a block of that size exists
    if not ex.decide(st, cmp('<=', size + align, 2 ** 63)):
        # no such block can exist; the size itself is still judged
        ex.too_large.append((st, size))
        raise X.Infeasible()
    p = ex.new_region(st, 'block', size, align, 'ghost')
    st.ghost['block'] = p.rid
    st.trace = st.trace + (('ghost_alloc', p.rid, size, align),)
    return p


def n_ghost_point(ex, st, fr, f, args, atys, dty):
    i = args[0].cval()
    h = ex.ghost_points.get(i)
    if h is not None:
        h(ex, st)
    return UNIT


def n_ghost_drop(ex, st, fr, f, args, atys, dty):
    """The destructor of the sample droppable type."""
    p = args[0]
    if isinstance(p, Agg):
        p = ex.scalar(p)
    t = ex.ty[atys[0]]['to']
    if isinstance(p, Ref):
        log(st, 'drop', ex.load(st, ('cell', p.cid, p.path), t), ('cell',))
    else:
        v = ex.load_ptr(st, p, t)
        log(st, 'drop', v, ('mem', p.rid, p.off))
        if p.rid is not None:
            st.regions[p.rid] = st.regions[p.rid].with_ev(('kill', p.off, ex.size_of(t), 'drop'))
    if may_unwind(ex, st, 'drop'):
        return DONE
    return UNIT


NATIVE['usize::next_multiple_of'] = n_next_multiple
NATIVE['contracts::ghost_drop'] = n_ghost_drop
NATIVE['contracts::ghost_drop_z'] = n_ghost_drop
NATIVE['contracts::ghost_alloc'] = n_ghost_alloc
NATIVE['contracts::ghost_point'] = n_ghost_point


# ------------------------------------------------------------------------------------ opaque types

def tname(ex, t):
    return ex.ty[t]['str']


def fresh_name(ex, st, hint):
    """A name for a new unknown value: unique per trace position, indexed by enclosing loops."""
    base, pre = st.ghost.get('tname', (0, ''))
    return Opaque('%s@%s%d' % (hint, pre, len(st.trace) - base), st.ctxk)


def log(st, *ev):
    st.trace = st.trace + (ev,)


def may_unwind(ex, st, why):
    if ex.unwind_calls and ex.nondet(st, 'unwinds'):
        ex.panic(st, 'user:' + why)
        return True
    return False


def obj_of(init):
    return Opaque('obj(%s)' % init.name, init.idx, init.ty)


def size_facts(ex, t):
    x = ex.ty[t]
    hs = ex.size_of(t)

    def mk(p):
        return [f for f in [cmp('>=', p, hs), cmp('<', p, U64)] if not isinstance(f, bool)]
    return mk


def obj_size(ex, obj, t):
    """The size of an object of the unknown VarLen type t."""
    nm = 'size:' + obj.name
    mk = size_facts(ex, t)
    if not obj.idx:
        return CTX.atom(nm, facts=mk)
    if len(obj.idx) == 1:
        extra = ex.obj_facts
        return fam(nm, obj.idx[0], lambda i: mk(fam(nm, i)) + (extra(obj.name, i) if extra else []))
    raise X.Unsupported('object under two indices')


def vl_align(ex, t):
    """ALIGN of the unknown VarLen type t."""
    nm = 'ALIGN:' + tname(ex, t)
    if tname(ex, t) in ex.vl_consts:
        return P(ex.vl_consts[tname(ex, t)])
    al = ex.align_of(t)
    return CTX.atom(nm, pow2=29, facts=lambda p: [f for f in [cmp('>=', p, al)] if not isinstance(f, bool)])


def as_const_ALIGN(ex, st, cargs, names):
    return vl_align(ex, cargs[0])


def as_const_NEEDS(ex, st, cargs, names):
    return z3.Bool('NEEDS_VDROP:' + names[0])


ASSOC = {'varlen::VarLen::ALIGN': as_const_ALIGN, 'varlen::VarLen::NEEDS_VDROP': as_const_NEEDS}


def layout_val(obj):
    return Opaque('layout:' + obj.name, obj.idx)


def obj_of_layout(lay):
    if isinstance(lay, Opaque) and lay.name.startswith('layout:'):
        return Opaque(lay.name[7:], lay.idx)
    raise X.Unsupported('layout %r' % (lay,))


def concrete_varlen(ex, types):
    """Treat these library types as unknown VarLen types: their methods are used by contract
    (which their own roots discharge), not by body. types: {name: ALIGN}"""
    ex.vl_consts.update(types)

    def over(g):
        def h(ex, st, fr, t, f, args, atys, dest):
            if tname(ex, f['args'][0]) not in ex.vl_consts:
                return None
            return g(ex, st, fr, f, args, atys, dest[1])
        return h

    def size(ex, st, fr, t, f, args, atys, dest):
        lay = ex.load_ptr(st, args[0], ex.ty[atys[0]]['to'])
        if not isinstance(lay, Opaque):
            return None
        obj = obj_of_layout(lay)
        if obj.idx:
            raise X.Unsupported('size of an indexed object')
        return obj_size(ex, obj, ex.obj_types[obj.name])
    ex.overrides['varlen::VarLen::calculate_layout'] = over(t_calc_layout)
    ex.overrides['varlen::VarLen::vdrop'] = over(t_vdrop)
    ex.overrides['varlen::VClone::vclone'] = over(t_vclone)
    ex.overrides['varlen::Layout::size'] = size


def layout_type(ex, t):
    """T in <T as VarLen>::Layout"""
    x = ex.ty[t]
    if x['k'] == 'alias':
        return x['args'][0]
    raise X.Unsupported('layout type ' + x['str'])


def t_layout_cautious(ex, st, fr, f, args, atys, dty):
    it, t = f['args'][0], f['args'][1]
    init = ex.load_ptr(st, args[0], it)
    if not isinstance(init, Opaque):
        raise X.Unsupported('initializer %r' % (init,))
    log(st, 'call', 'calculate_layout_cautious', init)
    if may_unwind(ex, st, 'calculate_layout_cautious'):
        return DONE
    obj = obj_of(init)
    ex.obj_types[obj.name] = t
    obj_size(ex, obj, t)
    ok = layout_ok(init)
    if ex.decide(st, ok):
        return Agg([layout_val(obj)], 1)
    return Agg([], 0)


def layout_ok(init):
    return bfam('fits:' + init.name, init.idx[0]) if init.idx else z3.Bool('fits:' + init.name)


def t_layout_size(ex, st, fr, f, args, atys, dty):
    lay = ex.load_ptr(st, args[0], ex.ty[atys[0]]['to'])
    obj = obj_of_layout(lay)
    t = layout_type(ex, f['args'][0])
    return obj_size(ex, obj, t)


def t_initialize(ex, st, fr, f, args, atys, dty):
    it, t = f['args'][0], f['args'][1]
    init, dst, lay = args[0], ex.scalar(args[1]), args[2]
    if not isinstance(init, Opaque):
        raise X.Unsupported('initializer %r' % (init,))
    obj = obj_of(init)
    if lay != layout_val(obj):
        if lay.name != layout_val(obj).name or len(lay.idx) != len(obj.idx) or not all(ex.valid(st, cmp('==', a, b)) for a, b in zip(lay.idx, obj.idx)):
            ex.oblige(st, False, 'contract', 'initialize is called with the layout its own initializer computed')
    sz = obj_size(ex, obj, t)
    if isinstance(dst, Ref):
        raise X.Unsupported('initialize into a local')
    ex.access(st, dst.rid, dst.off, sz, vl_align(ex, t), 'initialize')
    log(st, 'initialize', init, obj, dst)
    if ex.unwind_calls and ex.nondet(st, 'unwinds'):
        if dst.rid is not None:
            st.regions[dst.rid] = st.regions[dst.rid].with_ev(('havoc', dst.off, sz, 'partly initialized'))
        ex.panic(st, 'user:initialize')
        return DONE
    put_obj(ex, st, dst, obj, sz, t)
    return UNIT


def put_obj(ex, st, dst, obj, sz, t):
    if dst.rid is None:
        # a zero-sized object at a dangling address lives at that address
        st.ghost[('dangling', dst.off.key())] = (obj, t)
        return
    st.regions[dst.rid] = st.regions[dst.rid].with_ev(('obj', dst.off, sz, obj, t))


def ev_disjoint(ex, st, ev, off, size):
    """Is the event provably outside [off, off + size)?"""
    k = ev[0]
    if k == 'fam':
        _, kn, cnt, tm = ev
        b0 = psub(tm[1], {kn: Poly.const(0)})
        step = psub(tm[1], {kn: Poly.const(1)}) - b0
        if b0 + step * Poly({(kn,): 1}) == tm[1] and kn not in P(tm[2]).atoms():
            whole = psub(tm[1], {kn: cnt - 1}) + tm[2] - b0
            if ex.valid(st, OR(cmp('<=', cnt, 0), AND(cmp('>=', step, 0), disjoint(b0, whole, off, size)))):
                return True
        return not ex.maybe(st, fam_overlap(ev, off, size))
    return ex.valid(st, disjoint(ev[1], ev[2], off, size))


def fam_overlap(ev, off, size):
    """Some event of the family (a fresh index) shares a byte with [off, off + size)."""
    _, kn, cnt, tm = ev
    j = CTX.atom(CTX.fresh('j'))
    return B(AND(cmp('>=', j, 0), cmp('<', j, cnt), NOT(disjoint(psub(P(tm[1]), {kn: j}), psub(P(tm[2]), {kn: j}), off, size))))


def disjoint(o1, s1, o2, s2):
    return OR(cmp('==', s1, 0), cmp('==', s2, 0), cmp('<=', P(o1) + s1, o2), cmp('<=', P(o2) + s2, o1))


def find_obj(ex, st, rs, rid, off, t, depth=0):
    """The unknown object that starts at off: ('live', obj) | ('dead', obj) | ('none', why)."""
    off = P(off)
    later = []
    for ev in reversed(rs.ev):
        k = ev[0]
        if k == 'obj' and ev[4] != t:
            later.append(ev)
        elif k == 'obj':
            if ev[1] == off or ex.valid(st, cmp('==', ev[1], off)):
                return check_later(ex, st, later, off, ev[3], t)
            if ex.valid(st, cmp('!=', ev[1], off)):
                later.append(ev)
                continue
            if ex.decide(st, cmp('==', ev[1], off)):
                return check_later(ex, st, later, off, ev[3], t)
            later.append(ev)
        elif k == 'copy':
            if ex.valid(st, AND(cmp('>=', off, ev[1]), cmp('<=', off, ev[1] + ev[2]))):
                how, obj = find_obj(ex, st, ev[3], ev[4], off - ev[1] + ev[5], t, depth + 1)
                if how == 'live' and ex.valid(st, cmp('<=', off + obj_size(ex, obj, t), ev[1] + ev[2])):
                    return check_later(ex, st, later, off, obj, t)
                if ex.valid(st, cmp('<', off, ev[1] + ev[2])):
                    return ('none', 'only part of the object was copied') if how == 'live' else (how, obj)
            later.append(ev)
        elif k == 'fam' and ev[3][0] == 'obj':
            r = fam_index(ex, st, ev, off)
            if r is not None:
                return check_later(ex, st, later, off, vsub(ev[3][3], {ev[1]: r}), t)
            later.append(ev)
        else:
            later.append(ev)
    if rs.init is not None and hasattr(rs.init, 'obj_at'):
        obj = rs.init.obj_at(ex, st, rid, off, t)
        if obj is not None:
            return check_later(ex, st, later, off, obj, t)
    return 'none', 'no object starts here'


def fam_index(ex, st, ev, off):
    _, kn, cnt, tm = ev
    eoff = tm[1]
    b0 = psub(eoff, {kn: Poly.const(0)})
    step = psub(eoff, {kn: Poly.const(1)}) - b0
    if b0 + step * Poly({(kn,): 1}) != eoff:
        return None
    q = ex.solve_div(st, P(off) - b0, step)
    if q is not None and ex.valid(st, AND(cmp('>=', q, 0), cmp('<', q, cnt))):
        return q
    return None


def check_later(ex, st, later, off, obj, t):
    sz = obj_size(ex, obj, t)
    for ev in later:
        fam = ev[0] == 'fam'
        tm = ev[3] if fam else ev
        if tm[0] == 'kill' and len(tm) > 4 and tm[4] is not None:
            # an object was dropped
            if tm[4].name != obj.name:
                continue        # another object (of size zero) at this place
            if fam:
                b0 = psub(tm[4].idx[0], {ev[1]: Poly.const(0)}) if len(tm[4].idx) == 1 else None
                if b0 is None or tm[4].idx[0] != b0 + Poly({(ev[1],): 1}):
                    raise X.Unsupported('is the object already dropped?')
                if ex.decide(st, AND(cmp('>=', obj.idx[0] - b0, 0), cmp('<', obj.idx[0] - b0, ev[2]))):
                    return 'dead', obj
            elif ev[1] == off or ex.decide(st, B(cmp('==', ev[1], off))):
                return 'dead', obj
            continue
        if not ev_disjoint(ex, st, ev, off, sz):
            if not ex.decide(st, fam_overlap(ev, off, sz)) if fam else ex.decide(st, B(disjoint(ev[1], ev[2], off, sz))):
                continue
            if tm[0] == 'kill':
                return 'dead', obj
            return 'none', 'the object was overwritten (%s)' % (ev[0],)
    return 'live', obj



def the_obj(ex, st, p, t, what):
    if isinstance(p, Agg):
        p = ex.scalar(p)
    if isinstance(p, Ref):
        v = ex.load(st, ('cell', p.cid, p.path), t)
        if isinstance(v, Opaque):
            return v
        raise X.Unsupported('%s of a local' % what)
    if p.rid is None:
        g = st.ghost.get(('dangling', p.off.key()))
        if g is not None:
            return g[0]
        ex.oblige(st, False, 'memory:' + what, '%s of an object at a dangling address' % what)
        raise X.Infeasible()
    if not st.regions[p.rid].live:
        ex.oblige(st, False, 'use-after-free', '%s of an object in freed memory' % what)
        raise X.Infeasible()
    how, obj = find_obj(ex, st, st.regions[p.rid], p.rid, p.off, t)
    if how == 'live':
        ex.obls.append(X.Obligation('object', ex.where(st), 'proved', what))
        ex.oblige_aligned(st, p, vl_align(ex, t), what)
        return obj
    if how == 'dead':
        ex.oblige(st, False, 'use-after-drop', '%s of an object already dropped (%r)' % (what, obj))
    else:
        ex.oblige(st, False, 'object', '%s where no object is: %s (offset %r)' % (what, obj, p.off))
    raise X.Infeasible()


def t_calc_layout(ex, st, fr, f, args, atys, dty):
    t = f['args'][0]
    obj = the_obj(ex, st, args[0], t, 'calculate_layout')
    ex.obj_types[obj.name] = t
    if ex.log_calc:
        log(st, 'call', 'calculate_layout', obj)
    return layout_val(obj)


def t_vdrop(ex, st, fr, f, args, atys, dty):
    t = f['args'][0]
    p = ex.scalar(args[0])
    obj = the_obj(ex, st, p, t, 'vdrop')
    if args[1] != layout_val(obj):
        lay = args[1]
        if lay.name != layout_val(obj).name or not all(ex.valid(st, cmp('==', a, b)) for a, b in zip(lay.idx, obj.idx)):
            ex.oblige(st, False, 'contract', 'vdrop is called with the object\'s own layout')
    log(st, 'vdrop', obj)
    if isinstance(p, Ptr) and p.rid is not None:
        st.regions[p.rid] = st.regions[p.rid].with_ev(('kill', p.off, obj_size(ex, obj, t), 'vdrop', obj))
    elif isinstance(p, Ptr):
        st.ghost[('dangling', p.off.key())] = None
        del st.ghost[('dangling', p.off.key())]
    if may_unwind(ex, st, 'vdrop'):
        return DONE
    return UNIT


def t_clone(ex, st, fr, f, args, atys, dty):
    t = f['args'][0]
    v = ex.load_ptr(st, args[0], t)
    if isinstance(v, Poly):
        return v
    if t_is_copy(ex, t) and isinstance(v, Opaque):
        pass
    log(st, 'clone', v)
    if may_unwind(ex, st, 'clone'):
        return DONE
    return Opaque('clone(%s)' % v.name, v.idx)


def t_is_copy(ex, t):
    return ex.ty[t]['str'] in ex.copy_types


def t_vclone(ex, st, fr, f, args, atys, dty):
    t = f['args'][0]
    obj = the_obj(ex, st, args[0], t, 'vclone')
    log(st, 'vclone', obj)
    if may_unwind(ex, st, 'vclone'):
        return DONE
    return Opaque('vclone(%s)' % obj.name, obj.idx)


def t_default(ex, st, fr, f, args, atys, dty):
    v = fresh_name(ex, st, 'default')
    log(st, 'default', v)
    if may_unwind(ex, st, 'default'):
        return DONE
    return v


def t_call_mut(ex, st, fr, f, args, atys, dty):
    x = ex.ty[atys[0]]
    while x['k'] in ('ref', 'ptr'):
        x = ex.ty[x['to']]
    if x['k'] not in ('param', 'alias'):
        raise X.Unsupported('call of a value of type ' + x['str'])
    fnv = ex.load_ptr(st, args[0], ex.ty[atys[0]]['to']) if ex.ty[atys[0]]['k'] in ('ref', 'ptr') else args[0]
    v = fresh_name(ex, st, 'result')
    a = args[1]
    log(st, 'call_mut', fnv if isinstance(fnv, Opaque) else None, a, v)
    if may_unwind(ex, st, 'call_mut'):
        return DONE
    return v


def t_size_hint(ex, st, fr, f, args, atys, dty):
    """Iterator::size_hint of an unknown iterator: any lower bound, and perhaps an upper bound."""
    v = fresh_name(ex, st, 'hint')
    num = lambda w: fam('%s:%s' % (w, v.name), v.idx[-1]) if v.idx else CTX.atom('%s:%s' % (w, v.name), hi=U64 - 1)
    lo = num('lo')
    if may_unwind(ex, st, 'size_hint'):
        return DONE
    if ex.nondet(st, 'no-upper-bound'):
        return Agg([lo, Agg([], 0)])
    hi = num('hi')
    st.assume(AND(cmp('<=', lo, hi), cmp('>=', lo, 0), cmp('<=', hi, U64 - 1)))
    st.ghost['upper'] = hi
    return Agg([lo, Agg([hi], 1)])


def t_next(ex, st, fr, f, args, atys, dty):
    """Iterator::next of an unknown iterator."""
    v = fresh_name(ex, st, 'item')
    log(st, 'next', v)
    if may_unwind(ex, st, 'next'):
        return DONE
    ok = bfam('more:' + v.name, v.idx[-1]) if v.idx else z3.Bool('more:' + v.name)
    if ex.decide(st, ok):
        return Agg([v], 1)
    return Agg([], 0)


def t_into_iter(ex, st, fr, f, args, atys, dty):
    log(st, 'into_iter', args[0])
    if may_unwind(ex, st, 'into_iter'):
        return DONE
    return Opaque('iter(%s)' % args[0].name, args[0].idx)


def t_array_init(ex, st, fr, f, args, atys, dty):
    """ArrayInitializer::<T>::initialize(self, dst): every slot is written with element i of self, or it panics."""
    init, dst = args[0], ex.scalar(args[1])
    t = f['args'][1]
    if not isinstance(init, Opaque):
        raise X.Unsupported('array initializer %r' % (init,))
    n = P(dst.meta)
    log(st, 'array_initialize', init, n)
    if isinstance(dst, Ref):
        if not n.is_const():
            raise X.Unsupported('array initializer into a local')
        if may_unwind(ex, st, 'array_initialize'):
            return DONE
        for i in range(n.cval()):
            ex.store(st, ('cell', dst.cid, dst.path + (i,)), t, UnionVal(Opaque('elem(%s)' % init.name, [P(i)])))
        return UNIT
    es = ex.size_of(t)
    ex.access(st, dst.rid, dst.off, es * n, ex.align_of(t), 'array initializer')
    if ex.unwind_calls and ex.nondet(st, 'unwinds'):
        if dst.rid is not None:
            st.regions[dst.rid] = st.regions[dst.rid].with_ev(('havoc', dst.off, es * n, 'partly initialized'))
        ex.panic(st, 'user:array_initialize')
        return DONE
    if dst.rid is not None:
        k = CTX.atom(CTX.fresh('k'))
        st.regions[dst.rid] = st.regions[dst.rid].with_ev(
            ('fam', k.single_atom(), n, ('store', dst.off + es * k, es, t, Opaque('elem(%s)' % init.name, [k]))))
    return UNIT


TRAITS = {
    'varlen::Initializer::calculate_layout_cautious': t_layout_cautious,
    'varlen::Initializer::initialize': t_initialize,
    'varlen::Layout::size': t_layout_size,
    'varlen::VarLen::calculate_layout': t_calc_layout,
    'varlen::VarLen::vdrop': t_vdrop,
    'varlen::array_init::ArrayInitializer::initialize': t_array_init,
    'varlen::VClone::vclone': t_vclone,
    'core::clone::Clone::clone': t_clone,
    'core::default::Default::default': t_default,
    'core::iter::traits::iterator::Iterator::size_hint': t_size_hint,
    'core::ops::function::FnMut::call_mut': t_call_mut,
    'core::ops::function::FnOnce::call_once': t_call_mut,
    'core::iter::traits::iterator::Iterator::next': t_next,
    'core::iter::traits::collect::IntoIterator::into_iter': t_into_iter,
}


def call_drop_impl(ex, st, fr, x, p, ty):
    """Drop::drop of an ADT with a Drop impl: run its body."""
    g = ex.overrides.get('drop-impl')
    if g is not None and g(ex, st, fr, x, p, ty):
        return
    body = ex.root.bodies.get(x['drop'].get('body'))
    if body is None:
        raise X.Unsupported('Drop impl of ' + x['str'])
    f2 = ex.push_call(st, body, [p], None, None, None, 'continue')
