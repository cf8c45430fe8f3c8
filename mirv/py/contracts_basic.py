"""Contracts for arrays, strings, fixed-length objects, newtypes, tuples and macro-defined structs."""
import z3
from verify import *

LENS = {'usize': 2 ** 64 - 1, 'u8': 255, 'u16': 2 ** 16 - 1, 'u32': 2 ** 32 - 1, 'u64': 2 ** 64 - 1}
BYTES = {'usize': 8, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}
IMAX = 2 ** 63 - 1


def user_unwind(o):
    return o.final in ('unwind', 'abort') and isinstance(o.unwinding, str) and o.unwinding.startswith('user:')


# ------------------------------------------------------------------------------------ shared clauses

def build_posts(c, outs, S, A, contents, fits=True, props=('C01', 'C02', 'C03'), none_ok=None):
    """Clauses of every initializer.
    S, A: the mathematical size and alignment. contents(state, ptr): checks what is stored.
    fits: extra condition under which success is promised."""
    C1, C2, C3 = props
    some = none = 0
    for o in outs:
        if user_unwind(o):
            continue
        if o.final != 'return':
            c.bad(o, C2, 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        r = o.ret
        if r.v == 0:
            none += 1
            g = cmp('>', S + A, IMAX + 1)
            if none_ok is not None:
                g = OR(g, none_ok)
            c.post(o, C2, g, 'a layout is refused only when the object cannot be allocated')
            continue
        some += 1
        s1, s2, al, p = r.f[0].f
        c.post(o, C2, cmp('==', s1, S), 'the computed size is the mathematical size, not a wrapped one')
        c.post(o, C1, cmp('==', s2, s1), 'the finished object recomputes the size it was given')
        c.post(o, C1, cmp('==', s2, S), 'the object\'s size is the mathematical size')
        c.post(o, C1, cmp('==', al, A), 'ALIGN is the largest alignment of header and fields')
        contents(o, p, C3)
    for st, size in c.ex.too_large:
        c.post(st, C2, cmp('==', size, S), 'the size computed for an object that cannot be allocated is its true size')
    c.cover('an object is built', some)
    return some, none


def elems_at(c, o, prop, p, off, n, es, t, want, msg):
    """Elements k = 0..n at p+off hold want(k)."""
    k = c.index()
    # elements without bytes hold no value to compare (the last condition follows from the others)
    s = c.assume(o, cmp('>=', k, 0), cmp('<', k, n), cmp('>=', es, 1), cmp('<=', (k + 1) * es, n * es))
    if s is None:
        return
    for s2, v in c.read(s, Ptr(p.rid, p.off + off + k * es), t):
        w = want(k)
        if isinstance(v, Snap):
            # an array of unknown length as one element: its bytes as a whole
            try:
                v = c.ex.leaf_get(s2, v.rs, v.rid, v.off, es, t)
            except X.Uninit as e:
                v = e
        if isinstance(v, Exception):
            c.bad(s2, prop, msg + ': ' + str(v))
        else:
            c.post(s2, prop, veq(c, s2, v, w), msg)


def veq(c, s, a, b):
    if isinstance(a, UnionVal):
        a = c.ex.scalar(a)
    if isinstance(b, UnionVal):
        b = c.ex.scalar(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return cmp('==', a, b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.name != b.name or len(a.idx) != len(b.idx):
            return False
        return AND(*[cmp('==', x, y) for x, y in zip(a.idx, b.idx)])
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return IFF(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v or len(a.f) != len(b.f):
            return False
        return AND(*[veq(c, s, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Agg) and not isinstance(b, Agg):
        return veq(c, s, c.ex.scalar(a), b) if c.ex.scalar(a) is not a else False
    if isinstance(b, Agg):
        return veq(c, s, a, c.ex.scalar(b)) if c.ex.scalar(b) is not b else False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.rid != b.rid:
            return False
        return AND(cmp('==', a.off, b.off), True if a.meta is None and b.meta is None else cmp('==', a.meta, b.meta))
    return False


def len_at(c, o, prop, p, off, L, n):
    for s2, v in c.read(o, Ptr(p.rid, p.off + off), c.ty(L)):
        if isinstance(v, Exception):
            c.bad(s2, prop, 'length field: ' + str(v))
        else:
            c.post(s2, prop, cmp('==', v, n), 'the length field holds the length')


# ------------------------------------------------------------------------------------ arrays

def arr_spec(c, L, n, t='T'):
    """(header, offset of the elements, size, alignment)"""
    h = BYTES[L]
    al, es = c.align(t), c.size(t)
    off = c.up(h, al)
    A = maxp(c, [P(h), al])
    return h, off, off + es * n, A


def maxp(c, ps):
    m = ps[0]
    for p in ps[1:]:
        m = minmax('max', m, p)
    return m


def arr_build(c, L, elem='elem(init)'):
    n = CTX.atom('n', hi=LENS[L])
    outs = c.run([n, Opaque('init')])
    h, off, S, A = arr_spec(c, L, n)
    es = c.size('T')

    def contents(o, p, prop):
        len_at(c, o, prop, p, 0, L, n)
        elems_at(c, o, prop, p, off, n, es, c.ty('T'), lambda k: Opaque(elem, [k]), 'element k is what the initializer supplied for k')
    build_posts(c, outs, S, A, contents)


class ArrInit:
    """A well-formed array object: the length field; element k is Opaque(name, k) (or a byte)."""

    def __init__(self, L, n, off, es, name, byte=False):
        self.L, self.n, self.off, self.es, self.name, self.byte = L, n, off, es, name, byte

    def load(self, ex, st, rid, off, size, ty):
        if off == P(0) and ex.T(ty)['str'] == self.L:
            return self.n
        d = P(off) - self.off
        k = ex.solve_div(st, d, self.es)
        if k is not None and (P(size) == P(self.es)):
            if ex.decide(st, AND(cmp('>=', k, 0), cmp('<', k, self.n))):
                if self.byte:
                    return fam('byte:' + self.name, k, lambda i: [cmp('<=', fam('byte:' + self.name, i), 255)])
                return Opaque(self.name, [k])
        raise X.Unsupported('read of an array object at %r' % (off,))


def arr_object(c, L, name='a', t='T', byte=False):
    """Adds a well-formed array to the state: (pointer, n, off, S, A)"""
    n = CTX.atom('n:' + name, hi=LENS[L])
    h, off, S, A = arr_spec(c, L, n, t)
    es = c.size(t)
    c.st.assume(cmp('<=', S + A, 2 ** 63))
    A = pick_max(c, [P(h), c.align(t)])
    p = c.ex.new_region(c.st, 'obj:' + name, S, A, 'object', ArrInit(L, n, off, es, 'elem(%s)' % name, byte))
    return p, n, off, S, A


def pick_max(c, ps):
    """The larger of some powers of two as an alignment that each of them divides."""
    if all(p.is_const() for p in ps):
        return P(max(p.cval() for p in ps))
    key = '|'.join(repr(p) for p in ps)
    m = CTX.atom('maxalign:' + key, pow2=29)
    t = CTX.term['maxalign:' + key]
    fs = [cmp('>=', m, p) for p in ps] + [OR(*[cmp('==', m, p) for p in ps])]
    CTX.addf(t, [f for f in fs if not isinstance(f, bool)])
    return m


def unchanged(c, o, p, prop, msg='the object is not written'):
    """No event was added to the region of p."""
    ev = o.regions[p.rid].ev
    if ev:
        c.bad(o, prop, msg + ': %s' % (ev[0][0],))
    else:
        c.post(o, prop, True, msg)


def arr_ref(c, L, mut=False):
    p, n, off, S, A = arr_object(c, L)
    outs = c.run([Agg([p]) if mut else p])
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C03', 'finishes: %s' % o.unwinding)
            continue
        s = o.ret if mut else o.ret.f[0]
        s = c.ex.scalar(s)
        if not mut:
            c.post(o, 'C03', cmp('==', c.ex.scalar(o.ret.f[1]), n), 'len_short is the length')
        c.post(o, 'C03', s.rid == p.rid, 'the slice points into the object')
        c.post(o, 'C03', cmp('==', s.off, off), 'the slice starts at the first element')
        c.post(o, 'C03', cmp('==', s.meta, n), 'the slice has the object\'s length')
        unchanged(c, o, p, 'C03')
    c.cover('returns', outs)


for _L in LENS:
    contract('arr_build_' + _L, ['C01', 'C02', 'C03'], L=_L)(arr_build)
    contract('arr_ref_' + _L, ['C01', 'C03'], L=_L)(arr_ref)
    contract('arr_mut_' + _L, ['C01', 'C03'], L=_L, mut=True)(arr_ref)


# ---- from slices

class SliceInit:
    """n initialized values: element k is Opaque(name, k), or byte k of name."""

    def __init__(self, n, es, name, byte=False):
        self.n, self.es, self.name, self.byte = P(n), P(es), name, byte

    def elem(self, k):
        return src_byte(self.name, k) if self.byte else Opaque(self.name, [k])

    def load(self, ex, st, rid, off, size, ty):
        k = ex.solve_div(st, P(off), self.es)
        if k is not None and P(size) == self.es and ex.valid(st, AND(cmp('>=', k, 0), cmp('<', k, self.n))):
            return self.elem(k)
        raise X.Unsupported('read of a slice at %r' % (off,))


def src_byte(name, k):
    return fam('byte:' + name, k, lambda i: [cmp('<=', fam('byte:' + name, i), 255)])


def slice_arg(c, name='src', t='T', byte=False, uninit=False, n=None):
    n = CTX.atom('len:' + name, hi=IMAX) if n is None else P(n)
    es = c.size(t)
    c.st.assume(cmp('<=', n * es + c.align(t), 2 ** 63))
    p = c.ex.new_region(c.st, name, n * es, c.align(t), 'slice', None if uninit else SliceInit(n, es, name, byte))
    return Ptr(p.rid, p.off, n), n


def arr_try(c, L):
    p, n = slice_arg(c)
    outs = c.run([p])
    some = 0
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C10', 'finishes: %s' % o.unwinding)
            continue
        c.post(o, 'C10', cmp('<=', n, LENS[L]) if o.ret.v == 1 else cmp('>', n, LENS[L]), 'succeeds exactly when the length fits')
        if o.ret.v == 1:
            some += 1
            ln, src = o.ret.f[0].f
            c.post(o, 'C10', cmp('==', c.ex.scalar(ln), n), 'the length is the slice\'s')
            c.post(o, 'C10', veq(c, o, c.ex.scalar(src), p), 'the whole slice is the source')
    c.cover('succeeds', some)


def arr_from(c, clone):
    p, n = slice_arg(c)
    if not clone:
        c.ex.copy_types.add('T')
    outs = c.run([p])
    h, off, S, A = arr_spec(c, 'usize', n)
    es = c.size('T')
    want = 'clone(src)' if clone else 'src'

    def contents(o, q, prop):
        len_at(c, o, prop, q, 0, 'usize', n)
        elems_at(c, o, prop, q, off, n, es, c.ty('T'), lambda k: Opaque(want, [k]), 'element k is that of the source')
    build_posts(c, outs, S, A, contents)


def arr_clone(c, L, copy):
    p, n, off, S, A = arr_object(c, L)
    if copy:
        c.ex.copy_types.add('T')
    outs = c.run([p])
    es = c.size('T')
    want = 'elem(a)' if copy else 'clone(elem(a))'

    def contents(o, q, prop):
        c.post(o, 'C12', q.rid != p.rid, 'the clone is in separate storage')
        unchanged(c, o, p, 'C12', 'the original is unchanged')
        len_at(c, o, 'C12', q, 0, L, n)
        elems_at(c, o, 'C12', q, off, n, es, c.ty('T'), lambda k: Opaque(want, [k]), 'element k is the clone of element k')
        if not copy:
            once_each(c, o, 'C12', 'clone', n, lambda k: Opaque('elem(a)', [k]))
    build_posts(c, outs, S, maxp(c, [P(BYTES[L]), c.align('T')]), contents, props=('C12', 'C12', 'C12'))


def calls(o, kind):
    """The events of the trace of a kind, families included: [(count or None, index atom, event)]"""
    out = []

    def walk(evs, fams):
        for e in evs:
            if e[0] == 'fam':
                walk([e[3]] if not isinstance(e[3][0], tuple) else e[3], fams + [(e[1], e[2])])
            elif e[0] == kind:
                out.append((fams, e))
    walk(o.trace, [])
    return out


def once_each(c, o, prop, kind, n, want, at=1):
    """The events of this kind are exactly: want(0), ..., want(n-1), in order."""
    es = calls(o, kind)
    total = P(0)
    for fams, e in es:
        if len(fams) > 1:
            c.ex.obls.append(X.Obligation('post:' + prop, kind, 'unknown', 'nested families of events'))
            return
        if fams:
            kn, cnt = fams[0]
            s = c.assume(o, cmp('>=', Poly({(kn,): 1}), 0), cmp('<', Poly({(kn,): 1}), cnt))
            if s is not None:
                c.post(s, prop, veq(c, s, e[at], want(total + Poly({(kn,): 1}))), '%s of each value, in order' % kind)
            total = total + cnt
        else:
            c.post(o, prop, veq(c, o, e[at], want(total)), '%s of each value, in order' % kind)
            total = total + 1
    c.post(o, prop, cmp('==', total, n), '%s exactly once per value' % kind)


def arr_vdrop(c, L, byte=False):
    p, n, off, S, A = arr_object(c, L)
    es = c.size('T')
    outs = c.run([Agg([p])])
    for o in outs:
        if o.final == 'return' or user_unwind(o):
            drops_of(c, o, 'C07', p, off, n, es, c.ty('T'))
        else:
            c.bad(o, 'C07', 'finishes: %s %s' % (o.final, o.unwinding))
    c.cover('returns', [o for o in outs if o.final == 'return'])


def drops_of(c, o, prop, p, off, n, es, t):
    """Exactly the elements at p+off+k*es, 0 <= k < n, are dropped, each once."""
    nd = N.needs_drop(c.ex, t)
    es_ = calls(o, 'drop')
    total = P(0)
    for fams, e in es_:
        where = e[2]
        if where[0] != 'mem' or where[1] != p.rid or len(fams) > 1:
            c.bad(o, prop, 'a drop outside the object')
            return
        if fams:
            kn, cnt = fams[0]
            kk = Poly({(kn,): 1})
            s = c.assume(o, cmp('>=', kk, 0), cmp('<', kk, cnt))
            if s is not None:
                c.post(s, prop, cmp('==', where[2], p.off + off + (total + kk) * es), 'the elements are dropped, in order')
            total = total + cnt
        else:
            c.post(o, prop, cmp('==', where[2], p.off + off + total * es), 'the elements are dropped, in order')
            total = total + 1
    c.post(o, prop, OR(cmp('==', total, n), NOT(nd)), 'each element is dropped exactly once')


def consts(c, A, need, exact=False):
    """A(c): the expected ALIGN; need(c): whether some component has a destructor."""
    outs = c.run([])
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C16', 'finishes')
            continue
        al, nv = o.ret.f
        c.post(o, 'C01', cmp('==', al, A(c)), 'ALIGN is the largest alignment of header and fields')
        c.post(o, 'C16', IMPL(need(c), nv), 'NEEDS_VDROP is reported when a component has a destructor')
        if exact:
            c.post(o, 'C16', IFF(need(c), nv), 'NEEDS_VDROP is the disjunction over the components')
    c.cover('returns', outs)


def len_conv(c, L):
    n = CTX.atom('n', hi=2 ** 64 - 1)
    outs = c.run([n])
    some = none = 0
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C10', 'finishes')
            continue
        r, back = o.ret.f
        if r.v == 1:
            some += 1
            c.post(o, 'C10', cmp('<=', n, LENS[L]), 'a length too large is refused')
            c.post(o, 'C10', cmp('==', back, n), 'converting back yields the length')
            c.post(o, 'C10', cmp('==', r.f[0], n), 'the length is kept')
        else:
            none += 1
            c.post(o, 'C10', cmp('>', n, LENS[L]), 'a length that fits is accepted')
    c.cover('accepts', some)


for _L in LENS:
    contract('arr_trycopy_' + _L, ['C10'], L=_L)(arr_try)
    contract('arr_tryclone_' + _L, ['C10'], L=_L)(arr_try)
    contract('arr_vclone_' + _L, ['C12'], L=_L, copy=False)(arr_clone)
    contract('arr_vcopy_' + _L, ['C12'], L=_L, copy=True)(arr_clone)
    contract('arr_vdrop_' + _L, ['C07'], L=_L)(arr_vdrop)
    contract('arr_consts_' + _L, ['C01', 'C16'], A=(lambda L: lambda c: maxp(c, [P(BYTES[L]), c.align('T')]))(_L),
             need=lambda c: N.needs_drop(c.ex, c.ty('T')), exact=True)(consts)
    contract('len_conv_' + _L, ['C10'], L=_L)(len_conv)
contract('arr_copy', ['C01', 'C02', 'C03'], clone=False)(arr_from)
contract('arr_clone_from', ['C01', 'C02', 'C03'], clone=True)(arr_from)


# ------------------------------------------------------------------------------------ strings

def str_contents(c, L, n, off, srcname):
    def contents(o, q, prop):
        len_at(c, o, prop, q, 0, L, n)
        elems_at(c, o, prop, q, off, n, P(1), c.ty('u8'), lambda k: src_byte(srcname, k), 'byte k is byte k of the source')
    return contents


def str_build(c, L):
    p, n = slice_arg(c, 's', 'u8', byte=True)
    outs = c.run([p])
    h, off, S, A = arr_spec(c, L, n, 'u8')
    cont = str_contents(c, L, n, off, 's')
    build_posts(c, outs, S, A, lambda o, q, prop: (cont(o, q, 'C11'), cont(o, q, 'C03')), none_ok=cmp('>', n, LENS[L]))
    for o in outs:
        if o.final == 'return':
            c.post(o, 'C10', cmp('<=', n, LENS[L]) if o.ret.v == 1 else OR(cmp('>', n, LENS[L]), cmp('>', S + A, IMAX + 1)),
                   'a string is created exactly when its length fits')


def str_ref(c, L, mut=False):
    p, n, off, S, A = arr_object(c, L, 's', 'u8', byte=True)
    outs = c.run([Agg([p]) if mut else p])
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C11', 'finishes: %s' % o.unwinding)
            continue
        s = c.ex.scalar(o.ret)
        c.post(o, 'C11', s.rid == p.rid, 'the str points into the object')
        c.post(o, 'C11', cmp('==', s.off, off), 'the str starts at the first byte')
        c.post(o, 'C11', cmp('==', s.meta, n), 'the str has the object\'s length')
        unchanged(c, o, p, 'C11')
    c.cover('returns', outs)


def str_clone(c, L):
    p, n, off, S, A = arr_object(c, L, 's', 'u8', byte=True)
    outs = c.run([p])
    cont = str_contents(c, L, n, off, 'elem(s)')

    def contents(o, q, prop):
        c.post(o, 'C12', q.rid != p.rid, 'the clone is in separate storage')
        unchanged(c, o, p, 'C12', 'the original is unchanged')
        cont(o, q, 'C12')
        cont(o, q, 'C11')
    build_posts(c, outs, S, A, contents, props=('C12', 'C12', 'C12'))


def str_vdrop(c, L):
    p, n, off, S, A = arr_object(c, L, 's', 'u8', byte=True)
    outs = c.run([Agg([p])])
    for o in outs:
        c.post(o, 'C07', o.final == 'return', 'finishes')
        c.post(o, 'C07', not calls(o, 'drop') and not calls(o, 'dealloc'), 'there is nothing to drop')
    c.cover('returns', outs)


for _L in LENS:
    contract('str_build_' + _L, ['C01', 'C02', 'C03', 'C10', 'C11'], L=_L)(str_build)
    contract('str_ref_' + _L, ['C11'], L=_L)(str_ref)
    contract('str_mut_' + _L, ['C11'], L=_L, mut=True)(str_ref)
    contract('str_vclone_' + _L, ['C11', 'C12'], L=_L)(str_clone)
    contract('str_vcopy_' + _L, ['C11', 'C12'], L=_L)(str_clone)
    contract('str_vdrop_' + _L, ['C07'], L=_L)(str_vdrop)
    contract('str_consts_' + _L, ['C01', 'C16'], A=(lambda L: lambda c: P(BYTES[L]))(_L), need=lambda c: False, exact=True)(consts)
contract('str_copy', ['C01', 'C02', 'C03', 'C10', 'C11'], L='usize')(str_build)


# ------------------------------------------------------------------------------------ array initializers

def slots(c, kind):
    """dst: n uninitialized slots."""
    n = CTX.atom('n', hi=IMAX)
    es = c.size(kind)
    c.st.assume(cmp('<=', n * es + c.align(kind), 2 ** 63))
    p = c.ex.new_region(c.st, 'dst', n * es, c.align(kind), 'slice')
    return Ptr(p.rid, p.off, n), n, es


def slot_posts(c, o, p, n, es, want, t='T'):
    elems_at(c, o, 'C09', p, P(0), n, es, c.ty(t), want, 'slot k holds what the initializer promises for k')


def filled_by(c, o, p, n, es, kind, arg, val):
    """The events of this kind are one per slot, in order, and their value is in the slot."""
    total = P(0)
    t = c.ty('T')
    for fams, e in calls(o, kind):
        if len(fams) > 1:
            raise X.Unsupported('nested families of events')
        s, kk = o, P(0)
        if fams:
            kn, cnt = fams[0]
            kk = Poly({(kn,): 1})
            s = c.assume(o, cmp('>=', kk, 0), cmp('<', kk, cnt), cmp('>=', es, 1))
        else:
            s = c.assume(o, cmp('>=', es, 1))
        if s is not None:
            if arg is not None:
                c.post(s, 'C09', arg(e, total + kk), '%s is called with the index, in increasing order' % kind)
            if o.final == 'return':
                for s2, v in c.read(s, Ptr(p.rid, p.off + (total + kk) * es), t):
                    if isinstance(v, Exception):
                        c.bad(s2, 'C09', 'slot k: %s' % v)
                    else:
                        c.post(s2, 'C09', veq(c, s2, v, val(e)), 'slot k holds the value of call k')
        total = total + (fams[0][1] if fams else 1)
    if o.final == 'return':
        c.post(o, 'C09', cmp('==', total, n), '%s exactly once per slot' % kind)
    else:
        c.post(o, 'C09', cmp('<=', total, n), '%s at most once per slot' % kind)


def ai_fill_seq(c):
    p, n, es = slots(c, 'T')
    outs = c.run([Opaque('f'), p])
    for o in outs:
        if o.final != 'return' and not user_unwind(o):
            c.bad(o, 'C09', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        filled_by(c, o, p, n, es, 'call_mut', lambda e, k: cmp('==', c.ex.scalar(e[2]), k), lambda e: e[3])
    c.cover('returns', [o for o in outs if o.final == 'return'])


def ai_default(c):
    p, n, es = slots(c, 'T')
    outs = c.run([p])
    for o in outs:
        if o.final != 'return' and not user_unwind(o):
            c.bad(o, 'C09', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        filled_by(c, o, p, n, es, 'default', None, lambda e: e[1])
    c.cover('returns', [o for o in outs if o.final == 'return'])


def ai_src(c, clone):
    p, n, es = slots(c, 'T')
    s, m = slice_arg(c)
    if not clone:
        c.ex.copy_types.add('T')
    outs = c.run([s, p])
    want = 'clone(src)' if clone else 'src'
    ret = 0
    for o in outs:
        if user_unwind(o):
            continue
        if o.final == 'return':
            ret += 1
            c.post(o, 'C09', cmp('==', n, m), 'a source of another length is refused')
            slot_posts(c, o, p, n, es, lambda k: Opaque(want, [k]))
            if clone:
                once_each(c, o, 'C09', 'clone', n, lambda k: Opaque('src', [k]))
        else:
            c.post(o, 'C09', cmp('!=', n, m), 'panics only for a source of another length')
    c.cover('returns', ret)


def ai_iter(c):
    p, n, es = slots(c, 'T')
    outs = c.run([Opaque('it'), p])
    ret = 0
    for o in outs:
        if user_unwind(o):
            continue
        ev = calls(o, 'next')
        if o.final == 'return':
            ret += 1
            filled_by(c, o, p, n, es, 'next', None, lambda e: e[1])
        else:
            # the only panic: the iterator has ended
            last = ev[-1] if ev else None
            if last is None or last[0]:
                c.bad(o, 'C09', 'finishes: %s %s' % (o.final, o.unwinding))
                continue
            v = last[1][1]
            more = bfam('more:' + v.name, v.idx[-1]) if v.idx else z3.Bool('more:' + v.name)
            c.post(o, 'C09', NOT(more), 'panics only when the iterator has ended')
    c.cover('returns', ret)


def ai_move(c, N):
    p, n, es = slots(c, 'T')
    vals = [Opaque('v%d' % i) for i in range(N)]
    outs = c.run([Agg(vals), p])
    ret = 0
    for o in outs:
        if user_unwind(o):
            continue
        if o.final == 'return':
            ret += 1
            c.post(o, 'C09', cmp('==', n, N), 'a destination of another length is refused')
            for i in range(N):
                s = c.assume(o, cmp('>=', es, 1))
                for s2, v in (c.read(s, Ptr(p.rid, es * i), c.ty('T')) if s else []):
                    if isinstance(v, Exception):
                        c.bad(s2, 'C09', 'slot %d: %s' % (i, v))
                    else:
                        c.post(s2, 'C09', veq(c, s2, v, vals[i]), 'slot %d holds element %d' % (i, i))
            c.post(o, 'C07', not calls(o, 'drop'), 'a moved value is not dropped')
        else:
            c.post(o, 'C09', cmp('!=', n, N), 'panics only for a destination of another length')
    c.cover('returns', ret)


def ai_move_all(c, t='T'):
    """MoveFrom for every length; also at an element type that is Copy, which core may specialize on."""
    p, n, es = slots(c, t)
    N = c.ex.const_param('N')
    s, _ = slice_arg(c, t=t, n=N)
    c.ex.has_snap = True
    outs = c.run([Snap(c.st.regions[s.rid], s.rid, 0), p])
    ret = 0
    for o in outs:
        if user_unwind(o):
            continue
        drops = calls(o, 'drop')
        if o.final == 'return':
            ret += 1
            c.post(o, 'C09', cmp('==', n, N), 'a destination of another length is refused')
            slot_posts(c, o, p, n, es, lambda k: Opaque('src', [k]), t)
            c.post(o, 'C07', not drops, 'a moved value is not dropped')
        else:
            c.post(o, 'C09', cmp('!=', n, N), 'panics only for a destination of another length')
            total = P(0)
            for fams, e in drops:
                total = total + (fams[0][1] if fams else 1)
            if t == 'T':
                c.post(o, 'C07', cmp('==', total, N), 'a refused source is dropped: every element of it')
    c.cover('returns', ret)


def new_array_all(c):
    N = c.ex.const_param('N')
    c.st.assume(cmp('<=', N * c.size('T') + c.align('T'), 2 ** 63))     # [T; N] is a type
    outs = c.run([Opaque('init')])
    for o in outs:
        if user_unwind(o):
            continue
        if o.final != 'return':
            c.bad(o, 'C09', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        v = c.ex.scalar(o.ret)
        o.regions[v.rid] = v.rs
        elems_at(c, o, 'C09', Ptr(v.rid, v.off), P(0), N, c.size('T'), c.ty('T'), lambda k: Opaque('elem(init)', [k]), 'element k is what the initializer supplied')
    c.cover('returns', [o for o in outs if o.final == 'return'])


def new_array(c, N):
    c.st.assume(cmp('<=', N * c.size('T') + c.align('T'), 2 ** 63))     # [T; N] is a type
    outs = c.run([Opaque('init')])
    for o in outs:
        if user_unwind(o):
            continue
        if o.final != 'return':
            c.bad(o, 'C09', 'finishes: %s %s' % (o.final, o.unwinding))
            continue
        s = c.assume(o, cmp('>=', c.size('T'), 1))
        for i in range(N):
            if s is not None:
                c.post(s, 'C09', veq(c, s, c.ex.scalar(o.ret.f[i]), Opaque('elem(init)', [P(i)])), 'element %d is what the initializer supplied' % i)
    c.cover('returns', [o for o in outs if o.final == 'return'])


contract('ai_fill_seq', ['C09'])(ai_fill_seq)
contract('ai_default', ['C09'])(ai_default)
contract('ai_copy', ['C09'], clone=False)(ai_src)
contract('ai_clone', ['C09'], clone=True)(ai_src)
contract('ai_iter', ['C09'])(ai_iter)
contract('ai_move', ['C09', 'C07'])(ai_move_all)
contract('ai_move_copy', ['C09'], t='u32')(ai_move_all)
contract('new_array', ['C09'])(new_array_all)
for _n in (0, 1, 3):
    contract('ai_move%d' % _n, ['C09', 'C07'], N=_n)(ai_move)
for _n in (0, 3):
    contract('new_array%d' % _n, ['C09'], N=_n)(new_array)
