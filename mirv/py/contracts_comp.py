"""Contracts for fixed-length objects, newtypes, tuples and macro-defined structs."""
from contracts_basic import *


class ObjsInit:
    """Memory holding plain values at fixed places and unknown VarLen objects at others."""

    def __init__(self, vals=(), objs=()):
        self.vals, self.objs = list(vals), list(objs)      # (off, size, value) / (off, obj, type)

    def load(self, ex, st, rid, off, size, ty):
        for o, sz, v in self.vals:
            if P(off) == P(o) and P(size) == P(sz):
                return v
        for o, sz, v in self.vals:
            if P(size) == P(sz) and ex.decide(st, cmp('==', off, o)):
                return v
            if hasattr(v, 'elem_at'):
                r = v.elem_at(ex, st, P(off) - o, size, ty)
                if r is not None:
                    return r
        raise X.Unsupported('read of an object at %r' % (off,))

    def obj_at(self, ex, st, rid, off, t):
        for o, obj, ot in self.objs:
            if ot == t and P(off) == P(o):
                return obj
        for o, obj, ot in self.objs:
            if ot == t and ex.valid(st, cmp('==', off, o)):
                return obj
        for o, obj, ot in self.objs:
            if ot == t and ex.decide(st, cmp('==', off, o)):
                return obj
        return None


class ArrVal:
    """A stretch of n values: element k is Opaque(name, k)."""

    def __init__(self, n, es, name):
        self.n, self.es, self.name = P(n), P(es), name

    def elem_at(self, ex, st, rel, size, ty):
        if P(size) != self.es:
            return None
        k = ex.solve_div(st, rel, self.es)
        if k is not None and ex.valid(st, AND(cmp('>=', k, 0), cmp('<', k, self.n))):
            return Opaque(self.name, [k])
        return None


def obj_is(c, o, prop, p, off, t, obj, msg):
    """The unknown object `obj` lives at p+off."""
    def f(s):
        return N.find_obj(c.ex, s, s.regions[p.rid], p.rid, p.off + off, t)
    for s, (how, got) in c.cases(o, f):
        if how != 'live':
            c.bad(s, prop, '%s: %s %s' % (msg, how, got))
        else:
            c.post(s, prop, veq(c, s, got, obj), msg)


def events(o, *kinds):
    return [e for e in o.trace if e[0] in kinds]


def exactly(c, o, prop, kind, want, msg, at=1):
    """The events of this kind are exactly these, in order."""
    got = [e[at] for e in events(o, kind)]
    c.post(o, prop, len(got) == len(want) and all(repr(a) == repr(b) for a, b in zip(got, want)), '%s (%s, expected %s)' % (msg, got, want))


# ------------------------------------------------------------------------------------ FixedLen

def fix_region(c):
    c.st.assume(cmp('<=', c.size('T') + c.align('T'), 2 ** 63))
    return c.ex.new_region(c.st, 'obj', c.size('T'), c.align('T'), 'object', ObjsInit([(P(0), c.size('T'), Opaque('x'))]))


def fix_build(c, how):
    c.st.assume(cmp('<=', c.size('T') + c.align('T'), 2 ** 63))
    pr = 'C03'
    if how == 'build':
        p, arg, want = None, Opaque('v'), Opaque('v')
    else:
        pr = 'C12'
        p = fix_region(c)
        arg, want = p, Opaque('x')
        if how == 'vclone':
            want = Opaque('clone(x)')
        else:
            c.ex.copy_types.add('T')
    outs = c.run([arg])

    def contents(o, q, prop):
        if p is not None:
            c.post(o, prop, q.rid != p.rid, 'the clone is in separate storage')
            unchanged(c, o, p, prop, 'the original is unchanged')
            exactly(c, o, prop, 'clone', [Opaque('x')] if how == 'vclone' else [], 'clone is called once')
        s = c.assume(o, cmp('>=', c.size('T'), 1))
        for s2, v in (c.read(s, q, c.ty('T')) if s else []):
            if isinstance(v, Exception):
                c.bad(s2, prop, 'the value: %s' % v)
            else:
                c.post(s2, prop, veq(c, s2, v, want), 'the value is the one supplied')
        c.post(o, 'C07', not events(o, 'drop'), 'a stored value is not dropped')
    some, none = build_posts(c, outs, c.size('T'), c.align('T'), contents, props=('C01', 'C02', pr))
    for o in outs:
        if user_unwind(o) and how == 'build':
            c.post(o, 'C07', len(events(o, 'drop')) <= 1, 'the value is dropped at most once')


def fix_vdrop(c):
    p = fix_region(c)
    outs = c.run([Agg([p])])
    for o in outs:
        if o.final == 'return' or user_unwind(o):
            drops_of(c, o, 'C07', p, P(0), P(1), c.size('T'), c.ty('T'))
        else:
            c.bad(o, 'C07', 'finishes')
    c.cover('returns', outs)


contract('fix_build', ['C01', 'C02', 'C03', 'C07'], how='build')(fix_build)
contract('fix_vclone', ['C12'], how='vclone')(fix_build)
contract('fix_vcopy', ['C12'], how='vcopy')(fix_build)
contract('fix_vdrop', ['C07'])(fix_vdrop)
contract('fix_consts', ['C01', 'C16'], A=lambda c: c.align('T'), need=lambda c: N.needs_drop(c.ex, c.ty('T')))(consts)


# ------------------------------------------------------------------------------------ tuples and newtypes

def obj_S(c, obj, t):
    return N.obj_size(c.ex, obj, c.ty(t))


def lay(c, fs, h=0):
    """fs: [(size, align)]: ([offset], end)"""
    offs, end = [], P(h)
    for sz, al in fs:
        off = c.up(end, al)
        offs.append(off)
        end = off + sz
    return offs, end


def comp_objs(c, names, tag):
    """Unknown objects of the unknown types `names`: [(type, obj, size, ALIGN)]"""
    out = []
    for t in names:
        obj = Opaque('%s%s' % (tag, t.lower()))
        out.append((t, obj, obj_S(c, obj, t), N.vl_align(c.ex, c.ty(t))))
    return out


def comp_region(c, names, tag='o'):
    """A well-formed object made of unknown objects."""
    co = comp_objs(c, names, tag)
    offs, S = lay(c, [(x[2], x[3]) for x in co])
    A = pick_max(c, [x[3] for x in co])
    c.st.assume(cmp('<=', S + A, 2 ** 63))
    p = c.ex.new_region(c.st, 'obj', S, A, 'object', ObjsInit([], [(o, x[1], c.ty(x[0])) for o, x in zip(offs, co)]))
    return p, co, offs, S, A


def comp_build(c, names):
    inits = [Opaque('i' + t.lower()) for t in names]
    outs = c.run(inits)
    co = [(t, N.obj_of(i), obj_S(c, N.obj_of(i), t), N.vl_align(c.ex, c.ty(t))) for t, i in zip(names, inits)]
    offs, S = lay(c, [(x[2], x[3]) for x in co])
    A = maxp(c, [x[3] for x in co])

    def contents(o, q, prop):
        for off, x in zip(offs, co):
            obj_is(c, o, prop, q, off, c.ty(x[0]), x[1], 'field %s is what its initializer made' % x[0])
        exactly(c, o, prop, 'initialize', inits, 'each initializer is used once, in order')
        c.post(o, 'C07', not events(o, 'drop', 'vdrop'), 'nothing is dropped')
    build_posts(c, outs, S, A, contents, none_ok=OR(*[NOT(N.layout_ok(i)) for i in inits]))
    for o in outs:
        if user_unwind(o) or (o.final == 'return' and o.ret.v == 0):
            used = [e[1] for e in events(o, 'initialize')] + [e[1] for e in events(o, 'drop')]
            if o.final != 'abort' and not (isinstance(o.unwinding, str) and 'drop' in o.unwinding):
                nd = [N.needs_drop(c.ex, c.argty(k)) for k in range(len(inits))]
                for i, n in zip(inits, nd):
                    k = [repr(u) for u in used].count(repr(i))
                    c.post(o, 'C07', k == 1 or (k == 0 and NOT(n)), 'an initializer that was not used is dropped once')


def comp_clone(c, names, copy):
    p, co, offs, S, A = comp_region(c, names)
    outs = c.run([p])
    A2 = maxp(c, [x[3] for x in co])

    def contents(o, q, prop):
        c.post(o, prop, q.rid != p.rid, 'the clone is in separate storage')
        unchanged(c, o, p, prop, 'the original is unchanged')
        for off, x in zip(offs2(o), co):
            want = x[1] if copy else Opaque('obj(vclone(%s))' % x[1].name)
            obj_is(c, o, prop, q, off, c.ty(x[0]), want, 'component %s is cloned' % x[0])
        exactly(c, o, prop, 'vclone', [] if copy else [x[1] for x in co], 'each component is cloned once')

    def sizes():
        return [(x[2] if copy else obj_S(c, Opaque('obj(vclone(%s))' % x[1].name), x[0]), x[3]) for x in co]

    def offs2(o):
        return lay(c, sizes())[0]
    S2 = lay(c, sizes())[1]
    nok = False if copy else OR(*[NOT(N.layout_ok(Opaque('vclone(%s)' % x[1].name))) for x in co])
    build_posts(c, outs, S2, A2, contents, props=('C12', 'C12', 'C12'), none_ok=nok)


def comp_vdrop(c, names):
    p, co, offs, S, A = comp_region(c, names)
    outs = c.run([Agg([p])])
    ret = 0
    for o in outs:
        if o.final == 'return':
            ret += 1
            got = [e[1] for e in events(o, 'vdrop')]
            for x in co:
                k = [repr(g) for g in got].count(repr(x[1]))
                c.post(o, 'C07', True if k == 1 else (k == 0 and NOT(z3.Bool('NEEDS_VDROP:' + x[0]))), 'component %s is dropped exactly once' % x[0])
            c.post(o, 'C07', len(got) <= len(co), 'only the components are dropped')
        elif not user_unwind(o):
            c.bad(o, 'C07', 'finishes: %s' % o.unwinding)
        else:
            got = [repr(e[1]) for e in events(o, 'vdrop')]
            c.post(o, 'C07', len(got) == len(set(got)), 'no component is dropped twice')
    c.cover('returns', ret)


def comp_refs(c, names, mut):
    p, co, offs, S, A = comp_region(c, names)
    outs = c.run([Agg([p]) if mut else p])
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C14', 'finishes: %s' % o.unwinding)
            continue
        fs = o.ret.f if len(co) > 1 else [o.ret]
        for off, x, f in zip(offs, co, fs):
            f = c.ex.scalar(f)
            c.post(o, 'C14', f.rid == p.rid, 'the reference points into the object')
            c.post(o, 'C14', cmp('==', f.off, off), 'the reference is to field %s' % x[0])
            c.ex.oblige_aligned(o, f, x[3], 'field %s' % x[0])
            c.post(o, 'C14', AND(cmp('>=', f.off, 0), cmp('<=', f.off + x[2], S)), 'the field lies in the object')
        for i in range(len(co) - 1):
            c.post(o, 'C14', cmp('<=', c.ex.scalar(fs[i]).off + co[i][2], c.ex.scalar(fs[i + 1]).off), 'fields do not overlap')
        unchanged(c, o, p, 'C14')
    c.cover('returns', outs)


def all_A(names):
    return lambda c: maxp(c, [N.vl_align(c.ex, c.ty(t)) for t in names])


def any_needs(names):
    return lambda c: OR(*[z3.Bool('NEEDS_VDROP:' + t) for t in names])


for _n, _names in (('nt', ['T']), ('tup2', list('AB')), ('tup3', list('ABC')), ('tup4', list('ABCD')), ('tup5', list('ABCDE'))):
    contract(_n + '_build', ['C01', 'C02', 'C03', 'C07'], names=_names)(comp_build)
    contract(_n + '_vdrop', ['C07'], names=_names)(comp_vdrop)
    contract(_n + '_consts', ['C01', 'C16'], A=all_A(_names), need=any_needs(_names), exact=True)(consts)
    if _n == 'nt':
        contract('lift_build', ['C01', 'C02', 'C03', 'C07'], names=_names)(comp_build)
        contract('lift_trick_build', ['C01', 'C02', 'C03', 'C07'], names=_names)(comp_build)
        contract('nt_inner', ['C14'], names=_names, mut=False)(comp_refs)
        contract('nt_inner_mut', ['C14'], names=_names, mut=True)(comp_refs)
    else:
        contract(_n + '_refs', ['C14'], names=_names, mut=False)(comp_refs)
        contract(_n + '_muts', ['C14'], names=_names, mut=True)(comp_refs)
        contract(_n + '_vclone', ['C12'], names=_names, copy=False)(comp_clone)
        contract(_n + '_vcopy', ['C12'], names=_names, copy=True)(comp_clone)
