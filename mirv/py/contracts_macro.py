"""Contracts for structs defined with #[define_varlen]: the sample structs of the harness (gen.rs),
which cover the field kinds and their combinations."""
import json
import os
from contracts_comp import *

VL = {'varlen::Str': 8, 'varlen::Array<u16, u8>': 2, 'varlen::Str<u32>': 4, 'varlen::Array<u8, u16>': 2}
INTS = {'u8': 255, 'u16': 2 ** 16 - 1, 'u32': 2 ** 32 - 1, 'usize': 2 ** 64 - 1, 'u64': 2 ** 64 - 1}


def either(c, x, y):
    """x where c holds, y elsewhere"""
    x, y = P(x), P(y)
    return CTX.atom('if(%s,%r,%r)' % (c, x, y), facts=lambda p: [IMPL(c, cmp('==', p, x)), IMPL(NOT(c), cmp('==', p, y))])


# fields in declaration order: (name, 'val' | 'ctl' | 'obj' | 'arr', type, number of elements)
STRUCTS = {
    'm_person': ('gen::Person', [('age', 'val', 'u8'), ('name', 'obj', 'varlen::Str'), ('id', 'val', 'u32'), ('tags', 'obj', 'varlen::Array<u16, u8>')],
                 ['age', 'id', 'name', 'tags']),
    'm_arrays': ('gen::Arrays', [('len', 'ctl', 'usize'), ('a1', 'arr', 'u16', lambda e: e['len']), ('a2', 'arr', 'u8', lambda e: e['len']),
                                 ('half', 'arr', 'u32', lambda e: quotient(e['len'], 2))], ['len', 'a1', 'a2', 'half']),
    'm_mixed': ('gen::Mixed', [('n', 'ctl', 'u8'), ('tag', 'val', 'gen::Dr'), ('m', 'ctl', 'u16'), ('xs', 'arr', 'gen::Dr', lambda e: e['n']),
                               ('s', 'obj', 'varlen::Str<u32>'), ('ys', 'arr', 'u64', lambda e: e['m'])], ['n', 'tag', 'm', 'xs', 's', 'ys']),
    'm_gf': ('gen::GenField<T>', [('f', 'obj', 'T')], ['f']),
    'm_ga': ('gen::GenArr<T>', [('len', 'ctl', 'u16'), ('xs', 'arr', 'T', lambda e: e['len']), ('ys', 'arr', 'T', lambda e: quotient(e['len'], 4))],
             ['len', 'xs', 'ys']),
    'm_full': ('gen::Full<F, G, E>', [('p', 'val', 'gen::Dz'), ('n', 'ctl', 'u32'), ('f', 'obj', 'F'), ('q', 'val', 'u64'), ('xs', 'arr', 'E', lambda e: e['n']), ('g', 'obj', 'G')],
               ['p', 'n', 'q', 'f', 'xs', 'g']),
    'm_grid': ('gen::Grid', [('r', 'ctl', 'u8'), ('c', 'ctl', 'u16'), ('cells', 'arr', 'u16', lambda e: e['r'] * e['c']), ('t', 'val', 'u8'), ('k', 'ctl', 'u8'),
                             ('mix', 'arr', 'u8', lambda e: e['k'] + e['r']), ('rows', 'arr', 'u32', lambda e: e['r'])], ['r', 'c', 'cells', 't', 'k', 'mix', 'rows']),
    'm_behind': ('gen::Behind', [('xs', 'arr', 'u16', lambda e: e['n'] + e['m']), ('plain', 'val', 'u32'), ('s', 'obj', 'varlen::Str<u32>'), ('m', 'ctl', 'gen::Dr'), ('n', 'ctl', 'u8')],
                 ['xs', 'plain', 's', 'm', 'n']),
    'm_borrow': ("gen::Borrow<'_, T, N>", [('n', 'ctl', 'u16'), ('refs', 'arr', '&T', lambda e: e['n']), ('blocks', 'arr', '[T; N]', lambda e: e['n'] + 1)], ['n', 'refs', 'blocks']),
    'm_cond': ('gen::Cond<T>', [('k', 'ctl', 'u8'), ('n', 'ctl', 'u16'), ('xs', 'arr', 'u32', lambda e: either(cmp('>', e['k'], 3), e['n'], 2)), ('f', 'obj', 'T')],
               ['k', 'n', 'xs', 'f']),
    # (through a newtype)
    'm_decoy': ('gen::Decoy', [('n', 'ctl', 'u8'), ('xs', 'arr', 'gen::Dr', lambda e: e['n'])], ['n', 'xs']),
    'm_flat': ('gen::Flat', [('a', 'val', 'u8'), ('b', 'val', 'gen::Dr'), ('c', 'val', 'gen::Dz'), ('d', 'val', 'u64')], ['a', 'b', 'c', 'd']),
    'm_mark': ('gen::Mark', [('a', 'val', 'u16'), ('z', 'val', 'gen::Dz')], ['a', 'z']),
}


def _spec():
    """The shapes drawn by shapes/make.py."""
    def num(t):
        if isinstance(t, int):
            return lambda e: P(t)
        if t[0] == 'v':
            return lambda e: e[t[1]]
        x, y = num(t[1]), num(t[2])
        return {'+': lambda e: x(e) + y(e), '/': lambda e: quotient(x(e), t[2])}[t[0]]
    full = {'Dr': 'gen::Dr', 'Dz': 'gen::Dz'}
    full.update((k.replace('varlen::', ''), k) for k in VL)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shapes.json')) as f:
        for nm, s in json.load(f).items():
            fs = [(f[0], f[1], full.get(f[2], f[2])) + ((num(f[3]),) if f[1] == 'arr' else ()) for f in s['fields']]
            STRUCTS[nm] = (s['type'], fs, [f[0] for f in fs])


_spec()


class Fld:
    pass


def schema(c, nm, tag, obj=lambda n: Opaque('o' + n), elem=lambda n: 'elem(o%s)' % n):
    """The mathematical layout of a struct: (fields, header size, size, alignments)"""
    sty, fs, args = STRUCTS[nm]
    N.concrete_varlen(c.ex, {k: v for k, v in VL.items() if any(f[2] == k for f in fs)})
    # the exact facts of bodies are not used for the field types: their contracts are
    t = c.ty(sty)
    env = {}
    out = []
    for i, f in enumerate(fs):
        x = Fld()
        x.name, x.kind, x.tyname, x.i = f[0], f[1], f[2], i
        x.ty = c.ty(f[2])
        if x.kind in ('val', 'ctl'):
            x.off, x.size, x.align = P(c.ex.field_off(t, i)), c.size(x.ty), c.align(x.ty)
            x.val = Opaque('%s:%s' % (tag, x.name)) if c.ex.ty[x.ty]['k'] == 'param' else CTX.atom('%s:%s' % (tag, x.name), hi=INTS.get(x.tyname, 2 ** 32 - 1))
            env[x.name] = x.val
        out.append(x)
    H = c.ex.size_of(t)
    end, aligns = P(H), [c.ex.align_of(t)]
    for f, x in zip(fs, out):
        if x.kind == 'obj':
            x.obj = obj(x.name)
            x.align, x.size = N.vl_align(c.ex, x.ty), N.obj_size(c.ex, x.obj, x.ty)
            c.ex.obj_types[x.obj.name] = x.ty
        elif x.kind == 'arr':
            x.n, x.es = f[3](env), c.size(x.ty)
            if c.ex.ty[x.ty]['k'] == 'array':
                c.st.assume(cmp('<=', x.es, 2 ** 63 - 1))       # (rustc accepts no larger type)
            x.align, x.size = c.align(x.ty), x.n * x.es
            x.elem = elem(x.name)
        else:
            continue
        x.off = c.up(end, x.align)
        end = x.off + x.size
        aligns.append(x.align)
    return out, P(H), end, aligns


def m_object(c, nm):
    fs, H, S, aligns = schema(c, nm, 'o')
    A = pick_max(c, aligns)
    c.st.assume(cmp('<=', S + A, 2 ** 63))
    vals, objs = [], []
    for x in fs:
        if x.kind in ('val', 'ctl'):
            vals.append((x.off, x.size, x.val))
        elif x.kind == 'obj':
            objs.append((x.off, x.obj, x.ty))
        else:
            vals.append((x.off, x.size, ArrVal(x.n, x.es, x.elem)))
    p = c.ex.new_region(c.st, 'obj', S, A, 'object', ObjsInit(vals, objs))
    return p, fs, H, S, A


def m_build(c, nm):
    sty, _, order = STRUCTS[nm]
    fs, H, S, aligns = schema(c, nm, 'arg', lambda n: N.obj_of(Opaque('i' + n)), lambda n: 'elem(i%s)' % n)
    by = {x.name: x for x in fs}
    args = []
    for k, a in enumerate(order):
        x = by[a]
        args.append(c.ex.wrap(x.val, c.argty(k)) if x.kind in ('val', 'ctl') else Opaque('i' + a))
    outs = c.run(args)
    objs = [x for x in fs if x.kind == 'obj']

    def contents(o, q, prop):
        for x in fs:
            if x.kind == 'obj':
                obj_is(c, o, prop, q, x.off, x.ty, x.obj, 'field %s is what its initializer made' % x.name)
            elif x.kind == 'arr':
                elems_at(c, o, prop, q, x.off, x.n, x.es, x.ty, lambda k: Opaque(x.elem, [k]), 'element k of field %s is what its initializer supplied' % x.name)
            else:
                for s2, v in c.read(o, Ptr(q.rid, q.off + x.off), x.ty):
                    if isinstance(v, Exception):
                        c.bad(s2, prop, 'field %s: %s' % (x.name, v))
                    elif not c.ex.is_zst(x.ty):
                        c.post(s2, prop, veq(c, s2, c.ex.scalar(v), x.val), 'field %s is the value supplied' % x.name)
        c.post(o, 'C07', not events(o, 'drop', 'vdrop'), 'nothing is dropped')
        for x in fs:
            if x.kind in ('obj', 'arr'):
                k = [repr(e[1]) for e in events(o, 'initialize', 'array_initialize')].count(repr(Opaque('i' + x.name)))
                c.post(o, 'C07', k == 1, 'the initializer of %s is used once' % x.name)
    A = maxp(c, aligns)
    build_posts(c, outs, S, A, contents, none_ok=OR(*[NOT(N.layout_ok(Opaque('i' + x.name))) for x in objs]))
    for o in outs:
        if user_unwind(o) or (o.final == 'return' and o.ret.v == 0):
            if o.final == 'abort' or (isinstance(o.unwinding, str) and 'drop' in o.unwinding):
                continue
            used = [repr(e[1]) for e in events(o, 'initialize', 'array_initialize', 'drop')]
            for a, k in zip(order, range(len(order))):
                if by[a].kind in ('obj', 'arr'):
                    n = used.count(repr(Opaque('i' + a)))
                    c.post(o, 'C07', n == 1 or (n == 0 and NOT(N.needs_drop(c.ex, c.argty(k)))), 'the initializer of %s, not used, is dropped once' % a)


def m_refs(c, nm, mut):
    p, fs, H, S, A = m_object(c, nm)
    outs = c.run([c.ex.wrap(p, c.argty(0))])
    for o in outs:
        if o.final != 'return':
            c.bad(o, 'C14', 'finishes: %s' % o.unwinding)
            continue
        got = o.ret.f if len(fs) > 1 else [o.ret]
        for x, g in zip(fs, got):
            g = c.ex.scalar(g)
            c.post(o, 'C14', g.rid == p.rid, 'the reference points into the object')
            c.post(o, 'C14', cmp('==', g.off, x.off), 'the reference is to field %s' % x.name)
            if x.kind == 'arr':
                c.post(o, 'C14', cmp('==', g.meta, x.n), 'field %s has its declared length' % x.name)
            c.ex.oblige_aligned(o, g, x.align, 'field %s' % x.name)
            c.post(o, 'C14', AND(cmp('>=', g.off, 0), cmp('<=', g.off + x.size, S)), 'field %s lies in the object' % x.name)
        var = [(x, c.ex.scalar(g)) for x, g in zip(fs, got) if x.kind in ('obj', 'arr')]
        for (x, g), (y, h) in zip(var, var[1:]):
            c.post(o, 'C14', cmp('<=', g.off + x.size, h.off), 'fields %s and %s do not overlap' % (x.name, y.name))
        if var:
            c.post(o, 'C14', cmp('>=', var[0][1].off, H), 'variable-length fields follow the header')
        unchanged(c, o, p, 'C14')
    c.cover('returns', outs)


def m_drops(c, o, p, fs, prop='C07'):
    """Every component with a destructor is dropped exactly once, and nothing else."""
    left = [e for e in o.trace if e[0] in ('drop', 'vdrop') or (e[0] == 'fam' and e[3][0] == 'drop')]
    for x in fs:
        nd = z3.Bool('NEEDS_VDROP:' + x.tyname) if x.kind == 'obj' and x.tyname not in VL else x.kind != 'obj' and N.needs_drop(c.ex, x.ty)
        mine = []
        if x.kind == 'arr' and x.n.is_const() and not any(e[0] == 'fam' and e[3][2][0] == 'mem' and c.ex.valid(o, cmp('==', e[2], x.n)) for e in left):
            # (elements of an array of a known length may have been dropped one by one)
            one = [e for k in range(x.n.cval()) for e in left if e[0] == 'drop' and e[2][0] == 'mem' and e[2][1] == p.rid and c.ex.valid(o, cmp('==', e[2][2], p.off + x.off + k * x.es))]
            if one and len(one) == x.n.cval() == len({id(e) for e in one}):
                for e in one:
                    left.remove(e)
                continue
        for e in list(left):
            if x.kind == 'obj' and e[0] == 'vdrop' and repr(e[1]) == repr(x.obj):
                mine.append(e)
            elif x.kind in ('val', 'ctl') and e[0] == 'drop' and e[2][0] == 'mem' and e[2][1] == p.rid and e[2][2] == p.off + x.off:
                mine.append(e)
            elif x.kind == 'arr' and e[0] == 'fam' and e[3][2][0] == 'mem' and e[3][2][1] == p.rid:
                k = Poly({(e[1],): 1})
                s = c.assume(o, cmp('>=', k, 0), cmp('<', k, e[2]), cmp('>', x.es, 0))
                if s is None or c.ex.valid(s.pc if False else s, cmp('==', e[3][2][2], p.off + x.off + k * x.es)):
                    if c.ex.valid(o, cmp('==', e[2], x.n)):
                        mine.append(e)
        if len(mine) > 1 and (x.kind == 'arr' or x.kind != 'obj' and c.ex.is_zst(x.ty)):
            # stretches of no bytes may coincide; each belongs to one field
            mine = mine[:1]
        for e in mine:
            left.remove(e)
        c.post(o, prop, len(mine) == 1 or (not mine and OR(NOT(nd), cmp('==', x.n, 0) if x.kind == 'arr' else False)), '%s is dropped exactly once (%d)' % (x.name, len(mine)))
    c.post(o, prop, not left, 'nothing else is dropped (%s)' % (left[:1],))


def m_vdrop(c, nm):
    p, fs, H, S, A = m_object(c, nm)
    outs = c.run([c.ex.wrap(p, c.argty(0))])
    ret = 0
    for o in outs:
        if o.final == 'return':
            ret += 1
            m_drops(c, o, p, fs)
        elif not user_unwind(o):
            c.bad(o, 'C07', 'finishes: %s' % o.unwinding)
    c.cover('returns', ret)


def m_consts(c, nm):
    fs, H, S, aligns = schema(c, nm, 'o')
    need = OR(*[(z3.Bool('NEEDS_VDROP:' + x.tyname) if x.tyname not in VL else False) if x.kind == 'obj' else N.needs_drop(c.ex, x.ty) for x in fs])
    consts(c, lambda c: maxp(c, aligns), lambda c: need, exact=True)


def m_set(c, nm):
    p, fs, H, S, A = m_object(c, nm)
    ctl = [x for x in fs if x.kind == 'ctl']
    new = {x.name: CTX.atom('new:' + x.name, hi=INTS.get(x.tyname, 2 ** 32 - 1)) for x in ctl}
    outs = c.run([c.ex.wrap(p, c.argty(0))] + [c.ex.wrap(new[x.name], c.argty(k + 1)) for k, x in enumerate(ctl)])
    same = AND(*[cmp('==', f[3](new), x.n) for f, x in zip(STRUCTS[nm][1], fs) if x.kind == 'arr'])
    dropped = [x for x in ctl if N.needs_drop(c.ex, x.ty) is True]
    yes = no = 0

    def holds(s, x, want, what):
        for s2, v in c.read(s, Ptr(p.rid, p.off + x.off), x.ty):
            if isinstance(v, Exception):
                c.bad(s2, 'C13', 'field %s: %s' % (x.name, v))
            elif not c.ex.is_zst(x.ty):
                c.post(s2, 'C13', veq(c, s2, c.ex.scalar(v), want), what)

    def drops(s, want):
        """The values in want are dropped, each once, and no others."""
        left = events(s, 'drop', 'vdrop')
        for x, v in want:
            mine = [e for e in left if e[0] == 'drop' and e[1] is not None and c.ex.valid(s, cmp('==', c.ex.scalar(e[1]), v))]
            c.post(s, 'C07', len(mine) == 1, 'the value of %s that is not kept is dropped exactly once (%d)' % (x.name, len(mine)))
            for e in mine:
                left.remove(e)
        c.post(s, 'C07', not left, 'nothing else is dropped (%s)' % (left[:1],))

    for o in outs:
        if user_unwind(o) and dropped:
            # the destructor of a value that is not kept panicked: the object is still a whole one
            oks = c.cases(o, lambda s: c.ex.decide(s, same))
        elif o.final != 'return':
            c.bad(o, 'C13', 'finishes: %s' % o.unwinding)
            continue
        else:
            r = o.ret
            oks = c.cases(o, lambda s: c.ex.decide(s, r))
        for s, ok in oks:
            ev = s.regions[p.rid].ev
            if o.final == 'return':
                c.post(s, 'C13', same if ok else NOT(same), 'succeeds exactly when every array keeps its length')
            drops(s, [(x, x.val if ok else new[x.name]) for x in dropped])
            if not ok:
                no += 1
                c.post(s, 'C13', not ev, 'nothing is changed on failure')
                continue
            yes += 1
            for e in ev:
                c.post(s, 'C13', AND(cmp('>=', e[1], 0), cmp('<=', e[1] + e[2], H)) if e[0] in ('store', 'copy', 'kill') else False, 'only the header is written')
            for x in fs:
                if x.kind in ('val', 'ctl'):
                    holds(s, x, new[x.name] if x.kind == 'ctl' else x.val, 'field %s holds its %s value' % (x.name, 'new' if x.kind == 'ctl' else 'old'))
    c.cover('succeeds', yes)
    c.cover('refuses', no)


for _nm in STRUCTS:
    contract(_nm + '_build', ['C01', 'C02', 'C03', 'C07'], nm=_nm)(m_build)
    contract(_nm + '_refs', ['C14'], nm=_nm, mut=False)(m_refs)
    contract(_nm + '_muts', ['C14'], nm=_nm, mut=True)(m_refs)
    contract(_nm + '_vdrop', ['C07'], nm=_nm)(m_vdrop)
    contract(_nm + '_consts', ['C01', 'C16'], nm=_nm)(m_consts)
    if any(_f[1] == 'ctl' for _f in STRUCTS[_nm][1]) and any(_f[1] == 'arr' for _f in STRUCTS[_nm][1]) and _nm != 'm_decoy':
        contract(_nm + '_set', ['C13', 'C07'], safety=['C13'], nm=_nm)(m_set)
