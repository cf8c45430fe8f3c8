"""Writes harness/src/gen2.rs (sample structs and their roots) and py/shapes.json (their fields) from a fixed seed.

The output is committed; this file says how it was drawn. `make.py` takes no input and always writes the same.
"""
import json, os, random
R = random.Random(20240611)
HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = ['a', 'b', 'layout', 'offset', 'size', 'dst', 'init', 'p', 'ptr', 'header', 'base', 'arr', 'field', 'k', 'item', 'refs', 'muts', 'end', 'z', 'w']
VALS = ['u8', 'u16', 'u32', 'u64', 'Dr', 'Dz']
CTLS = ['u8', 'u16', 'u32', 'u8', 'Dr']
OBJS = ['Str', 'Array<u16, u8>', 'Str<u32>', 'Array<u8, u16>', 'Str', 'F', 'G']
ELEMS = ['u8', 'u16', 'u32', 'u64', 'Dr', 'E', 'Dz']


def num(c):
    return '%s.get()' % c[0] if c[1] == 'Dr' else '*%s as usize' % c[0]


def shape(i, nf, want):
    names = R.sample(NAMES, nf)
    kinds = [R.choice(want) for _ in names]
    if 'arr' in kinds and 'ctl' not in kinds:
        kinds[R.randrange(nf)] = 'ctl'
    fs = []
    # (the macro's layout struct has a field `size` of its own)
    names = ['sz' if n == 'size' and k in ('obj', 'arr') else n for n, k in zip(names, kinds)]
    gens = set()
    objs = [o for o in OBJS]
    for n, k in zip(names, kinds):
        if k == 'val':
            fs.append([n, k, R.choice(VALS)])
        elif k == 'ctl':
            fs.append([n, k, R.choice(CTLS)])
        elif k == 'obj':
            if not objs:
                fs.append([n, 'val', 'u16'])
                continue
            o = R.choice(objs)
            if o in 'FG':
                objs.remove(o)
                gens.add(o)
            fs.append([n, k, o])
        else:
            e = R.choice(ELEMS)
            if e == 'E':
                gens.add(e)
            fs.append([n, k, e])
    ctl = [(f[0], f[2]) for f in fs if f[1] == 'ctl']
    for f in fs:
        if f[1] == 'arr':
            c, d = R.choice(ctl), R.choice(ctl)
            how = R.choice(['one', 'one', 'one', 'plus', 'half', 'sum', 'const'])
            f += {'one': [num(c), ['v', c[0]]], 'plus': ['%s + 1' % num(c), ['+', ['v', c[0]], 1]], 'half': ['(%s) / 2' % num(c), ['/', ['v', c[0]], 2]],
                  'sum': ['%s + %s' % (num(c), num(d)), ['+', ['v', c[0]], ['v', d[0]]]], 'const': ['3', 3]}[how]
    return fs, [g for g in ('F', 'G', 'E') if g in gens]


def rust(i, fs, gens, repr_c):
    N, m = 'S' + chr(97 + i), 's' + chr(97 + i)
    decl = ', '.join({'F': 'F: VarLen = Str', 'G': 'G: VarLen = Str', 'E': 'E = u8'}[g] for g in gens)
    bnd = ''.join({'F': ', F: VarLen', 'G': ', G: VarLen', 'E': ', E'}[g] for g in gens)
    app = '<%s>' % ', '.join(gens) if gens else ''
    o = ['#[define_varlen]'] + (['#[repr(C)]'] if repr_c else []) + ['pub struct %s%s {' % (N, '<%s>' % decl if decl else '')]
    for f in fs:
        at = {'val': '', 'ctl': '#[controls_layout] ', 'obj': '#[varlen] ', 'arr': '#[varlen_array] '}[f[1]]
        o.append('    %spub %s: %s,' % (at, f[0], '[%s; %s]' % (f[2], f[3]) if f[1] == 'arr' else f[2]))
    o.append('}')
    ps, gs, rs, ms = [], [], [], []
    for j, f in enumerate(fs):
        if f[1] in ('val', 'ctl'):
            ps.append('%s: %s' % (f[0], f[2]))
            rs.append("&'a " + f[2])
            ms.append(("&'a " if f[1] == 'ctl' else "&'a mut ") + f[2])
        else:
            ps.append('%s: I%d' % (f[0], j))
            gs.append('I%d: %s<%s>' % (j, 'Initializer' if f[1] == 'obj' else 'ArrayInitializer', f[2]))
            rs.append("&'a " + (f[2] if f[1] == 'obj' else '[%s]' % f[2]))
            ms.append("Pin<&'a mut %s>" % f[2] if f[1] == 'obj' else "&'a mut [%s]" % f[2])
    g1 = "<'a%s%s>" % (bnd, ''.join(', ' + g for g in gs))
    g2 = '<%s>' % bnd[2:] if bnd else ''
    ga = "<'a%s>" % bnd
    tup = lambda l: '(%s)' % ', '.join(l) if len(l) > 1 else l[0]
    fl = ', '.join(f[0] for f in fs)
    acc = tup(['y.' + f[0] for f in fs])
    T = N + app
    o.append("pub unsafe fn root_m_%s_build%s(%s) -> Option<(usize, usize, usize, &'a mut %s)> { build(%s::Init { %s }) }" % (m, g1, ', '.join(ps), T, m, fl))
    lt = lambda l: [x.replace("&'a mut ", "&'a mut ") for x in l]
    outl = "".join(", %s: 'a" % g for g in gens)
    del outl
    o.append("pub fn root_m_%s_refs%s(x: &'a %s) -> %s { let y = x.refs(); %s }" % (m, ga, T, tup(rs), acc))
    o.append("pub fn root_m_%s_muts%s(x: Pin<&'a mut %s>) -> %s { let y = x.muts(); %s }" % (m, ga, T, tup(lt(ms)), acc))
    o.append('pub unsafe fn root_m_%s_vdrop%s(x: Pin<&mut %s>) { vdrop_it(x) }' % (m, g2, T))
    o.append('pub fn root_m_%s_consts%s() -> (usize, bool) { consts_of::<%s>() }' % (m, g2, T))
    ctl = [f for f in fs if f[1] == 'ctl']
    if ctl and any(f[1] == 'arr' for f in fs):
        o.append('pub fn root_m_%s_set%s(x: Pin<&mut %s>%s) -> bool { x.try_set_layout_controllers(%s::LayoutControllers { %s }).is_ok() }'
                 % (m, g2, T, ''.join(', %s: %s' % (f[0], f[2]) for f in ctl), m, ', '.join(f[0] for f in ctl)))
    return '\n'.join(o) + '\n'


V, C, O, A = 'val', 'ctl', 'obj', 'arr'
PLAN = [(7, [V, C, O, A, A]), (9, [V, C, O, A]), (3, [O]), (4, [V, A]), (5, [A, C]), (8, [O, O, V]), (10, [V, V, C, O, A]), (6, [C, A, O]), (12, [V, V, V, C, O]),
        (2, [A]), (6, [V, O, A]), (16, [V, V, V, A, C]), (7, [A]), (4, [O, A, A]), (5, [V, V, O]), (6, [A, A, A, C]), (1, [O]), (2, [O, V]), (9, [V]), (8, [C, A]),
        (5, [O, C, A, V]), (18, [V, V, V, V, A, C, O]), (3, [A, O]), (7, [V, C, A]), (6, [O, O, A, C]), (5, [C, V, A])]
src = ['//! Drawn by shapes/make.py: more structs defined with #[define_varlen], and their roots.', 'use super::*;', '']
spec = {}
for i, (n, want) in enumerate(PLAN):
    fs, gens = shape(i, n, want)
    src.append(rust(i, fs, gens, i % 3 == 1))
    spec['m_s' + chr(97 + i)] = dict(type='gen2::S%s%s' % (chr(97 + i), '<%s>' % ', '.join(gens) if gens else ''), fields=[f[:3] + f[4:] for f in fs])
open(HERE + '/../harness/src/gen2.rs', 'w').write('\n'.join(src))
json.dump(spec, open(HERE + '/../py/shapes.json', 'w'), indent=1)

# The same structs for the companion, with values in them, checked against the mathematical layout.
UP = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'Dr': 12, 'Dz': 0}
AL = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'Dr': 4, 'Dz': 1}
CT = {'Dr': 'D', 'Dz': 'Z', 'E': 'D', 'F': 'Array<D, u16>', 'G': 'Str<u32>'}


def expr(t, ctl, leaf):
    if isinstance(t, int):
        return str(t)
    if t[0] == 'v':
        return leaf(t[1], ctl[t[1]])
    return '(%s %s %s)' % (expr(t[1], ctl, leaf), t[0], expr(t[2], ctl, leaf))


def comp(i, fs, gens, repr_c):
    N, m = 'S' + chr(97 + i), 's' + chr(97 + i)
    ctl = {f[0]: f[2] for f in fs if f[1] == 'ctl'}
    o = ['#[define_varlen]'] + (['#[repr(C)]'] if repr_c else [])
    decl = ', '.join({'F': 'F: VarLen = Array<D, u16>', 'G': 'G: VarLen = Str<u32>', 'E': 'E = D'}[g] for g in gens)
    o.append('pub struct %s%s {' % (N, '<%s>' % decl if decl else ''))
    for f in fs:
        at = {'val': '', 'ctl': '#[controls_layout] ', 'obj': '#[varlen] ', 'arr': '#[varlen_array] '}[f[1]]
        ty = 'Bd' if f[1] == 'ctl' and f[2] == 'Dr' else f[2] if f[2] in ('E', 'F', 'G') else CT.get(f[2], f[2])
        if f[1] == 'arr':
            ty = '[%s; %s]' % (ty, expr(f[4], ctl, lambda n, t: '%s.n()' % n if t == 'Dr' else '*%s as usize' % n))
        o.append('    %spub %s: %s,' % (at, f[0], ty))
    o.append('}')
    init, good, setup, muts, offs, why = [], [], ['let mut e = std::mem::size_of::<%s>();' % N, 'let mut al = std::mem::align_of::<%s>();' % N], [], [], []
    for f in fs:
        if f[1] == 'ctl':
            setup.append('let n_%s = r.to(%d);' % (f[0], 7))
            why.append('%s {}' % f[0])
    needs = False
    var = []
    for j, f in enumerate(fs):
        n, k, t = f[0], f[1], CT.get(f[2], f[2])
        K = 20 + 13 * j
        if t in ('D', 'Z') or t == 'Array<D, u16>':
            needs = True
        if k == 'val':
            init.append('%s: %s' % (n, 'D::new(%d)' % K if t == 'D' else 'Z::new()' if t == 'Z' else '%d' % K))
            good.append('y.%s.get() == Some(%d)' % (n, K) if t == 'D' else 'adr(y.%s) == adr(&x.%s)' % (n, n) if t == 'Z' else '*y.%s == %d' % (n, K))
            muts.append((j, 'y.%s.val += 1' % n if t == 'D' else None if t == 'Z' else '*y.%s += 1' % n, 'true'))
        elif k == 'ctl':
            init.append('%s: %s' % (n, 'Bd::new(n_%s as u8, false)' % n if t == 'D' else 'n_%s as %s' % (n, t)))
            good.append('y.%s.n() == n_%s && y.%s.get().is_some()' % (n, n, n) if t == 'D' else '*y.%s == n_%s as %s' % (n, n, t))
            muts.append((j, None, ''))
        elif k == 'obj':
            setup.append('let n_%s = r.to(9);' % n)
            why.append('%s {}' % n)
            if t.startswith('Str'):
                h = {'Str': 8, 'Str<u32>': 4}[t]
                setup.append('let s_%s = "stuvwxyzab"[..n_%s].to_string();' % (n, n))
                sz, a = '%d + n_%s' % (h, n), h
                init.append('%s: Str::try_copy(&s_%s).unwrap()' % (n, n))
                good.append('&y.%s[..] == s_%s.as_str()' % (n, n))
                muts.append((j, 'y.%s.mut_slice().make_ascii_uppercase()' % n, 'n_%s > 0' % n))
            else:
                el, ln = t[6:-1].split(', ')
                h, a, es = {'u16': (2, 2, 2), 'u8': (2, 2, 1), 'D': (4, 4, 12)}[el]
                sz = '%d + %d * n_%s' % (h, es, n)
                v = 'D::new(%d + i as u32)' % K if el == 'D' else '(%d + i) as %s' % (K, el)
                init.append('%s: SizedInit(n_%s as %s, FillSequentially(|i| %s))' % (n, n, ln, v))
                good.append('y.%s.len() == n_%s && y.%s.iter().enumerate().all(|(i, q)| %s)' % (n, n, n, 'q.get() == Some(%d + i as u32)' % K if el == 'D' else '*q == (%d + i) as %s' % (K, el)))
                muts.append((j, 'for q in y.%s.mut_slice() { %s += 1 }' % (n, 'q.val' if el == 'D' else '*q'), 'n_%s > 0' % n))
            var.append((n, sz, a, k))
        else:
            ln = expr(f[4], ctl, lambda nn, tt: 'n_%s' % nn)
            v = 'D::new(%d + i as u32)' % K if t == 'D' else 'Z::new()' if t == 'Z' else '(%d + i) as %s' % (K, t)
            init.append('%s: FillSequentially(|%s| %s)' % (n, '_' if t == 'Z' else 'i', v))
            good.append('y.%s.len() == %s' % (n, ln) + ('' if t == 'Z' else ' && y.%s.iter().enumerate().all(|(i, q)| %s)' % (n, 'q.get() == Some(%d + i as u32)' % K if t == 'D' else '*q == (%d + i) as %s' % (K, t))))
            muts.append((j, None if t == 'Z' else 'for q in y.%s.iter_mut() { %s += 1 }' % (n, 'q.val' if t == 'D' else '*q'), '%s > 0' % ln))
            q = {'D': 'Dr', 'Z': 'Dz'}.get(t, t)
            var.append((n, '%d * (%s)' % (UP[q], ln), AL[q], k))
    for n, sz, a, k in var:
        setup.append('let o_%s = up(e, %d); e = o_%s + %s; al = al.max(%d);' % (n, a, n, sz, a))
    L = ['fn %s(c: &mut Ctx, r: &mut Rng) {' % m] + ['    ' + s for s in setup]
    args = [f[0] for f in fs if f[1] == 'ctl' or f[1] == 'obj']
    args = [a for a in [f[0] for f in fs if f[1] == 'ctl'] + [f[0] for f in fs if f[1] == 'obj']]
    L.append('    c.case(format!("drawn struct %s %s"%s), VT, MT, PT, |c| place::<%s, _>(c, %s::Init { %s }, (e, al), |c, mut x| {'
             % (N, ' '.join(why), ''.join(', n_' + a for a in args), N, m, ', '.join(init)))
    L.append('        let b = adr(&*x);')
    L.append('        let good = |x: &%s| { let y = x.refs(); [%s] };' % (N, ', '.join(good)))
    L.append('        let names = [%s];' % ', '.join('"%s"' % f[0] for f in fs))
    L.append('        let bad = |g: [bool; %d], w: [bool; %d]| (0..%d).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();' % ((len(fs),) * 3))
    L.append('        let mut w = [true; %d];' % len(fs))
    L.append('        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));')
    L.append('        c.ck("C16", <%s as VarLen>::NEEDS_VDROP == %s, || "NEEDS_VDROP".into());' % (N, 'true' if needs else 'false'))
    for n, sz, a, k in var:
        L.append('        { let p = adr(x.refs().%s) - b; c.ck("C14 C01", p == o_%s, || format!("field %s at {}, expected {}", p, o_%s)); }' % (n, n, n, n))
        L.append('        { let p = adr(&*x.as_mut().muts().%s) - b; c.ck("C14", p == o_%s, || format!("mutable field %s at {}, expected {}", p, o_%s)); }' % (n, n, n, n))
        if k == 'arr':
            L.append('        { let p = x.as_mut().muts().%s.len(); c.ck("C14 C03", p == x.refs().%s.len(), || format!("mutable field %s has length {}", p)); }' % (n, n, n))
    for f in fs:
        if f[1] in ('val', 'ctl'):
            L.append('        c.ck("C14", adr(x.refs().%s) == adr(&x.%s), || "header field %s".into());' % ((f[0],) * 3))
    arrs = [f for f in fs if f[1] == 'arr']
    if ctl and arrs:
        L.append('        for d in 0..%d {' % (2 * len(ctl) + 1))
        for kk, n in enumerate(ctl):
            L.append('            let m_%s: usize = match d { %d => n_%s + 1, %d => n_%s.wrapping_sub(1) %% 251, _ => n_%s };' % (n, 2 * kk + 1, n, 2 * kk + 2, n, n))
        same = ' && '.join('%s == %s' % (expr(f[4], ctl, lambda a, t: 'n_' + a), expr(f[4], ctl, lambda a, t: 'm_' + a)) for f in arrs)
        L.append('            let same = %s;' % same)
        L.append('            let ok = x.as_mut().try_set_layout_controllers(%s::LayoutControllers { %s }).is_ok();' % (m, ', '.join(
            '%s: %s' % (n, 'Bd::new(m_%s as u8, false)' % n if t == 'Dr' else 'm_%s as %s' % (n, t)) for n, t in ctl.items())))
        L.append('            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));')
        L.append('            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));')
        L.append('            if ok { let back = x.as_mut().try_set_layout_controllers(%s::LayoutControllers { %s }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }' % (m, ', '.join(
            '%s: %s' % (n, 'Bd::new(n_%s as u8, false)' % n if t == 'Dr' else 'n_%s as %s' % (n, t)) for n, t in ctl.items())))
        L.append('            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));')
        L.append('        }')
    for j, s, cond in muts:
        if s:
            L.append('        { let %sy = x.as_mut().muts(); %s; } w[%d] = !(%s);' % ('mut ' if '.mut_slice' in s and False else '', s, j, cond))
            L.append('        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote %s: fields {:?}", bad(good(&x), w)));' % fs[j][0])
    L.append('    }));\n}')
    return '\n'.join(o) + '\n' + '\n'.join(L) + '\n'


R = random.Random(20240611)
out = ['//! Drawn by ../mirv/shapes/make.py: the structs that are under contract, checked with values in them.', '#![allow(unused_mut, unused_variables)]',
       'use crate::ctx::*;', 'use crate::el::up;', 'use crate::objs::{adr, place};', 'use crate::track::{Bd, D, Z};', 'use varlen::prelude::*;', 'use varlen::Layout;', '',
       'const VT: &str = "C07 C12";', 'const MT: &str = "C08 C03";', 'const PT: &str = "C01 C02 C03 C07 C08 C12 C13 C14";', '']
for i, (n, want) in enumerate(PLAN):
    fs, gens = shape(i, n, want)
    out.append(comp(i, fs, gens, i % 3 == 1))
out.append('pub fn run(c: &mut Ctx) {\n    c.test = "drawn structs".into();\n    let mut r = Rng(c.seed ^ 0x5a5a);\n    for _ in 0..if c.thorough { 400 } else { 30 } {\n%s\n    }\n}' % '\n'.join('        s%s(c, &mut r);' % chr(97 + i) for i in range(len(PLAN))))
open(HERE + '/../../companion/src/shapes.rs', 'w').write('\n'.join(out))
