"""Loops: executed as they are while every iteration's continuation is decided; otherwise
summarized by an inferred invariant.

After k iterations every changed variable is assumed to be (first value) + k * (change in the
first iteration), or to have its index shifted by k; what an iteration writes, and the unknown
functions it calls, become families indexed by 0 <= j < k. The guess is then checked: one
iteration from the state after k iterations (k arbitrary) must lead to the state after k + 1 with
the same writes and calls. Bounds k <= N are guessed from the loop guards and checked the same way.
"""
import z3
from poly import Poly, P, CTX, cmp, NOT, AND, OR
from values import *


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class _Lost:
    def __repr__(self):
        return '?lost?'


LOST = _Lost()


def succs(t):
    k = t['t']
    out = []
    if k in ('goto', 'drop', 'assert', 'call'):
        if t.get('to') is not None:
            out.append(t['to'])
        if isinstance(t.get('unwind'), int):
            out.append(t['unwind'])
    elif k == 'switch':
        out = [b for _, b in t['cases']] + [t['otherwise']]
    return out


def loops_of(body):
    """head -> set of blocks of the natural loop"""
    if 'loops' in body:
        return body['loops']
    n = len(body['blocks'])
    sc = [succs(b['t']) for b in body['blocks']]
    # dominators
    preds = [[] for _ in range(n)]
    order, seen = [], set()
    st = [(0, iter(sc[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(sc[x])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    for b in order:
        for x in sc[b]:
            preds[x].append(b)
    dom = {b: set(order) for b in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            ps = [dom[p] for p in preds[b] if p in dom]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in order:
        for h in sc[b]:
            if h in dom[b]:
                body_set = loops.setdefault(h, {h})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x in body_set:
                        continue
                    body_set.add(x)
                    todo.extend(preds[x])
    body['loops'] = loops
    return loops


def at_head(ex, st, fr, bb):
    lp = loops_of(fr.body)
    # leaving loops
    if fr.loops:
        fr.loops = tuple(h for h in fr.loops if h[0] == bb or bb in lp[h[0]])
    if bb not in lp:
        return
    if any(h[0] == bb for h in fr.loops):
        st.final = ('back', len(st.frames), bb)
        return
    raise Fork(handle(ex, st, fr, bb, lp[bb]))


def explore(ex, st, head, depth, blocks):
    """Run from the loop head until the head is reached again or the loop is left."""
    s = st.clone()
    f = s.frames[-1]
    f.loops = f.loops + ((head,),)
    w = ex.work
    ex.work = [s]
    me = ('back', depth, head)

    def stop(x):
        return len(x.frames) < depth or (len(x.frames) == depth and x.frames[-1].glue is None and
                                         x.frames[-1].body is f.body and x.frames[-1].bb not in blocks)
    try:
        outs = ex.drain(stop)
    finally:
        ex.work = w
    backs, exits = [], []
    for x in outs:
        if x.final == me:
            x.final = None
            g = x.frames[-1]
            g.loops = tuple(h for h in g.loops if h[0] != head)
            backs.append(x)
        else:
            exits.append(x)
    return backs, exits


def handle(ex, st, fr, head, blocks):
    from exec import Unsupported
    if ex.has_snap:
        ex.settle_all(st)
    depth = len(st.frames)
    info = ex.loop_info.setdefault((fr.body['name'], head), {'unrolled': 0, 'summarized': 0})
    n_ob = len(ex.obls)
    cnt = dict(st.ghost.get('unroll', {}))
    key = (depth, fr.body['name'], head)
    backs, exits = explore(ex, st, head, depth, blocks)
    normal = [x for x in exits if (x.unwinding is None or x.unwinding is st.unwinding or x.unwinding == st.unwinding) and not (isinstance(x.final, str) and x.final in ('abort', 'oom'))]
    if not backs:
        return exits
    peel = normal and cnt.get(('peeled',) + key, 0) == 0 and any(flips(v0, backs[0].cells.get(cid)) for cid, v0 in st.cells.items())
    if peel:
        cnt[('peeled',) + key] = 1
    if not normal or peel:
        cnt[key] = cnt.get(key, 0) + 1
        if cnt[key] > 70:
            raise Unsupported('unrolling limit')
        info['unrolled'] += 1
        out = list(exits)
        for b in backs:
            b.ghost['unroll'] = cnt
            g = b.frames[-1]
            try:
                at_head(ex, b, g, head)
                out.append(b)
            except Fork as f:
                out.extend(f.states)
        return out
    # the first iteration is covered by the summary, unless no summary is found: then what failed in
    # it failed for real, while what failed under a guessed invariant says nothing
    before, firsts = ex.obls[:n_ob], ex.obls[n_ob:]
    ex.obls = list(before)
    try:
        r = summarize(ex, st, fr, head, blocks, backs)
    except Exception:
        ex.obls = before + firsts
        raise
    info['summarized'] += 1
    return r


def flips(v0, v1):
    """A variable that is one variant before the loop and another after an iteration (None, then Some): the
    first iteration is taken by itself."""
    return isinstance(v0, Agg) and isinstance(v1, Agg) and (v0.v != v1.v or (len(v0.f) == len(v1.f) and any(flips(a, b) for a, b in zip(v0.f, v1.f))))


def gen_value(v0, v1, k):
    """The value after k iterations, given it was v0 before and v1 after the first."""
    if v0 is v1:
        return v0
    if isinstance(v0, Poly) and isinstance(v1, Poly):
        if v0 == v1:
            return v0
        d = v1 - v0
        # index shift first: f[i] -> f[i + k]
        fams = {}
        for a in v0.atoms():
            f = CTX.family.get(a)
            if f is not None:
                fams[a] = fam(f[0], f[1] + k, f[2])
        if fams:
            g = psub0(v0, fams)
            one = psub(g, {k.single_atom(): Poly.const(1)})
            if one == v1:
                return g
        return v0 + d * k
    if type(v0) is not type(v1):
        return LOST
    if isinstance(v0, Ptr):
        if v0.rid != v1.rid:
            return LOST
        o = gen_value(v0.off, v1.off, k)
        m = v0.meta if v0.meta == v1.meta else (gen_value(v0.meta, v1.meta, k) if isinstance(v0.meta, Poly) and isinstance(v1.meta, Poly) else LOST)
        if o is LOST or m is LOST:
            return LOST
        return Ptr(v0.rid, o, m)
    if isinstance(v0, Agg):
        if v0.v != v1.v or len(v0.f) != len(v1.f):
            return LOST
        return Agg([gen_value(a, b, k) for a, b in zip(v0.f, v1.f)], v0.v)
    if isinstance(v0, UnionVal):
        return UnionVal(gen_value(v0.x, v1.x, k))
    if isinstance(v0, bool):
        return v0 if v0 == v1 else LOST
    if isinstance(v0, z3.ExprRef):
        return v0 if v0.eq(v1) else LOST
    try:
        return v0 if v0 == v1 else LOST
    except Exception:
        return LOST


def psub0(p, sub):
    return p.subst(sub)


def has_new(v, old):
    """Does the value mention atoms or cells that did not exist before the loop?"""
    return False


def veq(ex, st, a, b):
    """Are two values provably equal? LOST on the expected side accepts anything."""
    if b is LOST:
        return True
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ex.valid(st, cmp('==', a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and ex.valid(st, cmp('==', a.off, b.off)) and veq(ex, st, a.meta, b.meta)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.v == b.v and len(a.f) == len(b.f) and all(veq(ex, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, UnionVal) and isinstance(b, UnionVal):
        return veq(ex, st, a.x, b.x)
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        from poly import IFF
        return ex.valid(st, IFF(a, b))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.name == b.name and len(a.idx) == len(b.idx) and all(ex.valid(st, cmp('==', x, y)) for x, y in zip(a.idx, b.idx))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(ex, st, x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def ev_eq(ex, st, a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return False
    for x, y in zip(a[1:], b[1:]):
        if x.__class__.__name__ == 'RState' or y.__class__.__name__ == 'RState':
            if x is not y and not (len(x.ev) == len(y.ev) and x.live == y.live and all(ev_eq(ex, st, p, q) for p, q in zip(x.ev, y.ev))):
                return False
        elif not veq(ex, st, x, y):
            return False
    return True


def build(ex, st, k, kp, lost, gen, ev, tr, inv):
    """The state at the loop head after kp iterations."""
    s = st.clone()
    sub = {k.single_atom(): kp}
    for cid, g in gen.items():
        s.cells[cid] = vsub(g, sub) if g is not LOST else LOST
    for rid, tms in ev.items():
        rs = s.regions[rid]
        if tms:
            es = []
            for tm in tms:
                j = CTX.atom(CTX.fresh('j'))
                es.append(('fam', j.single_atom(), kp, tuple(vsub(x, {k.single_atom(): j}) if x.__class__.__name__ != 'RState' else x for x in tm)))
            s.regions[rid] = rs.with_ev(*es)
    if tr:
        j = CTX.atom(CTX.fresh('j'))
        s.trace = s.trace + (('fam', j.single_atom(), kp, tuple(vsub(x, {k.single_atom(): j}) for x in tr)),)
    s.ctxk = st.ctxk + (kp,)
    s.ghost['tname'] = (len(s.trace), '%sL%d.' % (st.ghost.get('tname', (0, ''))[1], len(st.trace)))
    for c in [cmp('>=', kp, 0)] + [f(kp) for f in inv]:
        s.assume(c)
    return s


def guard_bounds(pcs, k):
    """Candidate upper bounds N for k from conditions d(k) != 0, > 0 ... that keep the loop going."""
    kn = k.single_atom()
    out = []

    def visit(c):
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            for x in c.children():
                visit(x)
            return
        e = CTX.lem.get(c.get_id())
        if e is None or len(e) < 3:
            return
        d = e[2]
        if kn not in d.atoms():
            return
        b0 = psub(d, {kn: Poly.const(0)})
        step = psub(d, {kn: Poly.const(1)}) - b0
        if b0 + step * k != d:
            return
        n = exact_div(b0, -step)
        if n is not None:
            for q in (n, n - 1, n + 1):
                if q not in out:
                    out.append(q)
    for c in pcs:
        visit(c)
    return out


def summarize(ex, st, fr, head, blocks, backs):
    from exec import Unsupported, Infeasible
    depth = len(st.frames)
    first = backs[0]
    for b in backs:
        for rid in st.regions:
            if b.regions[rid].live != st.regions[rid].live:
                raise Unsupported('a loop frees memory')
    k = CTX.atom(CTX.fresh('k'))
    gen = {}
    for cid, v0 in st.cells.items():
        v1 = first.cells.get(cid)
        if v1 is None:
            continue
        g = gen_value(v0, v1, k)
        if g is not v0 and not (g is not LOST and type(g) is type(v0) and veq_syn(g, v0)):
            gen[cid] = g
    # trial: what does iteration k write and call?
    obls = ex.obls
    ex.obls = []
    trial, ex.trial = ex.trial, True
    try:
        s = build(ex, st, k, k, None, gen, {}, (), [])
        tb, te = explore(ex, s, head, depth, blocks)
    finally:
        ex.obls = obls
        ex.trial = trial
    if not tb:
        raise Unsupported('loop: no second iteration')
    inv, ev, tr = [], {}, ()

    def templates(s0, b):
        evs = {}
        for rid, rs in s0.regions.items():
            evs[rid] = b.regions[rid].ev[len(rs.ev):]
        return evs, b.trace[len(s0.trace):]
    ev, tr = templates(s, tb[0])
    conds = []
    for b in tb:
        conds += b.pc[len(s.pc):]
    for N in guard_bounds(conds, k):
        if not ex.valid(st, cmp('<=', 0, N)):
            continue
        f = (lambda N: lambda kp: cmp('<=', kp, N))(N)
        if all(not ex.smt.feasible(b.pc + [c for c in [f(k)] if not isinstance(c, bool)], z3_not(f(k + 1))) for b in tb):
            inv.append(f)
    s = build(ex, st, k, k, None, gen, ev, tr, inv)
    gb, ge = explore(ex, s, head, depth, blocks)
    for b in gb:
        evs, t2 = templates(s, b)
        if not veq(ex, b, t2, tr):
            raise Unsupported('loop: the calls of an iteration do not follow the inferred pattern')
        for rid in evs:
            if len(evs[rid]) != len(ev.get(rid, ())) or not all(ev_eq(ex, b, x, y) for x, y in zip(evs[rid], ev[rid])):
                raise Unsupported('loop: the writes of an iteration do not follow the inferred pattern')
        for cid, v0 in st.cells.items():
            want = gen.get(cid, v0)
            if want is not LOST:
                want = vsub(want, {k.single_atom(): k + 1})
            if not veq(ex, b, b.cells.get(cid), want):
                raise Unsupported('loop: inferred invariant is not inductive for %r (expected %r)' % (b.cells.get(cid), want))
        for f in inv:
            if not ex.valid(b, f(k + 1)):
                raise Unsupported('loop: inferred bound is not inductive')
    out = []
    for x in ge:
        x.ctxk = st.ctxk
        if x.frames and len(x.frames) >= depth:
            x.frames[depth - 1].loops = tuple(h for h in x.frames[depth - 1].loops if h[0] != head)
        out.append(x)
    return out


def z3_not(c):
    return NOT(c)


def veq_syn(a, b):
    try:
        return a == b
    except Exception:
        return False
