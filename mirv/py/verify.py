"""Contracts and their runs. A contract sets up symbolic arguments for a root (its precondition),
executes the root's MIR on all of them, and states what must hold in every final state."""
import os
import signal
import sys
import time
import traceback
import z3
import poly
import values
from poly import Poly, P, CTX, cmp, NOT, AND, OR, IMPL, IFF, B
from values import *
import exec as X
import natives as N

CONTRACTS = {}


def contract(root, props, safety=None, name=None, **kw):
    """props: the properties this contract's postconditions speak about; safety: the ones its
    memory, arithmetic and allocation obligations count for (default: all of props)."""
    def deco(fn):
        nm = name or root
        CONTRACTS[nm] = dict(name=nm, root=root, fn=fn, props=list(props), safety=list(safety if safety is not None else props), kw=kw)
        return fn
    return deco


class Timeout(Exception):
    pass


class Ctx:
    def __init__(self, root):
        self.root = root
        self.ex = X.Exec(root)
        self.st = X.State()
        self.covers = []
        self.body = root.bodies[0]
        self.paths = 0

    # ---- types
    def ty(self, s):
        for i, x in enumerate(self.root.types.t):
            if x['str'] == s:
                return i
        raise KeyError(s)

    def argty(self, i):
        return self.body['locals'][i + 1]

    def retty(self):
        return self.body['locals'][0]

    def size(self, s):
        return self.ex.size_of(self.ty(s) if isinstance(s, str) else s)

    def align(self, s):
        return self.ex.align_of(self.ty(s) if isinstance(s, str) else s)

    # ---- running
    def run(self, args):
        self.ex.push_call(self.st, self.body, args)
        outs = self.ex.run(self.st)
        self.paths += len(outs)
        return outs

    # ---- postconditions
    def post(self, o, prop, g, msg):
        s = o.clone()
        try:
            self.ex.oblige(s, g, 'post:' + prop, msg)
        except X.Infeasible:
            pass

    def bad(self, o, prop, msg):
        self.post(o, prop, False, msg)

    def cases(self, o, fn):
        """fn(state) evaluated on all its outcomes: [(state, value)]"""
        return self.ex.branches(o, fn)

    def assume(self, o, *cs):
        s = o.clone()
        try:
            for c in cs:
                s.assume(c)
        except X.Infeasible:
            return None
        if not self.ex.smt.feasible(s.pc, z3.BoolVal(True)):
            return None
        return s

    def cover(self, what, ok):
        """Vacuity: something the contract must have reached."""
        self.covers.append((what, bool(ok)))

    def read(self, o, ptr, t):
        """[(state, value)] of reading type t at ptr in state o; an unreadable place fails."""
        def f(s):
            try:
                return self.ex.mem_get(s, s.regions[ptr.rid], ptr.rid, ptr.off, t)
            except X.Uninit as e:
                return e
        return self.cases(o, f)

    def index(self, hint='k'):
        return CTX.atom(CTX.fresh(hint))

    # ---- mathematical layout
    def up(self, h, a):
        """The least multiple of a that is at least h."""
        h, a = P(h), P(a)
        if h.is_const() and h.cval() == 0:
            return P(0)
        if h.is_const() and a.is_const():
            v = a.cval()
            return P((h.cval() + v - 1) // v * v)
        return values.quotient(h + a - 1, a) * a


def run_contract(c, root, timeout=300, cross=0):
    """cross: seconds a second solver gets to go over z3's answers (0: not asked)."""
    poly.reset()
    values._fns.clear()
    values._bfns.clear()
    t0 = time.time()
    res = dict(name=c['name'], root=c['root'], props=c['props'], safety=c['safety'], status='ok', reason='', obligations=[], counts={}, funcs={}, how={}, queries=0,
               solver_s=0.0, paths=0, loops=[], covers=[])
    cx = Ctx(root)
    if cross:
        cx.ex.smt.log = {}

    def alarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 2)
    try:
        c['fn'](cx, **c['kw'])
    except Timeout:
        res['status'], res['reason'] = 'undecided', 'time limit'
    except (X.Unsupported,) as e:
        res['status'], res['reason'] = 'undecided', 'outside the verifier: %s' % e
        res['trace'] = traceback.format_exc()
    except RecursionError:
        res['status'], res['reason'] = 'undecided', 'recursion limit'
    except Exception as e:
        res['status'], res['reason'] = 'undecided', 'contract does not fit the code: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    ex = cx.ex
    res['paths'] = cx.paths
    res['funcs'] = sorted(ex.funcs)
    res['how'] = ex.smt.how
    res['queries'] = ex.smt.queries
    res['solver_s'] = round(ex.smt.time, 3)
    res['loops'] = [(k[0], v) for k, v in ex.loop_info.items()]
    res['covers'] = cx.covers
    for o in ex.obls:
        k = (o.kind, o.status)
        kk = '%s|%s' % k
        res['counts'][kk] = res['counts'].get(kk, 0) + 1
        if o.status != 'proved':
            res['obligations'].append(dict(kind=o.kind, where=o.where, status=o.status, detail=o.detail))
    if any(o['status'] == 'cex' for o in res['obligations']):
        res['status'] = 'failed'
    elif res['obligations'] and res['status'] == 'ok':
        res['status'], res['reason'] = 'undecided', 'an obligation is neither proved nor refuted'
    if res['status'] == 'ok' and not all(ok for _, ok in cx.covers):
        res['status'], res['reason'] = 'undecided', 'not reached: ' + ', '.join(w for w, ok in cx.covers if not ok)
    if res['status'] == 'ok' and not ex.obls:
        res['status'], res['reason'] = 'undecided', 'no obligations'
    res['wall_s'] = round(time.time() - t0, 2)
    if cross:
        import cross as second
        res['cross'] = second.confirm(ex.smt.log, cross)
        if res['cross']['refuted'] and res['status'] == 'ok':
            res['status'], res['reason'] = 'undecided', 'the solvers disagree'
    return res


def load_contracts():
    import contracts_basic   # noqa: F401
    import contracts_comp    # noqa: F401
    import contracts_own     # noqa: F401
    import contracts_macro   # noqa: F401
    import contracts_seq     # noqa: F401
    import contracts_iter    # noqa: F401


def main():
    import mir
    import json
    load_contracts()
    roots = mir.load(sys.argv[1])
    pats = sys.argv[2:]
    import re
    for nm, c in CONTRACTS.items():
        if pats and not any(re.fullmatch(p, nm) for p in pats):
            continue
        if c['root'] not in roots:
            print(nm, 'no root')
            continue
        r = run_contract(c, roots[c['root']], cross=int(os.environ.get('CROSS', '0')))
        print('%-28s %-9s %5.1fs paths=%d queries=%d obl=%s %s' % (nm, r['status'], r['wall_s'], r['paths'], r['queries'], sum(r['counts'].values()), r['reason']))
        if 'cross' in r:
            print('    cvc5:', r['cross'])
        if os.environ.get('V'):
            print('   ', r['counts'], r['how'], r['loops'])
        for o in r['obligations'][:int(os.environ.get('NF', '2'))]:
            print('   FAIL', o['kind'], o['where'], o['status'])
            d = o['detail']
            if isinstance(d, dict):
                for k, v in d.items():
                    print('        %s: %s' % (k, str(v if not isinstance(v, list) else ' ;; '.join(map(str, v)))[:900]))
            else:
                print('       ', d)
        if r.get('trace') and os.environ.get('V'):
            print(r['trace'][-1500:])


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    import verify
    verify.main()
