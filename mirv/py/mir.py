"""Loading the MIR dump (JSON written by mirdump) and pretty-printing it."""
import hashlib
import json


class Types:
    def __init__(self, raw):
        self.t = raw

    def __getitem__(self, i):
        return self.t[i]

    def s(self, i):
        return self.t[i]['str']


class Root:
    def __init__(self, raw):
        self.hash = hashlib.sha256(json.dumps(raw, sort_keys=True).encode()).digest()
        self.name = raw['name']
        self.types = Types(raw['types'])
        self.bodies = {b['id']: b for b in raw['bodies']}
        self.preds = raw['preds']


def load(path):
    d = json.load(open(path))
    return {r['name']: Root(r) for r in d['roots']}


# ---------------------------------------------------------------- pretty printing

def p_place(p):
    s = '_%d' % p[0]
    for e in p[1:]:
        k = e[0]
        if k == 'deref':
            s = '(*%s)' % s
        elif k == 'field':
            s = '%s.%d' % (s, e[1])
        elif k == 'downcast':
            s = '(%s as v%d)' % (s, e[1])
        elif k == 'index':
            s = '%s[_%d]' % (s, e[1])
        else:
            s = '%s.%s' % (s, e)
    return s


def p_op(o, ty):
    if o['op'] in ('copy', 'move'):
        return o['op'] + ' ' + p_place(o['p'])
    if o['op'] == 'const':
        x = {k: v for k, v in o.items() if k not in ('op', 'ty')}
        return 'const %s: %s' % (x, ty.s(o['ty']))
    return str(o)


def p_rv(r, ty):
    k = r['r']
    if k == 'use':
        return p_op(r['a'], ty)
    if k in ('ref', 'rawptr', 'reborrow', 'discr'):
        return '%s %s' % (k, p_place(r['p']))
    if k == 'cast':
        return '%s as %s (%s)' % (p_op(r['a'], ty), ty.s(r['ty']), r['ck'])
    if k == 'bin':
        return '%s(%s, %s)' % (r['o'], p_op(r['a'], ty), p_op(r['b'], ty))
    if k == 'un':
        return '%s(%s)' % (r['o'], p_op(r['a'], ty))
    if k == 'agg':
        return 'agg %s v%s (%s)' % (r['ak'], r.get('variant'), ', '.join(p_op(x, ty) for x in r['ops']))
    if k == 'repeat':
        return '[%s; %s]' % (p_op(r['a'], ty), r['n'])
    return str(r)


def p_body(b, ty):
    out = ['fn #%d %s argc=%d spread=%s' % (b['id'], b['name'], b['argc'], b['spread'])]
    for i, l in enumerate(b['locals']):
        nm = [n for j, n in b['names'] if j == i]
        out.append('  let _%d: %s  %s' % (i, ty.s(l), nm))
    for i, bl in enumerate(b['blocks']):
        out.append('  bb%d%s:' % (i, ' (cleanup)' if bl['cleanup'] else ''))
        for st in bl['s']:
            if st[0] == '=':
                out.append('    %s = %s' % (p_place(st[1]), p_rv(st[2], ty)))
            else:
                out.append('    %s' % st)
        t = bl['t']
        k = t['t']
        if k == 'call':
            f = t['f']
            out.append('    %s = %s [%s %s -> %s]<%s>(%s) -> %s unwind %s' % (
                p_place(t['dest']), f.get('path'), f.get('kind'), f.get('rpath'), f.get('body'),
                ', '.join(ty.s(a) if isinstance(a, int) else str(a) for a in f.get('args', [])),
                ', '.join(p_op(a, ty) for a in t['args']), t['to'], t['unwind']))
        elif k == 'switch':
            out.append('    switch %s %s else %s' % (p_op(t['d'], ty), t['cases'], t['otherwise']))
        elif k == 'assert':
            out.append('    assert %s == %s "%s" -> %s' % (p_op(t['c'], ty), t['expected'], t['msg'], t['to']))
        elif k == 'drop':
            out.append('    drop %s: %s -> %s unwind %s' % (p_place(t['p']), ty.s(t['ty']), t['to'], t['unwind']))
        else:
            out.append('    %s' % {x: y for x, y in t.items() if x != 'span'})
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    roots = load(sys.argv[1])
    r = roots[sys.argv[2]]
    for b in r.bodies.values():
        if len(sys.argv) < 4 or any(a in b['name'] for a in sys.argv[3:]):
            print(p_body(b, r.types))
            print()
