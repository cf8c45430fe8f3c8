"""Ownership contracts, discharged by rustc's type and borrow checker against /repo's signatures.

own.run(prop, build) -> (results, error). A result: dict(name, what, status, detail, program)
status: 'proved' (the program that breaks the contract is rejected for the reason given), 'failed' (it is
accepted), 'undecided' (the program that keeps the contract does not compile, or the other one fails otherwise).
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def cases():
    out, cur = [], None
    for l in open(os.path.join(HERE, 'cases.txt')):
        if cur is None and l.startswith('#'):
            continue
        if l.startswith('=== '):
            n, props, what = l[4:].strip().split(' : ', 2)
            cur = dict(name=n, props=props.split(), what=what, codes=[], good='', bad='')
            out.append(cur)
            dst = ('good', 'bad')
        elif l.startswith('+++'):
            dst = ('good',)
        elif l.startswith('--- '):
            dst = ('bad',)
            cur['codes'] = l[4:].split()
        elif l.startswith('***'):
            dst = ('good', 'bad')
        elif cur is not None:
            for d in dst:
                cur[d] += l
    for c in out:
        for d in ('good', 'bad'):
            c[d] += '}\n' * (c[d].count('{') - c[d].count('}'))
    return out


def libs(build):
    """Where cargo leaves the metadata of varlen and bumpalo, built from /repo's current tree."""
    tgt = os.path.join(build, 'own')
    r = subprocess.run(['flock', os.path.join(build, 'own.lock'), 'cargo', 'check', '--offline', '--message-format=json', '--target-dir', tgt], cwd=HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    got = {}
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('reason') == 'compiler-artifact':
            for f in d['filenames']:
                if f.endswith('.rmeta'):
                    got[d['target']['name']] = f
    if 'varlen' not in got or 'bumpalo' not in got:
        return None, 'no metadata of varlen'
    return (got, os.path.join(tgt, 'debug', 'deps')), ''


def compile_one(args):
    text, path, lib, deps = args
    with open(path, 'w') as f:
        f.write(text)
    cmd = ['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'case', '--emit=metadata', '--error-format=json', '--cap-lints', 'allow', '-o', path + '.rmeta', '-L', 'dependency=' + deps]
    for n in ('varlen', 'bumpalo'):
        cmd += ['--extern', '%s=%s' % (n, lib[n])]
    r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    errs = []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') == 'error' and not d['message'].startswith('aborting'):
            errs.append(((d.get('code') or {}).get('code'), d['message']))
    return r.returncode, errs, r.stderr[-500:] if not errs else ''


def fits(code, msg, codes):
    if code is None or code == 'E0521':
        return '-' in codes and (code == 'E0521' or 'lifetime may not live long enough' in msg)
    return code in codes


def run(prop, build, only=None):
    cs = [c for c in cases() if (prop is None or prop in c['props']) and (only is None or c['name'] in only)]
    if not cs:
        return [], ''
    got, err = libs(build)
    if got is None:
        return None, err
    lib, deps = got
    pre = open(os.path.join(HERE, 'prelude.rs')).read()
    tmp = tempfile.mkdtemp(prefix='own-', dir=build)
    try:
        jobs = []
        for i, c in enumerate(cs):
            for d in ('good', 'bad'):
                jobs.append((pre + '\n' + c[d], os.path.join(tmp, '%s%d.rs' % (d, i)), lib, deps))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(compile_one, jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for i, c in enumerate(cs):
        (grc, gerr, _), (brc, berr, braw) = res[2 * i], res[2 * i + 1]
        st, det = 'proved', ''
        if grc != 0:
            st, det = 'undecided', 'the program that keeps the contract is rejected: %s' % (gerr[:1],)
        elif brc == 0:
            st, det = 'failed', 'accepted by the compiler'
        elif not berr or not all(fits(a, b, c['codes']) for a, b in berr):
            st, det = 'undecided', 'rejected, but for another reason: %s %s' % (berr[:2], braw)
        out.append(dict(name=c['name'], what=c['what'], status=st, detail=det, program=pre + '\n' + c['bad']))
    return out, ''


if __name__ == '__main__':
    import sys
    rs, e = run(sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != 'all' else None, os.environ.get('VERIF_BUILD', os.path.join(HERE, '..', 'build')), sys.argv[2:] or None)
    if rs is None:
        sys.exit(e)
    for x in rs:
        if x['status'] != 'proved' or sys.argv[2:]:
            print(x['name'], x['status'], x['detail'][:300])
    print(len(rs), 'contracts', sum(x['status'] == 'proved' for x in rs), 'proved')
