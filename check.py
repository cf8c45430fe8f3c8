#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property on /repo's current tree.

1. dumps the MIR the compiler produces for varlen (through the roots in mirv/harness), with and
   without debug assertions;
2. runs every contract that speaks about the property through the verifier (mirv/py);
3. has rustc decide the ownership contracts of the property (own/);
4. runs the bounded companion (companion/), which looks for a concrete failing input.
"""
import concurrent.futures
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, os.path.join(HERE, 'mirv', 'py'))
sys.path.insert(0, os.path.join(HERE, 'own'))
import assumptions   # noqa: E402
import own   # noqa: E402

PID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
LIMIT = int(os.environ.get('MIRV_LIMIT', '150' if TIER == 'quick' else '600'))       # one contract, seconds
BUDGET = int(os.environ.get('MIRV_BUDGET', '300' if TIER == 'quick' else '3600'))    # all contracts
CROSS = 0 if TIER == 'quick' else 900    # seconds cvc5 gets to go over z3's answers, per contract
AFTER_FAIL = 45         # once a contract is refuted, the others get this much more


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
    except subprocess.TimeoutExpired:
        return None


def fatal(msg):
    print('ERROR', msg)
    sys.exit(2)


ROOTS = {}      # debug assertions on / off -> the roots
OFF = ' (debug assertions off)'


def split(name):
    return (name[:-len(OFF)], 'off') if name.endswith(OFF) else (name, 'on')


def one(name):
    import verify
    sys.setrecursionlimit(20000)
    nm, da = split(name)
    c = verify.CONTRACTS[nm]
    if c['root'] not in ROOTS[da]:
        return undecided_run(name, 'no such root')
    r = verify.run_contract(c, ROOTS[da][c['root']], LIMIT, cross=CROSS)
    r['name'] = name
    return r


def dump(da):
    out = os.path.join(BUILD, 'dump-%s-%s-%d.json' % (PID, da, os.getpid()))
    r = sh([os.path.join(HERE, 'mirv', 'dump.sh'), out], 600, env=dict(os.environ, MIRV_BUILD=BUILD, MIRV_DA=da))
    return r, out


def relevant(kind, r):
    """Does an obligation of this kind, in contract run r, count for the property?"""
    if kind.startswith('post:'):
        return kind == 'post:' + PID
    return PID in r['safety']


def verify_all():
    import mir
    import verify
    verify.load_contracts()
    names = [n for n, c in verify.CONTRACTS.items() if PID in c['props'] or PID in c['safety']]
    if not names:
        return [], ''
    os.makedirs(BUILD, exist_ok=True)
    sys.setrecursionlimit(20000)
    with concurrent.futures.ThreadPoolExecutor() as tp:
        for da, (r, out) in zip(('on', 'off'), tp.map(dump, ('on', 'off'))):
            if r is None or r.returncode != 0:
                return None, 'the MIR of /repo could not be produced: ' + ('time limit' if r is None else (r.stderr or r.stdout)[-3000:])
            ROOTS[da] = mir.load(out)
            os.unlink(out)
    # where debug assertions make a difference, both builds are verified
    two = [n for n in names if getattr(ROOTS['on'].get(verify.CONTRACTS[n]['root']), 'hash', 0) != getattr(ROOTS['off'].get(verify.CONTRACTS[n]['root']), 'hash', 0)]
    return run_pool(names + [n + OFF for n in two]), ''


def undecided_run(name, reason):
    import verify
    c = verify.CONTRACTS[split(name)[0]]
    return dict(name=name, root=c['root'], props=c['props'], safety=c['safety'], status='undecided', reason=reason, obligations=[], counts={}, funcs=[], how={}, queries=0,
                solver_s=0, paths=0, loops=[], covers=[], wall_s=0)


def run_pool(names):
    res = {}
    pool = multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 8), maxtasksperchild=4)
    try:
        end = time.time() + BUDGET
        it = pool.imap_unordered(one, names, chunksize=1)
        while len(res) < len(names):
            try:
                r = it.next(timeout=max(0.1, end - time.time()))
            except multiprocessing.TimeoutError:
                break
            res[r['name']] = r
            if any(o['status'] == 'cex' and relevant(o['kind'], r) for o in r['obligations']):
                end = min(end, time.time() + AFTER_FAIL)
    finally:
        pool.terminate()
        pool.join()
    return [res.get(n) or undecided_run(n, 'not run to its end within the time of this check') for n in names]


def ownership():
    try:
        return own.run(PID, BUILD)
    except (OSError, subprocess.SubprocessError, ValueError) as e:
        return None, repr(e)


def companion():
    """Bounded checks of the real code, in two builds."""
    res = []
    crate = os.path.join(HERE, 'companion')
    for mode in ([], ['--release']):
        tgt = os.path.join(BUILD, 'comp')
        lock = os.path.join(BUILD, 'comp.lock')
        r = sh(['flock', lock, 'cargo', 'build', '--offline', '--target-dir', tgt] + mode, 600, cwd=crate, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
        if r is None or r.returncode != 0:
            return None, 'the companion does not build: ' + ('time limit' if r is None else r.stderr[-3000:])
        exe = os.path.join(tgt, 'release' if mode else 'debug', 'companion')
        args = [exe, PID, '--seed', str(SEED)] + (['--thorough'] if TIER == 'thorough' else [])
        t0 = time.time()
        r = sh(args, 400 if TIER == 'quick' else 3000)
        d = dict(build='release' if mode else 'debug', cmd=' '.join(args[1:]), wall_s=round(time.time() - t0, 2))
        if r is None:
            d.update(fails=[dict(test='companion', case='', msg='did not finish (time limit)')], hang=True)
        elif r.returncode != 0:
            t = sh(args + ['--trace'], 900)
            tail = (t.stderr if t else '')[-200000:]
            i = tail.rfind('\ncase ')
            d.update(fails=[dict(test='companion', case=tail[i:][:3000].strip(), msg='the process ended with %s' % r.returncode, stderr=r.stderr[-1500:])])
        else:
            d.update(json.loads(r.stdout))
        res.append(d)
        if PID == 'C08':
            r = sh([exe, 'oom'], 60)
            d['cases'] = d.get('cases', 0) + 1
            # the allocation error handler aborts the process (or panics), and nothing else happens
            if r is None or not (r.returncode in (-6, 134, 101) and 'memory allocation of' in r.stderr):
                d['fails'].append(dict(test='failed allocation', case='VBox::new when the allocator returns null', msg='ended with %s: %s' % (r and r.returncode, (r.stdout + r.stderr)[-500:] if r else '')))
    return res, ''


def known_findings():
    out = []
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        for k in json.load(f)['findings']:
            if k['property'] == PID and k['status'] == 'open':
                out.append(k)
    return out


def main():
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    runs, verr = verify_all()
    owns, oerr = ownership()
    comp, cerr = companion()
    if runs is None and comp is None:
        fatal(verr + '\n' + cerr)
    viol = []
    undecided = []
    n_ob = n_ok = 0
    how, kinds, funcs, solver, paths = {}, {}, set(), 0.0, 0
    contracts = []
    second = {}
    for r in runs or []:
        for k, v in r.get('cross', {}).items():
            if k != 'example':
                second[k] = round(second.get(k, 0) + (len(v) if isinstance(v, list) else v), 2)
        mine = {k: v for k, v in r['counts'].items() if relevant(k.split('|')[0], r)}
        tot = sum(mine.values())
        ok = sum(v for k, v in mine.items() if k.endswith('|proved'))
        n_ob += tot
        n_ok += ok
        for k, v in mine.items():
            kk = k.split('|')[0]
            kinds[kk] = kinds.get(kk, 0) + v
        for k, v in r['how'].items():
            how[k] = how.get(k, 0) + v
        funcs |= set(r['funcs'])
        solver += r['solver_s']
        paths += r['paths']
        bad = [o for o in r['obligations'] if relevant(o['kind'], r)]
        st = 'discharged'
        if any(o['status'] == 'cex' for o in bad):
            st = 'failed'
            viol += [dict(contract=r['name'], root=r['root'], **o) for o in bad if o['status'] == 'cex']
        elif r['status'] == 'undecided' or bad:
            st = 'undecided'
            undecided.append(dict(contract=r['name'], reason=r['reason'], obligations=[dict(kind=o['kind'], where=o['where'], status=o['status']) for o in bad][:5]))
        contracts.append(dict(contract=r['name'], status=st, obligations=tot, discharged=ok, paths=r['paths'], wall_s=r['wall_s']))
    fails = []
    for x in owns or []:
        n_ob += 1
        kinds['ownership'] = kinds.get('ownership', 0) + 1
        if x['status'] == 'proved':
            n_ok += 1
            how['rustc'] = how.get('rustc', 0) + 1
        elif x['status'] == 'failed':
            viol.append(dict(contract='own:' + x['name'], root='', kind='ownership', where='the signatures of varlen', status='cex', detail='%s: a safe program that breaks this is accepted' % x['what']))
            fails.append(dict(build='rustc', cmd=x['name'], test='ownership', case=x['name'], msg='a safe program that breaks the contract (%s) is accepted' % x['what'], program=x['program']))
        else:
            undecided.append(dict(contract='own:' + x['name'], reason=x['detail'][:400], obligations=[]))
    if owns is None:
        undecided.append(dict(contract='own', reason='the ownership contracts were not run: ' + oerr[-400:], obligations=[]))
    for d in comp or []:
        for f in d.get('fails', []):
            if d.get('hang') and not runs:
                continue
            fails.append(dict(build=d['build'], cmd=d['cmd'], **f))
    # ---- known findings
    known = known_findings()
    for k in known:
        if k['id'] == 'cell-controller' and comp is not None:
            r = sh([os.path.join(BUILD, 'comp', 'debug', 'companion'), 'known'], 60)
            if r is not None and r.returncode == 0 and len(set(r.stdout.split())) == 2:
                print('KNOWN-FINDING: property=%s %s' % (PID, k['what']))
    # ---- evidence
    level = assumptions.LEVELS.get(PID, 'proof')
    cov = dict(obligations=n_ob, discharged=n_ok, checker_cmd='python3-vt check.py %s' % PID, trusted_base=assumptions.TRUSTED,
               contracts=contracts, obligations_by_kind=kinds, obligations_by_back_end=how, functions_under_contract=len(funcs),
               functions=sorted(funcs), solver_s=round(solver, 2), symbolic_paths=paths, undecided=undecided,
               ownership_contracts=[{k: x[k] for k in ('name', 'what', 'status', 'detail')} for x in owns or []],
               bounded_companion=[{k: v for k, v in d.items() if k != 'fails'} for d in comp or []], bounded_note=assumptions.BOUNDED)
    if second:
        cov['second_solver_cvc5_on_z3_unsat_answers'] = second
    if verr:
        cov['verifier_error'] = verr[-800:]
    evd = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=assumptions.for_property(PID), violations=0)
    rc = 0
    if viol or fails:
        rp = os.path.join(ev, PID + '.replay.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=PID, failed_obligations=viol[:20], failing_inputs=fails[:6],
                           replay_cmd=['python3 own/own.py %s %s' % (PID, x['cmd']) if x['build'] == 'rustc' else 'companion/ (cargo build --offline%s): companion %s%s' % (' --release' if x['build'] == 'release' else '', x['cmd'], ' --only %r' % x['case'].split(':')[0] if x['case'] else '') for x in fails[:3]],
                           note='' if fails else 'the verifier refutes the named obligations; no concrete failing input was found by the bounded companion'), f, indent=1, default=str)
        evd['violations'] = len(viol) + len(fails)
        for o in viol[:6]:
            d = o['detail']
            print('FAILED OBLIGATION %s in %s at %s: %s' % (o['kind'], o['contract'], o['where'], d['msg'] if isinstance(d, dict) else d))
        for x in fails[:3]:
            print('FAILING INPUT (%s) %s: %s: %s' % (x['build'], x['test'], x['case'][:300], x['msg'][:300]))
        print('VIOLATION property=%s replay=%s%s' % (PID, rp, '' if fails else ' no-failing-input-found'))
        rc = 1
    for u in undecided:
        print('UNDECIDED %s: %s' % (u['contract'], u['reason']))
    if rc == 0 and (runs is None or comp is None):
        with open(os.path.join(ev, PID + '.json'), 'w') as f:
            json.dump(evd, f, indent=1, default=str)
        fatal(verr or cerr)
    with open(os.path.join(ev, PID + '.json'), 'w') as f:
        json.dump(evd, f, indent=1, default=str)
    print('%s: %d contracts, %d/%d obligations discharged, %d undecided contracts, %.1fs' % (PID, len(contracts), n_ok, n_ob, len(undecided), time.time() - t0))
    sys.exit(rc)


if __name__ == '__main__':
    main()
