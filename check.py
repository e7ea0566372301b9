#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property of /repo's current sources (see DESIGN.md)."""
import sys, os, json, time, subprocess, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, 'eipcv'))
sys.setrecursionlimit(20000)
import runner

SHM = ['C%02d' % i for i in range(1, 14)]
def family(p):
    if p in SHM:
        import fam_shm; return fam_shm
    if p in ('C14', 'C15'):
        import fam_str; return fam_str
    if p in ('C16', 'C17', 'C18'):
        import fam_sync; return fam_sync
    if p in ('C19', 'C20'):
        import fam_misc; return fam_misc
    if p == 'C21':
        import fam_py; return fam_py
    if p == 'C22':
        import fam_pyw; return fam_pyw
    if p == 'C23':
        import fam_bind; return fam_bind
    raise SystemExit('no check for ' + p)

def known(prop):
    """findings recorded, not repaired: 'finding: property=<id> scenario=<name> <what fails>'; the sweep leaves exactly these scenarios out"""
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    for l in open(f) if os.path.exists(f) else []:
        if l.startswith('finding: property=%s ' % prop):
            sc, what = l.split(' scenario=', 1)[1].strip().split(' ', 1); out.append((sc, what))
    return out

def native(fam, prop, d, secs, level):
    """bounded execution of the real code, compiled from the current sources: -> (violation or None, number of runs)"""
    try: exe = fam.native_exe(d, prop) if hasattr(fam, 'native_exe') else runner.build_native(d, 'native.cpp', 'native')
    except runner.BuildError as x: return None, 0, str(x)
    if exe is None: return None, 0, 'no executable harness'
    try: r = subprocess.run([exe, prop, str(secs), str(level)], capture_output=True, text=True, timeout=secs + 60, errors='replace', cwd=d)
    except subprocess.TimeoutExpired: return None, 0, 'timeout'
    runs = 0; viol = None
    for l in r.stdout.splitlines():
        if l.startswith('VIOL ' + prop[:3]): viol = viol or l
        if l.startswith('RUNS'): runs = int(l.split()[1])
    return viol, runs, '' if viol or r.returncode in (0, 1) else 'harness ended with %d: %s' % (r.returncode, r.stderr[-300:])

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv: tier = 'thorough'
    t0 = time.time()
    fam = family(prop)
    budget = 420 if tier == 'quick' else 3000
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    with runner.Scratch() as d:
        try:
            T = fam.tasks(prop, d, tier, budget)
            res = runner.run_tasks(T, budget, stop=lambda r: any(o['status'] == 'failed' for o in r['obl']))
        except runner.BuildError as x:
            print('ERROR: the sources of /repo could not be translated for verification\n' + str(x)); return 2
        obl = [dict(o, task=r['name']) for r in res for o in r['obl']]
        failed = [o for o in obl if o['status'] == 'failed']
        limits = [(r['name'],) + tuple(l) for r in res for l in r['limits']]
        unknown = [o for o in obl if o['status'] == 'unknown']
        kfound = []
        for sc, what in known(prop):     # a recorded finding is reported as long as its scenario still fails
            if native(fam, sc, d, 10, 0)[0]: kfound.append(what); print('KNOWN-FINDING: property=%s %s' % (prop, what))
        viol = None; runs = 0; note = ''
        undecided = bool(limits or unknown)
        nat = None
        if failed or undecided or tier == 'thorough':
            secs = 60 if failed else (120 if tier == 'quick' else 600)
            nat, runs, note = native(fam, prop, d, secs, 1 if tier == 'quick' else 2)
        rp = os.path.join(ev, 'replay_%s.json' % prop)
        if os.path.exists(rp): os.unlink(rp)
        code = 0
        if failed or nat:
            json.dump(dict(property=prop, failing_input=nat, how_to_replay='the history is executed against the real code by cxx/native*.cpp (first argument %s)' % prop,
                           failed_obligations=[dict(obligation=o['label'], function=o['task'], context=o['ctx'], at=o['at'], verifier=o['how'], counterexample=o['model']) for o in failed[:20]]), open(rp, 'w'), indent=1)
            for o in failed[:4]: print('FAILED OBLIGATION: %s | %s | %s | at %s' % (o['label'], o['task'], o['ctx'], o['at']))
            if nat: print(nat[:1000])
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if nat else ' no-failing-input-found')); code = 1
        n = len(obl); dis = sum(1 for o in obl if o['status'] == 'discharged')
        funcs = {}; contracts = {}; bounded = set()
        for r in res:
            for f, k in r['funcs'].items(): funcs[f] = funcs.get(f, 0) + k
            for f, k in r['contracts'].items(): contracts[f] = contracts.get(f, 0) + k
            bounded |= set(r['bounded'])
        byh = {}
        for o in obl:
            if o['ok']: byh[o['how']] = byh.get(o['how'], 0) + 1
        cov = dict(obligations=n + len(limits), discharged=dis, undecided=len(unknown) + len(limits), failed=len(failed), discharged_by=byh,
                   solver_calls=sum(r['nchecks'] for r in res), solver_s=round(sum(r['tsolve'] for r in res), 2),
                   checker_cmd='python3-vt check.py ' + prop, trusted_base=fam.TRUSTED,
                   functions_under_contract=sorted(f[:160] for f in funcs if 'EigenIPC::' in f or f.startswith('drv_')),
                   functions_expanded=len(funcs), assumed_contracts_used=sorted(f[:120] for f in contracts)[:200], bounded_parts=sorted(bounded),
                   tasks=[dict(name=r['name'], obligations=len(r['obl']), discharged=sum(o['ok'] for o in r['obl']), wall_s=round(r['wall'], 1), limits=[l[-1][:300] for l in r['limits']][:5], **({'info': r['info']} if r['info'] else {})) for r in res],
                   distinct_obligations=len({(o['label'], o['ctx']) for o in obl}), samples=[dict(obligation=o['label'], context=o['ctx'], task=o['task'], by=o['how']) for o in obl[:: max(1, n // 8)]][:10],
                   bounded_executions=runs, bounded_note=note, known_findings=kfound)
        assum = list(fam.TRUSTED)
        if limits or unknown: assum.append('NOT PROVED on this run (bounded execution of the real code stands in): ' + '; '.join(sorted({str(l[-1])[:200] for l in limits} | {o['label'] for o in unknown})[:10]))
        json.dump(dict(property=prop, tier=tier, seed=seed, level=getattr(fam, 'LEVEL', {}).get(prop, 'proof'), coverage=cov, assumptions=assum, wall_s=round(time.time() - t0, 1), violations=1 if code else 0),
                  open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d failed, %d undecided, %d bounded executions, %.0f s' % (prop, n + len(limits), dis, len(failed), len(limits) + len(unknown), runs, time.time() - t0))
        for l in sorted({str(l[-2:])[:300] for l in limits})[:5]: print('  undecided:', l)
        return code

if __name__ == '__main__': sys.exit(main())
