"""Runs the check of one property: builds the IR of the current /repo, discharges every obligation, reports."""
import sys, os, json, time, subprocess, tempfile, shutil, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('EIPCV_REPO', '/repo')
INC = ['-I%s/EigenIPC/include' % REPO, '-I%s/EigenIPC/src' % REPO, '-I/usr/include/eigen3']
NPROC = min(8, os.cpu_count() or 8)

class Scratch:
    def __init__(s): s.d = tempfile.mkdtemp(prefix='eipcv.')
    def __enter__(s): return s.d
    def __exit__(s, *a): shutil.rmtree(s.d, ignore_errors=True)

def build_ir(d, drv, extra=(), passes='mem2reg,loop-simplify,lcssa'):
    """the LLVM IR of the driver, which includes the unmodified sources of /repo"""
    o = os.path.join(d, drv + '.0.ll'); o2 = os.path.join(d, drv + '.ll')
    src = os.path.join(VERIF, 'cxx', drv + '.cpp')
    cmd = ['clang++-18', '-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-DNDEBUG', '-gline-tables-only', '-fPIC', '-w'] + INC + \
          list(extra) + ['-S', '-emit-llvm', '-fno-discard-value-names', src, '-o', o]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('clang++ failed on %s:\n%s' % (src, r.stderr[-3000:]))
    r = subprocess.run(['opt-18', '-S', '-passes=' + passes, o, '-o', o2], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt failed:\n' + r.stderr[-3000:])
    os.unlink(o)
    return o2

def build_native(d, src, out, extra=()):
    o = os.path.join(d, out)
    r = subprocess.run(['g++', '-std=gnu++17', '-O1', '-g', '-w', '-DNDEBUG'] + INC + list(extra) + ['-I' + os.path.join(VERIF, 'cxx'), os.path.join(VERIF, 'cxx', src), '-o', o, '-lpthread', '-lrt'],
                       capture_output=True, text=True)
    if r.returncode: raise BuildError('g++ failed on %s:\n%s' % (src, r.stderr[-3000:]))
    return o

class BuildError(Exception): pass

_task = None
def _entry(i):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    try: r = _task[i][1]()
    except Exception: r = dict(name=_task[i][0], obl=[], limits=[('internal', traceback.format_exc()[-1500:])], funcs={}, contracts={}, bounded=[], nchecks=0, tsolve=0, info='')
    r['name'] = _task[i][0]; r['wall'] = time.time() - t0
    return i, r

def run_tasks(tasks, budget, stop=None):
    """tasks: (name, thunk -> result dict); forked, so that the thunks may close over parsed modules"""
    global _task
    _task = tasks; res = [None] * len(tasks)
    ctx = mp.get_context('fork')
    pending = list(range(len(tasks))); running = {}
    end = time.time() + budget
    while pending or running:
        while pending and len(running) < NPROC:
            i = pending.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=lambda i=i, b=b: b.send(_entry(i)), daemon=True); p.start(); b.close(); running[i] = (p, a)
        done = False
        for i, (p, a) in list(running.items()):
            if a.poll(0):
                try: res[i] = a.recv()[1]
                except EOFError: res[i] = fail_result(tasks[i][0], 'the prover process ended unexpectedly')
            elif not p.is_alive() and not a.poll(0.1): res[i] = fail_result(tasks[i][0], 'the prover process ended unexpectedly')
            else: continue
            p.join(5); a.close(); del running[i]; done = True
            if stop and stop(res[i]):
                for p2, a2 in running.values(): p2.kill()
                return [r for r in res if r is not None]
        if not done:
            if time.time() > end:
                for i, (p, a) in running.items(): p.kill(); res[i] = fail_result(tasks[i][0], 'time limit')
                for i in pending: res[i] = fail_result(tasks[i][0], 'time limit (not started)')
                break
            time.sleep(0.05)
    return res

def fail_result(name, why):
    return dict(name=name, obl=[], limits=[(name, why)], funcs={}, contracts={}, bounded=[], nchecks=0, tsolve=0, info='', wall=0)
