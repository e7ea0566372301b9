"""C01-C12: Server and Client, through explore.py"""
import time
import z3
from symex import State, Str
from llir import Module
import explore, runner
INSTS = ['dR', 'dC', 'fR', 'fC', 'iR', 'iC', 'bR', 'bC']
SRV_ONLY = {'C07', 'C08'}; CLT_ONLY = {'C09'}

def slim(x, name):
    e = x.e
    obl = [dict(prop=o['prop'], label=o['label'], ctx=o['ctx'], ok=o['ok'], status=o['status'], how=o['how'], t=round(o['t'], 4), at=o['at'] if not o['ok'] else '', model=o['model']) for o in e.obl]
    return dict(obl=obl, limits=[(str(a), str(b)) for a, b in x.limits], funcs=e.executed, contracts=e.contracts_used, bounded=sorted(e.bounded), nchecks=e.nchecks, tsolve=e.tsolve, ninstr=e.ninstr,
                loops=len(e.loopinv), info=dict(object_states=len(x.states), operations=x.nops, copies=len(x.copied), refined=x.refined))

def thunk(mod, name, ep, inst, prop, deadline, **kw):
    def f():
        x = explore.run(mod, ep, inst, [prop], deadline=deadline, **kw)
        r = slim(x, name)
        # vacuity guard: every operation was reached, and obligations were generated
        if not r['limits'] and not any(not o['ok'] for o in r['obl']):
            if not r['obl']: r['limits'].append((name, 'vacuous: no obligation was generated'))
            if not kw.get('other') and r['info']['object_states'] < (4 if ep == 'srv' else 3): r['limits'].append((name, 'vacuous: only %d object states reached' % r['info']['object_states']))
            if not kw.get('other') and not x.copied: r['limits'].append((name, 'vacuous: no transfer reached'))
        return r
    return f

def lead(p):
    if not p.p: return b''
    x = p.p[0]
    return x[:1] if isinstance(x, bytes) else lead(x[1]) if isinstance(x, tuple) and x[0] == 'sub' and x[2] > 0 else b''

def distinct(e, st, prop, named, atoms):
    """pairwise distinctness and composition of names, for all values of the atoms (string solver)"""
    V = {a: z3.String(a[1]) for a in atoms}
    def zs(p):
        x = [z3.StringVal(y.decode('latin1')) if isinstance(y, bytes) else z3.SubString(zs(y[1]), 0, y[2]) if y[0] == 'sub' else V[y] for y in p.p]
        return z3.Concat(*x) if len(x) > 1 else x[0] if x else z3.StringVal('')
    for r, p in named:
        for a in atoms: e.oblige(st, prop, 'the name of %s contains the %s' % (r, a[1]), a in p.p or (any(isinstance(y, tuple) and y[0] == 'sub' for y in p.p) and z3.Contains(zs(p), V[a])))
        e.oblige(st, prop, 'the name of %s is a name POSIX accepts (leading slash)' % r, lead(p) == b'/')
    for i, (r, p) in enumerate(named):
        for r2, q in named[:i]:
            a, b = list(p.p), list(q.p)
            while a and b and a[0] == b[0]: a.pop(0); b.pop(0)
            while a and b and a[-1] == b[-1]: a.pop(); b.pop()
            a, b = Str(a), Str(b)
            if a.const() and b.const(): c = a.bytes() != b.bytes()
            elif (not a.p and any(isinstance(x, bytes) for x in b.p)) or (not b.p and any(isinstance(x, bytes) for x in a.p)): c = True
            else: c = zs(a) != zs(b)
            e.oblige(st, prop, 'the names of %s and %s differ' % (r, r2), c)

def names_task(mod, deadline):
    x = explore.Explorer(mod, 'srv', 'dR', ['C13'], deadline=deadline)
    x.e.obl.clear(); x.w.ctx = 'SharedMemConfig'; x.states = {}; x.nops = 0; x.refined = 0
    distinct(x.e, State(), 'C13', list(zip(explore.ROLES, x.items)), [('a', 'namespace'), ('a', 'name')])
    return slim(x, 'names')

def tasks(prop, d, tier, budget):
    mod = Module(runner.build_ir(d, 'drv_shm'))
    deadline = time.time() + budget
    T = []
    if prop in ('C06', 'C08', 'C09', 'C12'):
        import fam_misc
        mod2 = Module(runner.build_ir(d, 'drv_misc'))
        T.append(('Journal::log', lambda: fam_misc.journal_task(mod2, prop, deadline)))
    if prop == 'C13': T.append(('SharedMemConfig', lambda: names_task(mod, deadline)))
    def add(ep, inst, **kw):
        name = '%s<%s>%s' % ('Server' if ep == 'srv' else 'Client', inst, ''.join(' ' + k + ('=' + v if isinstance(v, str) else '') for k, v in kw.items() if v))
        T.append((name, thunk(mod, name, ep, inst, prop, deadline, **kw)))
    eps = [ep for ep in ('clt', 'srv') if not (ep == 'clt' and prop in SRV_ONLY) and not (ep == 'srv' and prop in CLT_ONLY)]
    for ep in eps:
        for i in INSTS: add(ep, i)
    thorough = tier == 'thorough'
    some = INSTS if thorough else ['dR', 'bC']
    if 'srv' in eps and (thorough or prop in ('C05', 'C06', 'C08', 'C11', 'C12')):
        for i in some: add('srv', i, force=True)
    if thorough or prop in ('C03', 'C05', 'C06', 'C10'):
        for ep in eps:
            for i in (some if thorough else ['iR']): add(ep, i, may_fail_post=True)
    if 'srv' in eps and (thorough or prop in ('C08', 'C05', 'C06', 'C07', 'C12')):
        for i in (INSTS if prop == 'C08' or thorough else ['dR']):
            add('srv', i, other='ctor'); add('srv', i, other='run')
    return T

TRUSTED = [
    'clang 18 front end and mem2reg/loop-simplify/lcssa (the verified text is the LLVM IR of the unmodified sources, re-generated on every run, -DNDEBUG)',
    'the verification-condition generator eipcv/symex.py and z3',
    'assumed contracts: POSIX shm_open/shm_unlink/ftruncate/mmap/close/sem_*/clock_gettime/nanosleep, std::string and ostream, memory allocation (never fails), Eigen call_dense_assignment_loop (dst(i,j)=src(i,j) for every i,j of the sizes and strides its operands report)',
    'contract of EigenIPC::Journal::log (throws std::runtime_error exactly for EXCEP with throw_when_excep, no other effect): its body is verified in C06, C08, C09, C12 and C20',
    'binary semaphores are created with value 1 and other processes follow the same protocol (rely condition: they change the shared items only as the code under contract does)',
    'preconditions: rows, cols >= 0, |block sizes and strides| < 2^40, outer stride != 0, verbosity level 0..3, a manual lock release only by a caller that took the lock',
]
