"""C16-C18: condition variables, producers and consumers.  ConditionVariable, Producer and Consumer are executed as they are (for all
inputs, all schedules at the points where a mutex is not held, and - by an inductive invariant over the objects' cells - all
histories); boost::interprocess and Server<int>/Client<int> are represented by contracts."""
import os, re, time, z3
import symex, runner
from symex import *
from llir import Module, Unsupported, INT, PTR
from world import World, bv64, short, THREW
from fam_misc import W, eqp, sx, result, live, journal_task
from fam_shm import distinct

BI = 'boost::interprocess::'
IPX = '_ZTIN5boost12interprocess22interprocess_exceptionE'
BASE, NSP = ('a', 'name'), ('a', 'namespace')
def mask32(v): return to_bv(v, 32) if is_sym(v) else z3.BitVecVal(int(v) & 0xffffffff, 32)
def eq32(a, b): return nbool(mask32(a) == mask32(b))
def zimp(a, b): return b_or(b_not(a), b)

class SyncWorld(W):
    """ghost state: ('held', object key) - the mutex is held by this process; val_T/val_A - the shared counts (meaningful while the mutex that
    guards them is held); ..."""
    def __init__(s, prop):
        super().__init__(prop)
        s.obj = {}            # (object id, offset) -> (kind, name, mode)
        s.cnt = {}            # (object id, offset) -> counter number
        s.cname = {}; s.cinfo = {}
        s.guard = {}          # counter number -> name of the mutex that guards it (learned)
        s.expectdl = None
        s.pre = None
        nop = lambda e, st, a, n, d, r: None
        s.rx(r'boost::interprocess::named_(condition|mutex)::named_(condition|mutex)\(', s.h_make)
        s.rx(r'boost::interprocess::named_(condition|mutex)::~named_(condition|mutex)\(', s.h_del)
        s.rx(r'boost::interprocess::named_(condition|mutex)::remove\(char const\*\)', s.h_remove)
        s.rx(r'boost::interprocess::named_mutex::(lock|unlock|try_lock|timed_lock.*)\(', s.h_mutex)
        s.rx(r'(void |bool )?boost::interprocess::named_condition::(wait|timed_wait|wait_for|wait_until)<', s.h_wait)
        s.rx(r'boost::interprocess::named_condition::notify_(one|all)\(\)', s.h_notify)
        s.rx(r'boost::interprocess::permissions::', nop)
        s.rx(r'boost::interprocess::(lock_exception|interprocess_exception)::', nop)
        s.rx(r'boost::date_time::microsec_clock<boost::posix_time::ptime>::universal_time\(\)', s.h_now)
        s.rx(r'boost::date_time::(micro)?sec(ond)?_clock<boost::posix_time::ptime>::\w+\(', s.h_othertime)
        s.rx(r'std::function<bool \(\)>::(function|~function)\(', s.h_fn)
        s.rx(r'std::_Function_base::', nop)
        s.rx(r'std::function<bool \(\)>::operator\(\)\(\) const', s.h_callback)
        s.rx(r'EigenIPC::(Server|Client)<int, \d>::', s.h_counter)
    def gdef(s, k):
        if isinstance(k, tuple) and k[0] in ('held', 'seen', 'run', 'wr'): return False
        return super().gdef(k)
    def gwidth(s, k, x, y):
        for v in (x, y):
            if is_sym(v) and z3.is_bv(v): return v.size()
        t = k[0] if isinstance(k, tuple) else k
        if t in ('val', 'start', 'before', 'consumed', 'last'): return 32
        return 8
    def O(s, st, l, c, prop=None): s.e.oblige(st, prop or s.prop, l, c)
    # ------------------------------------------------------------ boost objects
    def key(s, p, kind=None):
        if not isinstance(p, Ptr): raise ToolLimit('synchronisation object is not known')
        o = s.obj.get((p.o, p.off))
        if o is None:
            o2 = s.e.objs[p.o]
            if o2.kind in ('null',): s.bad_deref_now = True; raise ToolLimit('null synchronisation object')
            raise ToolLimit('unknown synchronisation object')
        if kind and o[0] != kind: raise ToolLimit('wrong kind of object')
        return o
    def h_make(s, e, st, a, n, d, r):
        kind = re.match(r'boost::interprocess::named_(condition|mutex)', d).group(1)
        m = re.search(r'(create_only|open_only|open_or_create)_t', d)
        if not m: return nop
        name = s.cs(st, a[1])
        s.obj[(a[0].o, a[0].off)] = (kind, name)
        st.w(a[0].o)[a[0].off] = (8, fresh_bv('handle', 64))
        s.on_make(st, kind, m.group(1), name)
        t = st.clone()
        return Outcome(st, None, s.throw(t, IPX))
    def on_make(s, st, kind, mode, name):
        k = ('made', kind); st.g[k] = s.bump(st.g.get(k, 0)); s.makes.append((kind, mode, name)); s.allmakes.append((kind, mode, name))
    def bump(s, v): return v + 1 if isinstance(v, int) else norm(v + 1)
    def h_del(s, e, st, a, n, d, r): return None
    def h_remove(s, e, st, a, n, d, r):
        kind = re.match(r'boost::interprocess::named_(condition|mutex)', d).group(1)
        s.on_remove(st, kind, s.cs(st, a[0]))
        return fresh_bool('removed')
    def on_remove(s, st, kind, name):
        k = ('rm', kind); st.g[k] = s.bump(st.g.get(k, 0)); s.removes.append((kind, name))
    def mkey(s, p): return s.key(p, 'mutex')[1]
    def acquire(s, st, k):
        s.O(st, 'a mutex is not locked twice by one thread', b_not(st.g.get(('held', k), False)))
        st.g[('held', k)] = True; s.refresh(st, k)
    def refresh(s, st, k):
        """others may have held the mutex: what it guards is arbitrary, and nothing is known about the count any more"""
        s.envops += 1
        for c in (0, 1):
            if s.guard.get(c) in (None, k): st.g[('seen', c)] = False; st.g[('val', c)] = fresh_bv('val%d' % c, 32); st.g[('start', c)] = st.g[('val', c)]
    def release(s, st, k):
        s.O(st, 'only a mutex that is held is unlocked', st.g.get(('held', k), False))
        st.g[('held', k)] = False
        for c in (0, 1):
            if s.guard.get(c) in (None, k): st.g[('seen', c)] = False
    def h_mutex(s, e, st, a, n, d, r):
        op = re.search(r'named_mutex::(\w+)', d).group(1); k = s.mkey(a[0])
        s.mop(st, op, a[0])
        if op == 'lock': s.acquire(st, k); return None
        if op == 'unlock': s.release(st, k); return None
        t = fresh_bool('locked'); s1, s2 = s.both(st.clone(), t)
        s.acquire(s1, k)
        return Outcome(e.merge2(s1, s2), t)
    def mop(s, st, op, p): pass
    def lockinfo(s, st, p):
        """mutex and state of a scoped_lock (executed)"""
        e = s.e; x = e.call(st.clone(), 'drv_lock_mutex', [p]); y = e.call(st.clone(), 'drv_lock_owns', [p])
        return x.val, to_bool(y.val)
    def h_wait(s, e, st, a, n, d, r):
        op = re.search(r'named_condition::(\w+)<', d).group(1)
        ck = s.key(a[0], 'condition')[1]
        mx, owns = s.lockinfo(st, a[1]); k = s.mkey(mx)
        s.O(st, 'waiting is done with a lock that is held', b_and(owns, st.g.get(('held', k), False)))
        s.on_wait(st, op, a, ck, k, d)
        pred = len(a) > (3 if op != 'wait' else 2)
        s.refresh(st, k)
        if op == 'wait':
            st.g['cbtrue'] = pred
            return None
        t = fresh_bool('woken'); st.g['expired'] = b_or(st.g.get('expired', False), b_not(t)); st.g['cbtrue'] = b_and(t, pred)
        return t
    def on_wait(s, st, op, a, ck, k, d): pass
    def h_notify(s, e, st, a, n, d, r):
        s.on_notify(st, re.search(r'notify_(\w+)', d).group(1), s.key(a[0], 'condition')[1])
    def on_notify(s, st, how, name): pass
    def h_now(s, e, st, a, n, d, r):
        v = z3.BitVec('now%d' % len(s.nows), 64); s.nows.append(v)
        s.axioms += [v > 0, v < (1 << 61)]
        if r is not None and r.k == 'int': return v
        if a: st.w(a[0].o)[a[0].off] = (8, v); return None
        return v
    def h_othertime(s, e, st, a, n, d, r):
        """local time, or time of lower resolution: another value"""
        v = fresh_bv('othertime', 64); s.axioms += [v > 0, v < (1 << 61)]
        if r is not None and r.k == 'int': return v
        st.w(a[0].o)[a[0].off] = (8, v); return None
    # ------------------------------------------------------------ callbacks
    def h_fn(s, e, st, a, n, d, r):
        if '::function(' in d and len(a) > 1: st.w(a[0].o)[a[0].off] = (32, Str((('fn', 'callback'),)))
        return None
    def h_callback(s, e, st, a, n, d, r):
        if s.op in ('wait_for', 'timedwait_for'):
            v = fresh_bool('predicate'); st.g['cbtrue'] = v; s.envops += 1
            return v
        st.g['cb'] = s.bump(st.g['cb']); st.g['cbaw'] = s.awaited(st)
        for k in dict.fromkeys(s.mutexes()): s.O(st, 'the callback runs without a mutex being held', b_not(st.g.get(('held', k), False)))
        return Outcome(st, s.pre, s.throw(st.clone(), '_ZTISt13runtime_error'))
    def mutexes(s): return [v[1] for v in s.obj.values() if v[0] == 'mutex']
    # ------------------------------------------------------------ shared counters
    def h_counter(s, e, st, a, n, d, r):
        m = re.match(r'EigenIPC::(Server|Client)<int, (\d)>::(~?\w+)', d); cls, op = m.group(1), m.group(3)
        p = a[0]
        if not isinstance(p, Ptr): raise ToolLimit('counter object')
        k = (p.o, p.off)
        if op == cls:
            c = len(s.cnt); s.cnt[k] = c
            st.g[('run', c)] = False
            i = 3 if cls == 'Server' else 1
            s.cname[c] = (s.gets(st, a[i]), s.gets(st, a[i + 1])); s.cinfo[c] = (cls, a[1:3] if cls == 'Server' else None, a[-2:] if cls == 'Server' else a[-1:])
            s.layout = m.group(2)
            return None
        if k not in s.cnt: raise ToolLimit('unknown counter')
        c = s.cnt[k]
        if op[0] == '~': st.g[('run', c)] = False; return None
        if op in ('run', 'attach'):
            t = s.throw(st.clone(), '_ZTISt13runtime_error')
            st.g[('run', c)] = True
            s.envops += 1
            return Outcome(st, None, t)
        if op in ('close', 'detach', 'stop'): st.g[('run', c)] = False; return None
        if op in ('isRunning', 'isAttached'): return st.g[('run', c)]
        if op in ('read', 'write'):
            held = False; names = []
            for mk in dict.fromkeys(s.mutexes()):
                h = st.g.get(('held', mk), False)
                if h is not False: names.append(mk)
            if len(names) > 2: raise ToolLimit('mutexes %r' % (names,))
            g = s.guard.get(c)
            if g is None and s.learning: g = s.guard[c] = s.pick(st, c, names)
            s.O(st, 'the count is only %s while holding the mutex that guards it' % ('read' if op == 'read' else 'written'), g is not None and st.g.get(('held', g), False))
            fn = 'drv_probe_ref' if 'Eigen::Ref<' in d else 'drv_probe_map' if 'Eigen::Map<' in d else None
            if fn is None: raise ToolLimit('counter transfer')
            o = e.new_obj('probe', 24, 'ext'); t = st.clone(); t.mem[o.id] = {}; t.own.add(o.id)
            mu, s.mute = s.mute, True
            try: x = e.call(t, fn, [a[1], Ptr(o.id, 0), Ptr(o.id, 8)])
            finally: s.mute = mu
            b, R, C = [x.ret.mem[o.id][8 * i][1] for i in range(3)]
            s.O(st, 'the whole count is transferred', b_and(b_and(eqp(R, 1), eqp(C, 1)), b_and(eqp(sx(a[2]), 0), eqp(sx(a[3]), 0))))
            if not isinstance(b, Ptr): raise ToolLimit('counter value')
            run = st.g[('run', c)]
            if op == 'read':
                old = e.load(st, b, 4, INT(32))
                if isinstance(old, Undef): old = fresh_bv('uninitialised', 32)
                e.store(st, b, 4, ite(run, st.g[('val', c)], old, 32), INT(32))
                st.g[('seen', c)] = b_or(st.g.get(('seen', c), False), run)
            else:
                v = e.load(st, b, 4, INT(32))
                if isinstance(v, Undef): v = fresh_bv('uninitialised', 32)
                s.on_write(st, c, run, v)
                st.g[('val', c)] = ite(run, v, st.g[('val', c)], 32); st.g[('wr', c)] = b_or(st.g.get(('wr', c), False), run)
            return run
        if op in ('getNRows', 'getNCols'): return 1
        raise ToolLimit('counter operation without contract: ' + d)
    def pick(s, st, c, names):
        """the guarding mutex, learned from the producer: the held one no other count is guarded by"""
        l = [x for x in names if x not in s.guard.values()]
        return l[0] if l else None
    def on_write(s, st, c, run, v): pass
    learning = False
    semdiff = True

# ------------------------------------------------------------------------------------------------ histories
class Hist:
    """inductive invariant over the cells of one object: for every mode (new, running, closed, ...) every integer cell is a constant, equal
    to a ghost variable, or arbitrary; found by dropping candidates until every operation preserves them"""
    GH = ('before', 'consumed', 'lastT')
    def __init__(s, e, obj, ghosts): s.e, s.obj, s.ghosts = e, obj, ghosts; s.inv = {}; s.rounds = 0
    def order(s, st):
        """(signature of the object graph, its objects in canonical order)"""
        w = s.e.w; todo = [s.obj.id]; seen = []; sig = []
        while todo:
            o = todo.pop(0)
            if o in seen: continue
            seen.append(o)
            sig.append((s.e.objs[o].kind, tuple(sorted((k, v) for (x, k), v in w.obj.items() if x == o))))
            for k in sorted(k for k in st.mem.get(o, {}) if isinstance(k, int)):
                v = st.mem[o][k][1]
                if isinstance(v, Ptr):
                    kd = s.e.objs[v.o].kind
                    if kd in ('heap', 'heapx', 'ext') and v.o in st.mem: todo.append(v.o); sig.append((len(seen), k, 'obj', v.off))
                    else: sig.append((len(seen), k, kd, s.e.objs[v.o].name))
        return tuple(sig), seen
    def split(s, st):
        """one state per alternative of the pointers in the object graph"""
        for o in s.order(st)[1]:
            for k, (n, v) in list(st.mem.get(o, {}).items()):
                if isinstance(v, GV):
                    out = []
                    for c, p in v.alts:
                        t = st.clone(); t.assume(c)
                        if t.dead() or not s.e.feasible(t.pc): continue
                        t.w(o)[k] = (n, p); out += s.split(t)
                    return out
        return [st]
    def cells(s, st, order):
        out = {}
        for i, o in enumerate(order):
            for k, (n, v) in st.mem.get(o, {}).items():
                if isinstance(k, int): out[(i, k)] = (n, Ptr(order.index(v.o) - 1000, v.off) if isinstance(v, Ptr) and v.o in order else v)
        return out
    def gval(s, st, g): return st.g.get(g)
    def cand(s, st, n, v):
        c = set()
        if isinstance(v, (Str, Ptr, GV)) or v is None or isinstance(v, Undef): return c
        if isinstance(v, (int, bool)): c.add(('const', int(v) & ((1 << (8 * n)) - 1)))
        if n == 4:
            for g in s.ghosts:
                x = s.gval(st, g)
                if x is not None and not isinstance(x, Undef) and (same(x, v) or s.e.valid(st, eq32(x, v))): c.add(('ghost', g))
        return c
    def join(s, mode, st):
        """-> True if the invariant of the mode changed"""
        if st is None or st.dead() or not s.e.feasible(st.pc): return False
        ch = False
        for x in s.split(st): ch = s.join1(mode, x) or ch
        return ch
    def join1(s, mode, st):
        sg, order = s.order(st); new = s.cells(st, order); key = (mode, sg)
        I = s.inv.get(key)
        if I is None:
            s.inv[key] = dict(st=st, order=order, mode=mode, ver=0, cells={k: (n, v, s.cand(st, n, v)) for k, (n, v) in new.items()}, g={g: s.gcand(st, g) for g in st.g})
            return True
        ch = False
        for k in list(I['cells']):
            n, v, c = I['cells'][k]
            if k not in new or new[k][0] != n:
                if isinstance(v, (Str, Ptr, GV)) or k in new: raise ToolLimit('object shape differs between histories')
                if c: I['cells'][k] = (n, v, set()); ch = True          # initialised in some histories only: arbitrary
                continue
            w = new[k][1]
            if isinstance(v, (Str, Ptr, GV)) or isinstance(w, (Str, Ptr, GV)):
                if same(v, w): continue
                raise ToolLimit('cell differs between histories')
            keep = set()
            for x in c:
                t = x[1] if x[0] == 'const' else s.gval(st, x[1])
                if w is None or isinstance(w, Undef) or t is None or isinstance(t, Undef): continue
                if same(t, w) or s.e.valid(st, nbool(to_bv(t, 8 * n) == to_bv(w, 8 * n))): keep.add(x)
            if keep != c: I['cells'][k] = (n, v, keep); ch = True
        for k in new:
            if k not in I['cells']: I['cells'][k] = (new[k][0], fresh_bv('cell', 8 * new[k][0]), set()); ch = True
        for g in list(I['g']):
            c = I['g'][g]
            if c is None: continue
            x = st.g.get(g)
            if x is None or not same(c, x): I['g'][g] = None; ch = True
        if ch: I['ver'] += 1
        return ch
    def gcand(s, st, g):
        v = st.g[g]
        return v if isinstance(v, (int, bool, str)) else None
    def state(s, key):
        I = s.inv[key]; st0 = I['st']; st = State()
        for o, x in st0.mem.items():
            if s.e.objs[o].kind in ('heap', 'heapx') and o not in I['order']: continue
            st.mem[o] = dict(x); st.own.add(o)
        for g in s.ghosts: st.g[g] = fresh_bv(str(g), 32)
        for g, c in I['g'].items():
            if g in s.ghosts: continue
            if c is not None: st.g[g] = c
            else:
                v = st0.g[g]
                if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)): st.g[g] = fresh_bool('g')
                elif isinstance(v, int) or is_sym(v): st.g[g] = fresh_bv('g', s.e.w.gwidth(g, v, v))
                else: st.g[g] = v
        for (i, k), (n, v, c) in I['cells'].items():
            o = I['order'][i]
            if isinstance(v, (Str, Ptr, GV)) or v is None or isinstance(v, Undef): continue
            cs = [x[1] for x in c if x[0] == 'const']; gs = sorted(x[1] for x in c if x[0] == 'ghost')
            if cs: st.mem[o][k] = (n, cs[0])
            elif gs: st.mem[o][k] = (n, st.g[gs[0]])
            elif isinstance(v, (int, bool)) or is_sym(v): st.mem[o][k] = (n, fresh_bv('cell', 8 * n) if not (n == 1 and s.boolcell(v)) else ite(fresh_bool('cell'), 1, 0, 8))
            for g in gs:
                if cs: st.assume(eq32(st.g[g], cs[0]))
                elif g != gs[0]: st.assume(eq32(st.g[g], st.g[gs[0]]))
        return st
    def boolcell(s, v): return isinstance(v, bool) or v in (0, 1) if isinstance(v, (int, bool)) else True

def mk(e, st, name, n, kind='ext'):
    o = e.new_obj(name, n, kind); st.mem[o.id] = {}; st.own.add(o.id); return o
def strarg(e, st, name, v): o = mk(e, st, name, 32); st.w(o.id)[0] = (32, v); return Ptr(o.id, 0)
def szof(e, fn): return e.call(State(), fn, []).val

class PWorld(SyncWorld):
    """producer and consumer: monitors"""
    def __init__(s, prop):
        super().__init__(prop); s.makes = []; s.removes = []; s.results = []; s.nows = []; s.roles = {}; s.op = None; s.allmakes = []
    def O(s, st, l, c, prop=None):
        if s.prop == 'C18' and prop != 'C18': return
        if s.prop != 'C18' and prop == 'C18': return
        super().O(st, l, c)
    def on_make(s, st, kind, mode, name):
        super().on_make(st, kind, mode, name)
        s.O(st, 'a producer creates its synchronisation objects, a consumer only opens them', mode == ('create_only' if s.who == 'pr' else 'open_only'), 'C18')
    def on_remove(s, st, kind, name):
        super().on_remove(st, kind, name)
        s.O(st, 'a consumer never removes a name', s.who == 'pr', 'C18')
        s.O(st, 'a producer removes names only when it is forced, run again after a failure, or destroyed', s.op in ('run', 'destroy', 'close'), 'C18')
    def on_wait(s, st, op, a, ck, k, d):
        c = {'wait_ack': 1, 'wait': 0, 'wait_and_ack': 0}.get(s.op)
        if c is None: s.O(st, 'this operation does not wait', False); return
        P = s.prop
        s.O(st, 'waiting is done on the condition and mutex of the count', s.guard.get(c) == k and s.roles.get(('cond', c)) in (None, ck))
        s.roles.setdefault(('cond', c), ck)
        s.O(st, 'the count was checked since the mutex was taken or the last wake-up', st.g.get(('seen', c), False))
        s.O(st, 'waiting continues only while the count is not the awaited one', b_not(s.awaited(st)))
        if c == 0: s.O(st, 'waiting continues only while the count has not moved', nbool(mask32(st.g[('val', 0)]) == mask32(st.g['consumed'])))
        if op != 'wait': s.O(st, 'a timed wait is used only with a timeout', nbool(s.ms > 0))
        else: s.O(st, 'an untimed wait is used only without a timeout', nbool(s.ms <= 0))
    def reset(s, st):
        """ghosts of one operation"""
        s.results = []; s.makes = []; s.removes = []
        for k in list(st.g):
            if isinstance(k, tuple) and k[0] == 'held': st.g[k] = False         # obligation 'no mutex stays locked' of every operation
            if k in ('cb', 'cbres') or isinstance(k, tuple) and k[0] in ('made', 'rm'): del st.g[k]
        st.g['notified'] = False; st.g['expired'] = False; st.g['cb'] = 0; st.g['cbok'] = False; st.g['cbaw'] = True
        for c in (0, 1):
            st.g[('wr', c)] = False; st.g[('seen', c)] = False; st.g[('val', c)] = fresh_bv('val', 32); st.g[('start', c)] = st.g[('val', c)]
        st.g.pop(THREW, None); st.g.pop('excobj', None)
    def awaited(s, st):
        v = st.g[('val', 1 if s.op == 'wait_ack' else 0)]
        if s.op == 'wait_ack': return nbool(mask32(v) - mask32(st.g['before']) == s.n)
        return nbool(mask32(v) - mask32(st.g['consumed']) == 1)
    def on_notify(s, st, how, name):
        c = {'trigger': 0, 'ack': 1, 'wait_and_ack': 1}.get(s.op)
        if c is None: return
        s.O(st, 'those waiting for the count are notified', s.roles.get(('cond', c)) in (None, name))
        s.roles.setdefault(('cond', c), name)
        if c == 0: s.O(st, 'a trigger notifies all waiters', how == 'all')
        s.O(st, 'notification happens while holding the mutex', s.guard.get(c) is not None and st.g.get(('held', s.guard[c]), False))
        s.O(st, 'the count is changed before the waiters are notified', b_or(st.g.get(('wr', c), False), b_not(st.g[('run', c)])))
        st.g['notified'] = True
    def on_write(s, st, c, run, v):
        if s.op == 'run': s.O(st, 'counts start at zero', eq32(v, 0)); return
        if (s.op, c) in (('trigger', 0), ('ack', 1), ('wait_and_ack', 1)):
            s.O(st, 'the count is increased by exactly one', b_or(b_not(run), b_and(b_not(st.g.get(('wr', c), False)), nbool(mask32(v) - mask32(st.g[('start', c)]) == 1))))
        else: s.O(st, 'the operation changes no other count', b_not(run))
    def refresh(s, st, k):
        super().refresh(st, k)
        if s.who == 'pr' and s.guard.get(0) == k and s.op != 'run': st.g[('val', 0)] = st.g['lastT']; st.g[('start', 0)] = st.g['lastT']      # only the producer writes it

def producer_task(mod, who, prop, deadline):
    w = PWorld(prop); e = Engine(mod, w); e.deadline = deadline; w.who = who; limits = []
    w.n, w.ms = z3.BitVec('n_consumers', 32), z3.BitVec('ms', 32)
    w.pre = z3.Bool('pre_ack')
    ROUT = {'pr': ['run', 'close', 'trigger', 'wait_ack'], 'co': ['run', 'close', 'wait', 'ack', 'wait_and_ack']}[who]
    names = {}
    try:
        w.ctx = {'pr': 'Producer', 'co': 'Consumer'}[who]
        if who == 'co':         # the producer's names: what the consumer must use
            w2, e2, names = learn(mod, deadline)
            w.guard = dict(w2.guard); w.roles = dict(w2.roles); prodc = w2.cname; prodl = w2.layout
        st = State(); e.strings = 1
        for g in ('before', 'consumed', 'lastT'): st.g[g] = 0
        obj = mk(e, st, 'object', szof(e, 'drv_%s_sizeof' % who))
        fnob = mk(e, st, 'callback', 32, 'glob2'); st.w(fnob.id)[0] = (32, Str((('fn', 'callback'),)))
        b, n = strarg(e, st, 'basename', Str((BASE,))), strarg(e, st, 'namespace', Str((NSP,)))
        w.op = 'make'
        verbose = z3.Bool('verbose'); lvl = z3.BitVec('vlevel', 32)
        x = e.call(st, 'drv_%s_make' % who, [Ptr(obj.id, 0), b, n, False, 0] + ([z3.Bool('force')] if who == 'pr' else []))
        w.learning = who == 'pr'
        H = Hist(e, obj, ['before', 'consumed', 'lastT'])
        H.join('new', x.ret)
        ops = ['run', 'close'] + ROUT[2:]
        w.mute = True; work = True; w.phase = 'invariant'
        def after(mode, op, thr):
            if op == 'run' and mode in ('new', 'partial'): return 'partial' if thr else 'running'
            if op == 'close' and mode == 'running': return 'closed'
            return mode
        def run1(mode, op):
            st = H.state(mode); w.op = op
            w.reset(st)
            pre = st.clone()
            a = {'run': [], 'close': [], 'trigger': [], 'wait_ack': [w.n, w.ms], 'wait': [w.ms], 'ack': [], 'wait_and_ack': [Ptr(fnob.id, 0), w.ms]}[op]
            x = e.call(st, 'drv_%s_%s' % (who, op), [Ptr(obj.id, 0)] + a)
            return pre, x
        def spec(mode, pre, op, st, val, thr):
            """the ghost variables after the operation, by the specification"""
            if st is None: return
            if op == 'run' and mode in ('new', 'partial'):
                for g in H.ghosts: st.g[g] = 0
                return
            ok = nbool(zb(to_bool(val))) if val is not None else False
            if op == 'wait_ack' and not thr: st.g['before'] = ite(ok, st.g[('val', 1)], pre.g['before'], 32)
            if op == 'wait' and not thr: st.g['consumed'] = ite(ok, mask32(pre.g['consumed']) + 1, pre.g['consumed'], 32)
            if op == 'wait_and_ack': st.g['consumed'] = ite(st.g['cb'] != 0 if isinstance(st.g['cb'], int) else nbool(mask_any(st.g['cb']) != 0), mask32(pre.g['consumed']) + 1, pre.g['consumed'], 32)
            if who == 'pr': st.g['lastT'] = ite(st.g[('wr', 0)], st.g[('val', 0)], pre.g['lastT'], 32)
        def mask_any(v): return to_bv(v, 8) if is_sym(v) else z3.BitVecVal(int(v), 8)
        done = {}
        while work:
            work = False; H.rounds += 1
            if H.rounds > 40: raise ToolLimit('no invariant found')
            for key in list(H.inv):
                mode = key[0]
                for op in ops:
                    if done.get((key, op)) == H.inv[key]['ver']: continue
                    done[(key, op)] = H.inv[key]['ver']
                    pre, x = run1(key, op)
                    for st, val, thr in ((x.ret, x.val, False), (x.thr, None, True)):
                        if st is None: continue
                        spec(mode, pre, op, st, val, thr)
                        for k in [o for o in st.mem if e.objs[o].kind == 'local']: st.mem.pop(k)
                        if H.join(after(mode, op, thr), st): work = True
        w.mute = False; w.learning = False
        for key in list(H.inv):
            mode = key[0]
            for op in ops:
                w.ctx = '%s.%s (%s)' % ({'pr': 'Producer', 'co': 'Consumer'}[who], op, mode)
                pre, x = run1(key, op)
                post(w, e, who, op, mode, pre, x)
            st = H.state(key); w.reset(st); w.op = 'destroy'; w.ctx = '%s destruction (%s)' % ({'pr': 'Producer', 'co': 'Consumer'}[who], mode)
            for k in ('condition', 'mutex'): st.g[('rm', k)] = 0
            x = e.call(st, 'drv_%s_destroy' % who, [Ptr(obj.id, 0)])
            for k in ('condition', 'mutex'):
                if mode in ('running', 'closed'):
                    v = x.ret.g[('rm', k)]; n = 2 if who == 'pr' else 0
                    w.O(x.ret, 'destruction of a producer that ran removes its names, each once; destruction of a consumer removes none', v == n if isinstance(v, int) else nbool(to_bv(v, 8) == n), 'C18')
        w.ctx = {'pr': 'Producer', 'co': 'Consumer'}[who]
        names_check(w, e, who, prop, None if who == 'pr' else (prodc, prodl))
        info = dict(modes=sorted(k[0] for k in H.inv), rounds=H.rounds, ghost_cells=sorted({(k[0], g) for k, I in H.inv.items() for _, _, c in I['cells'].values() for x, g in c if x == 'ghost'}))
    except (ToolLimit, Unsupported) as ex:
        limits.append((w.ctx, ex)); info = {}
    return result(e, limits, **info)

def post(w, e, who, op, mode, pre, x):
    O = w.O
    st = x.ret; val = nbool(zb(to_bool(x.val))) if x.val is not None else None
    mx = w.mutexes()
    run = b_and(pre.g[('run', 0)], pre.g[('run', 1)]) if len(w.cnt) > 1 else False
    for s2 in (x.ret, x.thr):
        if s2 is None or s2.dead(): continue
        for k in dict.fromkeys(mx): O(s2, 'no mutex stays locked after the operation', b_not(s2.g.get(('held', k), False)))
    if st is not None and not st.dead():
        if op == 'trigger':
            O(st, 'a trigger that returns has increased the count by exactly one', b_and(st.g[('wr', 0)], nbool(mask32(st.g[('val', 0)]) - mask32(pre.g['lastT']) == 1)))
            O(st, 'a trigger that returns has notified', st.g['notified'])
        if op in ('wait_ack', 'wait'):
            c = 1 if op == 'wait_ack' else 0
            O(st, 'true is returned only for the awaited count', zimp(val, w.awaited(st)))
            O(st, 'false is returned only after a timed wait has expired', b_or(val, st.g['expired']))
        if op == 'ack':
            O(st, 'an acknowledgement that succeeded has increased the count by exactly one', zimp(val, b_and(st.g[('wr', 1)], st.g['notified'])))
            O(st, 'an acknowledgement fails only if the count cannot be written', b_or(val, b_not(run)))
        if op == 'wait_and_ack':
            cb = st.g['cb']; called = nbool(to_bv(cb, 8) == 1) if is_sym(cb) else cb == 1; never = nbool(to_bv(cb, 8) == 0) if is_sym(cb) else cb == 0
            O(st, 'the callback is called at most once', b_or(called, never))
            O(st, 'the callback is called only after a trigger was received', zimp(called, st.g['cbaw']))
            O(st, 'it is acknowledged if and only if the wait succeeded', b_or(nbool(zb(called) == zb(st.g[('wr', 1)])), b_not(run)))
            O(st, 'an acknowledgement notifies', zimp(st.g[('wr', 1)], st.g['notified']))
            O(st, 'true is returned only if wait, callback and acknowledgement succeeded', zimp(val, b_and(b_and(called, w.pre), st.g[('wr', 1)])))
            O(st, 'true is returned if wait, callback and acknowledgement succeeded', zimp(b_and(b_and(called, w.pre), st.g[('wr', 1)]), val))
            O(st, 'the wait fails only after a timed wait has expired', b_or(called, st.g['expired']))
    t = x.thr
    if t is not None and not t.dead() and mode == 'running':
        if op in ('trigger', 'wait_ack', 'ack'): O(t, 'the operation of a running %s does not throw' % ('producer' if who == 'pr' else 'consumer'), b_not(run))
        if op == 'wait': O(t, 'waiting throws only if the count moved otherwise', b_or(b_not(run), nbool(z3.And(mask32(t.g[('val', 0)]) != mask32(pre.g['consumed']), mask32(t.g[('val', 0)]) - mask32(pre.g['consumed']) != 1))))
    if op == 'run' and mode == 'new': O(State(), 'a new %s can be run' % ('producer' if who == 'pr' else 'consumer'), st is not None and live(e, st))
    if op == 'run' and mode in ('new', 'partial') and st is not None and live(e, st):
        for c in (0, 1): O(st, 'after it was run, both shared counts are in reach', st.g[('run', c)])
    if op in ('trigger', 'wait_ack', 'ack', 'wait', 'wait_and_ack') and mode == 'running':
        O(State(), 'the operation can return', st is not None and live(e, st))

def names_check(w, e, who, prop, other):
    z = State()
    if other is None:
        w.O(z, 'trigger and acknowledgement count have different names', w.cname[0] != w.cname[1])
        ks = list(dict.fromkeys((k, n) for k, m, n in w.allmakes))
        w.O(z, 'trigger and acknowledgement use two conditions and two mutexes', len([k for k, n in ks if k == 'mutex']) == 2 and len([k for k, n in ks if k == 'condition']) == 2)
        return
    prodc, prodl = other
    for c, nm in ((0, 'trigger'), (1, 'acknowledgement')):
        w.O(z, 'producer and consumer use the same %s count' % nm, w.cname.get(c) == prodc.get(c))
    w.O(z, 'producer and consumer use the same memory layout', w.layout == prodl)

def learn(mod, deadline):
    """names used by the producer"""
    w = PWorld('-'); e = Engine(mod, w); e.deadline = deadline; w.who = 'pr'; w.mute = True; w.learning = True
    w.n, w.ms = z3.BitVec('n_consumers', 32), z3.BitVec('ms', 32)
    st = State(); o = mk(e, st, 'object', szof(e, 'drv_pr_sizeof'))
    for g in ('before', 'consumed', 'lastT'): st.g[g] = 0
    b, n = strarg(e, st, 'basename', Str((BASE,))), strarg(e, st, 'namespace', Str((NSP,)))
    w.op = 'make'
    st = e.call(st, 'drv_pr_make', [Ptr(o.id, 0), b, n, False, 0, False]).ret
    w.reset(st); w.op = 'run'; st = e.call(st, 'drv_pr_run', [Ptr(o.id, 0)]).ret
    if st is None: return w, e, dict(w.cname)      # judged by the tasks of the producer itself
    w.reset(st)
    w.op = 'trigger'; s1 = e.call(st.clone(), 'drv_pr_trigger', [Ptr(o.id, 0)]).ret
    w.op = 'wait_ack'
    if s1 is not None: e.call(s1, 'drv_pr_wait_ack', [Ptr(o.id, 0), w.n, w.ms])
    return w, e, dict(w.cname)

class CWorld(SyncWorld):
    """one condition variable"""
    def __init__(s, prop): super().__init__(prop); s.nows = []; s.op = None; s.own = {}; s.srv = False; s.force = False; s.expect_rm = False
    def bump2(s, st, k): st.g[k] = s.bump(st.g.get(k, 0))
    def on_make(s, st, kind, mode, name):
        s.O(st, 'named objects are made only by the constructor', s.op == 'make')
        s.O(st, 'the owner creates its named objects, a client only opens them', mode == ('create_only' if s.srv else 'open_only'))
        if s.srv:
            s.O(st, 'with forced reconnection both names are removed before the objects are created', zimp(s.force, b_and(s.was(st, ('rm', 'condition'), 1), s.was(st, ('rm', 'mutex'), 1))))
        k = ('made', kind)
        s.O(st, 'each named object is made once', s.was(st, k, 0))
        s.bump2(st, k)
        if kind in s.own: s.O(st, 'the same name is used by both sides, and by every configuration', same(s.own[kind], name))
        else: s.own[kind] = name
    def was(s, st, k, n):
        v = st.g.get(k, 0)
        return v == n if isinstance(v, int) else nbool(to_bv(v, 8) == n)
    def on_remove(s, st, kind, name):
        s.O(st, 'a client never removes a name', s.srv)
        if s.op == 'make': s.O(st, 'a constructor removes names only with forced reconnection', s.force)
        else: s.O(st, 'names are removed only by closing or destroying the owner', s.op in ('close', 'destroy'))
        s.bump2(st, ('rm', kind)); st.g[('rmtot', kind)] = s.bump(st.g.get(('rmtot', kind), 0))
        s.O(st, 'a name is removed once', s.was(st, ('rm', kind), 1))
        s.rmnames.append((kind, name))
    rmnames = []
    def mop(s, st, op, p):
        s.O(st, 'the mutex used is the one of the condition variable', s.op not in ('close', 'make') and same(s.mkey(p), s.own.get('mutex')))
        st.g[('mop', op)] = s.bump(st.g.get(('mop', op), 0))
    def on_wait(s, st, op, a, ck, k, d):
        s.O(st, 'waiting is done on the condition of the condition variable', same(ck, s.own.get('condition')))
        s.O(st, "waiting is done with the caller's lock", b_and(isinstance(a[1], Ptr) and a[1].o == s.lock.id and a[1].off == 0, same(k, s.own.get('mutex'))))
        s.O(st, 'a timed wait is used exactly for timed operations', (op != 'wait') == s.op.startswith('timed'))
        if op != 'wait' and s.op.startswith('timed'):
            n, v = st.mem[a[2].o].get(a[2].off, (0, None))
            ok = False
            if n == 8 and is_sym(v) and s.nows: ok = nbool(z3.Or([to_bv(v, 64) == x + z3.ZeroExt(32, s.ms) * 1000 for x in s.nows]))
            elif op != 'timed_wait': raise ToolLimit('timed wait of another kind')
            s.O(st, 'a timed wait ends exactly the requested number of milliseconds from now', ok)
        st.g['waited'] = s.bump(st.g.get('waited', 0))
        i = 3 if op != 'wait' else 2
        if len(a) > i:
            p = a[i]; c = st.mem.get(p.o, {}).get(p.off, (0, None))[1] if isinstance(p, Ptr) else None
            s.O(st, "the caller's predicate is used", isinstance(c, Str) and same(c, Str((('fn', 'callback'),))))
    def on_notify(s, st, how, name):
        s.O(st, 'the condition notified is the one of the condition variable', same(name, s.own.get('condition')))
        s.O(st, 'notifying all waiters notifies all', zimp(s.op == 'notify_all', how == 'all'))
        s.O(st, 'notification happens only when asked for', s.op in ('notify_one', 'notify_all'))
        st.g['notified'] = True
    def reset(s, st):
        for k in list(st.g):
            if isinstance(k, tuple) and k[0] in ('held', 'made', 'rm', 'mop') or k in ('waited', 'notified', 'expired', 'cbtrue', THREW, 'excobj'): st.g.pop(k)
        for k in ('condition', 'mutex'): st.g[('made', k)] = 0; st.g[('rm', k)] = 0
        for k in ('lock', 'unlock', 'try_lock'): st.g[('mop', k)] = 0
        st.g['waited'] = 0; st.g['notified'] = False; st.g['expired'] = False; st.g['cbtrue'] = False

def cond_names(w, e, prop, named):
    """every name contains the namespace and the name; pairwise different (they differ in their constant parts)"""
    z = State()
    V = {x: z3.String(x[1]) for x in (BASE, NSP)}
    def zs(p):
        x = [z3.StringVal(y.decode('latin1')) if isinstance(y, bytes) else V[y] for y in p]
        return z3.Concat(*x) if len(x) > 1 else x[0] if x else z3.StringVal('')
    for r, p in named:
        if not isinstance(p, Str) or any(not isinstance(y, bytes) and y not in V for y in p.p): raise ToolLimit('name of ' + r)
        for x in (BASE, NSP): w.O(z, 'the name of %s contains the %s' % (r, x[1]), x in p.p)
    for i, (r, p) in enumerate(named):
        for r2, q in named[:i]:
            a, b = list(p.p), list(q.p)
            while a and b and a[0] == b[0]: a.pop(0); b.pop(0)
            while a and b and a[-1] == b[-1]: a.pop(); b.pop()
            c = a != b and (z3.simplify(zs(a) != zs(b)) if a or b else False)
            if c is not False and z3.is_true(c): c = True
            w.O(z, 'the names of %s and %s differ' % (r, r2), c)

def condvar_task(mod, prop, deadline):
    w = CWorld(prop); e = Engine(mod, w); e.deadline = deadline; limits = []; info = {}
    w.rmnames = []; w.ms = z3.BitVec('ms', 32); O = w.O
    try:
        e.strings = 1; paths = []
        for srv in (True, False):
            role = 'owner' if srv else 'client'
            w.srv = srv; w.force = z3.Bool('force'); verbose = z3.Bool('verbose'); lvl = z3.BitVec('vlevel', 32)
            st = State(); obj = mk(e, st, 'condvar', szof(e, 'drv_cv_sizeof')); w.reset(st)
            for k in ('condition', 'mutex'): st.g[('rmtot', k)] = 0
            b, n = strarg(e, st, 'basename', Str((BASE,))), strarg(e, st, 'namespace', Str((NSP,)))
            fnob = mk(e, st, 'callback', 32, 'glob2'); st.w(fnob.id)[0] = (32, Str((('fn', 'callback'),)))
            w.op = 'make'; w.ctx = 'ConditionVariable constructor (%s)' % role
            x = e.call(st, 'drv_cv_make', [Ptr(obj.id, 0), srv, b, n, verbose, lvl, w.force])
            O(State(), 'construction can succeed', x.ret is not None and live(e, x.ret))
            r = x.ret
            rmf = lambda q, nmax: b_and(*[b_or(w.was(q, ('rm', k), 0), b_and(w.force, w.was(q, ('rm', k), 1))) for k in ('condition', 'mutex')])
            O(r, 'a constructed object has made both its named objects', b_and(w.was(r, ('made', 'condition'), 1), w.was(r, ('made', 'mutex'), 1)))
            # a failure to create or open one of them is not hidden: the contract of boost throws, and the constructor must too
            O(r, 'a failure to create or open a named object fails the construction', b_not(r.g.get(THREW, False)))
            base = r
            # names
            q = base.clone(); w.reset(q); w.op = 'names'; w.ctx = 'ConditionVariable names (%s)' % role
            o1, o2 = mk(e, q, 'cpath', 32), mk(e, q, 'mpath', 32)
            y = e.call(q, 'drv_cv_names', [Ptr(obj.id, 0), Ptr(o1.id, 0), Ptr(o2.id, 0)])
            O(y.ret, 'the reported paths are the names used', b_and(same(w.gets(y.ret, Ptr(o1.id, 0)), w.own['condition']), same(w.gets(y.ret, Ptr(o2.id, 0)), w.own['mutex'])))
            # operations with a lock
            def sub(src, op, fn, args, lk=None):
                q = src.clone(); w.op = op; w.ctx = 'ConditionVariable::%s (%s)' % (op, role); pre = q.clone()
                h = {k: v for k, v in q.g.items() if isinstance(k, tuple) and k[0] == 'held'}
                w.reset(q); q.g.update(h)
                x = e.call(q, fn, args)
                O(State(), 'the operation can return', x.ret is not None and live(e, x.ret))
                O(State(), 'the operation does not throw', x.thr is None or not live(e, x.thr)) if op not in ('wait_for', 'timedwait_for') else None
                return x
            C = Ptr(obj.id, 0)
            for how in ('lock', 'lock_static'):
                q = base.clone(); w.lock = mk(e, q, 'lock', szof(e, 'drv_lock_sizeof')); L = Ptr(w.lock.id, 0)
                mp = next((Ptr(k[0], k[1]) for k, v in w.obj.items() if v[0] == 'mutex' and k[0] in q.mem), None)
                x = sub(q, how, 'drv_cv_' + how, [C if how == 'lock' else mp, L])
                q = x.ret; held = lambda z: z.g.get(('held', w.own['mutex']), False)
                mx, owns = w.lockinfo(q, L)
                O(q, 'locking returns a lock that holds the mutex of the condition variable', b_and(b_and(owns, held(q)), isinstance(mx, Ptr) and same(w.key(mx)[1], w.own['mutex'])))
                O(q, 'the mutex is locked once', w.was(q, ('mop', 'lock'), 1))
                if how == 'lock_static': continue
                for op, args in (('wait', []), ('wait_for', [Ptr(fnob.id, 0)]), ('timedwait', [w.ms]), ('timedwait_for', [w.ms, Ptr(fnob.id, 0)])):
                    x = sub(q, op, 'drv_cv_' + op, [C, L] + args); z = x.ret
                    if z is None: continue
                    O(z, 'after waiting the lock is held again', b_and(held(z), w.lockinfo(z, L)[1]))
                    v = nbool(zb(to_bool(x.val))) if op.startswith('timed') else None
                    if op == 'wait': O(z, 'waiting waits', w.was(z, 'waited', 1))
                    if op == 'wait_for': O(z, 'waiting for a predicate ends only when it is true', z.g['cbtrue'])
                    if op == 'timedwait': O(z, 'a timed wait returns false exactly if it expired', b_and(w.was(z, 'waited', 1), nbool(zb(v) == z3.Not(zb(z.g['expired'])))))
                    if op == 'timedwait_for': O(z, 'a timed wait for a predicate returns true only if it is true, and false only on expiry', b_and(zimp(v, z.g['cbtrue']), b_or(v, z.g['expired'])))
                x = sub(q, 'unlock', 'drv_cv_unlock', [L])
                O(x.ret, 'unlocking releases the mutex', b_and(b_not(held(x.ret)), b_not(w.lockinfo(x.ret, L)[1])))
            for op in ('notify_one', 'notify_all'):
                x = sub(base, op, 'drv_cv_' + op, [C])
                O(x.ret, 'a notification is sent', x.ret.g['notified'])
            # end of life: every history of close and destruction
            st = base
            for i, op in enumerate(('close', 'close')):
                x = sub(st, op, 'drv_cv_' + op, [C])
                st = x.ret
                for k in ('condition', 'mutex'): O(st, 'closing the owner removes both names, once; closing again, or closing a client, removes none', w.was(st, ('rm', k), 1 if srv and i == 0 else 0))
                if i == 0: c1 = st
                x2 = sub(st, 'destroy', 'drv_cv_destroy', [C])
                for k in ('condition', 'mutex'): O(x2.ret, 'destruction after closing removes no name', w.was(x2.ret, ('rm', k), 0))
            x = sub(base, 'destroy', 'drv_cv_destroy', [C])
            for k in ('condition', 'mutex'): O(x.ret, 'destruction of the owner removes both names, destruction of a client none', w.was(x.ret, ('rm', k), 1 if srv else 0))
            # the state after two closes is the one after one: longer histories add nothing
            ch = [k for k, (n, v) in c1.mem[obj.id].items() if isinstance(k, int) and not (same(v, st.mem[obj.id].get(k, (0, None))[1]) or e.semeq(st, v, st.mem[obj.id].get(k, (0, None))[1], 8 * n))]
            if ch: raise ToolLimit('closing again changes the object: ' + str(ch))
        w.ctx = 'names'
        z = State()
        for k, nm in w.rmnames: O(z, 'only the two names of the condition variable are removed', same(nm, w.own.get(k)))
        c, m = w.own.get('condition'), w.own.get('mutex')
        cond_names(w, e, prop, [('the condition', c), ('the mutex', m)])
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx, ex))
    return result(e, limits, **info)

def tasks(prop, d, tier, budget):
    mod = Module(runner.build_ir(d, 'drv_sync', passes='mem2reg,loop-simplify,loop(loop-rotate),loop-simplify,lcssa')); dl = time.time() + budget
    T = []
    if prop == 'C16': T.append(('Producer', lambda: producer_task(mod, 'pr', prop, dl)))
    if prop == 'C18': T += [('ConditionVariable', lambda: condvar_task(mod, prop, dl)), ('Producer', lambda: producer_task(mod, 'pr', prop, dl)), ('Consumer', lambda: producer_task(mod, 'co', prop, dl))]
    if prop == 'C17': T.append(('Consumer', lambda: producer_task(mod, 'co', prop, dl)))
    return T

def native_exe(d, prop): return runner.build_native(d, 'native_sync.cpp', 'native_sync')

TRUSTED = [
    'clang 18 front end and mem2reg/loop-simplify/loop-rotate/lcssa (the verified text is the LLVM IR of the unmodified CondVar.cpp, Producer.cpp, Consumer.cpp and their headers, re-generated on every run, -DNDEBUG)',
    'the verification-condition generator eipcv/symex.py and z3',
    'assumed contracts: boost named_mutex (mutual exclusion), named_condition (wait releases the mutex and takes it again before returning, may wake up spuriously; timed_wait returns false only on expiry; create_only fails if the name exists, open_only if it does not), microsec_clock (0 < now < 2^61 us), std::function, std::string, printf',
    'assumed contract of the shared counters (Server<int>, Client<int>): a transfer succeeds exactly while running/attached and moves the 1 x 1 value; this is what C01-C09 prove',
    'counts are treated modulo 2^32 (as the machine code computes them); while a mutex is not held, what it guards may change arbitrarily (the trigger count only by the producer)',
]
