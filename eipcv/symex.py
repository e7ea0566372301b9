"""Verification-condition generator over LLVM IR.

A function is executed once over its control-flow graph in weak topological order; states that meet
at a join are merged (values become if-then-else terms guarded by the path conditions), so one
execution covers every path.  Loops whose trip count the code decides are iterated until the back
edge is unreachable (checked, no bound); loops driven by the environment are replaced by an
automatically inferred invariant (everything the body changes becomes arbitrary, and the body is
re-executed until that is inductive).  Calls go to a contract when the world (the specification
module) has one for the callee, otherwise the callee's body is executed in place."""
import struct, time
import z3
from llir import Unsupported, Module, INT, PTR

M64 = (1 << 64) - 1

class ToolLimit(Exception):
    pass

_fresh = [0]
def fresh_bv(name, w):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)
def fresh_bool(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))

# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o, s.off = o, off
    def __repr__(s): return 'P(%s,%s)' % (s.o, s.off)
    def __eq__(s, t):
        if not isinstance(t, Ptr) or s.o != t.o: return False
        if isinstance(s.off, int) and isinstance(t.off, int): return s.off == t.off
        if isinstance(s.off, int) or isinstance(t.off, int): return False
        return s.off.eq(t.off)
    def __hash__(s): return hash((s.o, s.off if isinstance(s.off, int) else s.off.hash()))
NULL = Ptr(0, 0)

class GV:
    """guarded alternatives (mutually exclusive, exhaustive under the path condition)"""
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'GV%r' % (s.alts,)

class Str:
    """abstract std::string value: concatenation of constant pieces and atoms"""
    __slots__ = ('p',)
    def __init__(s, p):
        out = []
        for x in p:
            if isinstance(x, bytes):
                if not x: continue
                if out and isinstance(out[-1], bytes): out[-1] = out[-1] + x; continue
            out.append(x)
        s.p = tuple(out)
    def __eq__(s, t): return isinstance(t, Str) and s.p == t.p
    def __hash__(s): return hash(s.p)
    def __repr__(s): return 'Str(%s)' % '+'.join(repr(x.decode('latin1')) if isinstance(x, bytes) else '<%s>' % (x,) for x in s.p)
    def const(s): return all(isinstance(x, bytes) for x in s.p)
    def bytes(s): return b''.join(s.p)

class IteS:
    """conditional piece of an abstract string"""
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def __eq__(s, t): return isinstance(t, IteS) and s.c.eq(t.c) and s.a == t.a and s.b == t.b
    def __hash__(s): return hash((s.c.hash(), s.a, s.b))
    def __repr__(s): return 'ite(%s,%r,%r)' % (s.c, s.a, s.b)

def str_ite(c, a, b):
    """c ? a : b for abstract strings, factoring the common prefix and suffix"""
    p, q = list(a.p), list(b.p); pre = []; suf = []
    while p and q and p[0] == q[0]: pre.append(p.pop(0)); q.pop(0)
    while p and q and p[-1] == q[-1]: suf.insert(0, p.pop()); q.pop()
    if p and q and isinstance(p[0], bytes) and isinstance(q[0], bytes):
        x, y = p[0], q[0]; n = 0
        while n < min(len(x), len(y)) and x[n] == y[n]: n += 1
        if n and (n == len(x) or n == len(y)):
            pre.append(x[:n]); p[0] = x[n:]; q[0] = y[n:]
    if not [x for x in p if x != b''] and not [x for x in q if x != b'']: return Str(pre + suf)
    return Str(pre + [IteS(c, Str(p), Str(q))] + suf)

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

def bv(n): return z3.BitVecVal(n, 64)
def is_sym(v): return isinstance(v, z3.ExprRef)

def to_bool(v):
    """i1 value -> z3 Bool or python bool"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v & 1)
    if z3.is_bool(v): return v
    if z3.is_bv(v): return z3.Extract(0, 0, v) == 1
    raise Unsupported('to_bool %r' % (v,))

def to_bv(v, w):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_bv(v):
        if v.size() != w: raise Unsupported('width %d vs %d' % (v.size(), w))
        return v
    raise Unsupported('to_bv %r' % (v,))

def norm(v):
    """simplify and turn constants into python ints"""
    if not is_sym(v): return v
    v = z3.simplify(v, elim_sign_ext=False)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return v

def nbool(v):
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v)
    v = z3.simplify(v)
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return v

def zb(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def b_and(*cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c)
    if not out: return True
    return nbool(z3.And(*out)) if len(out) > 1 else out[0]
def b_or(*cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c)
    if not out: return False
    return nbool(z3.Or(*out)) if len(out) > 1 else out[0]
def b_not(c):
    if isinstance(c, bool): return not c
    return nbool(z3.Not(c))

def same(a, b):
    if a is b: return True
    ta = is_sym(a); tb = is_sym(b)
    if ta and tb: return a.eq(b)
    if ta or tb: return False
    if isinstance(a, GV) or isinstance(b, GV):
        return isinstance(a, GV) and isinstance(b, GV) and len(a.alts) == len(b.alts) and all(same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.alts, b.alts))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b if not (isinstance(a, (int, bool)) and isinstance(b, (int, bool))) else int(a) == int(b)

def alts_of(v):
    if isinstance(v, GV): return v.alts
    return [(True, v)]

def mkgv(alts):
    out = []
    for c, v in alts:
        if c is False: continue
        for i, (c2, v2) in enumerate(out):
            if same(v, v2): out[i] = (b_or(c2, c), v2); break
        else: out.append((c, v))
    if not out: return UNDEF
    if len(out) == 1: return out[0][1]
    return GV(out)

def ite(c, a, b, w=None):
    """c ? a : b  (c: z3 Bool or bool)"""
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    ia = isinstance(a, (int, bool)) or is_sym(a); ib = isinstance(b, (int, bool)) or is_sym(b)
    if ia and ib:
        if z3.is_bool(a) or z3.is_bool(b) or isinstance(a, bool) and isinstance(b, bool) or w == 1:
            return norm(z3.If(c, zb(to_bool(a)), zb(to_bool(b))))
        if w is None: w = a.size() if is_sym(a) else b.size() if is_sym(b) else 64
        return norm(z3.If(c, to_bv(a, w), to_bv(b, w)))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Undef) or isinstance(b, Undef):
        o = b if isinstance(a, Undef) else a
        if isinstance(o, int) or is_sym(o):
            u = fresh_bool('undef') if (z3.is_bool(o) or w == 1) else fresh_bv('undef', w or (o.size() if is_sym(o) else 64))
            return ite(c, u, b, w) if isinstance(a, Undef) else ite(c, a, u, w)
    if isinstance(a, Str) and isinstance(b, Str): return str_ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.o != 0:
        return Ptr(a.o, ite(c, a.off, b.off, 64))
    # ints seen as pointers
    if ia: a = Ptr(0, a)
    if ib: b = Ptr(0, b)
    alts = [(b_and(c, x), v) for x, v in alts_of(a)] + [(b_and(b_not(c), x), v) for x, v in alts_of(b)]
    return mkgv(alts)

def leaves(e, memo=None):
    """if-then-else tree over constants -> [(cond, int)]; None if some leaf is not constant"""
    if isinstance(e, (int, bool)): return [(True, int(e))]
    if z3.is_bv_value(e): return [(True, e.as_long())]
    if z3.is_bool(e):
        return [(e, 1), (b_not(e), 0)]
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        if memo is None: memo = {}
        i = e.get_id()
        if i in memo: return memo[i]
        c, a, b = e.children()
        la = leaves(a, memo); lb = leaves(b, memo); r = None
        if la is not None and lb is not None:
            d = {}
            for x, v in la: d[v] = b_or(d.get(v, False), b_and(c, x))
            nc = b_not(c)
            for x, v in lb: d[v] = b_or(d.get(v, False), b_and(nc, x))
            r = [(x, v) for v, x in d.items() if x is not False]
        memo[i] = r
        return r
    return None

# ------------------------------------------------------------------ state
class State:
    __slots__ = ('pc', 'mem', 'own', 'g')
    def __init__(s): s.pc = (); s.mem = {}; s.own = set(); s.g = {}
    def clone(s):
        t = State(); t.pc = s.pc; t.mem = dict(s.mem); t.own = set(); s.own = set(); t.g = dict(s.g)
        return t
    def w(s, o):
        c = s.mem.get(o)
        if c is None: c = s.mem[o] = {}; s.own.add(o)
        elif o not in s.own: c = s.mem[o] = dict(c); s.own.add(o)
        return c
    def assume(s, c):
        if c is True: return
        if c is False: s.pc = s.pc + (z3.BoolVal(False),); return
        for x in s.pc:
            if x.eq(c): return
        s.pc = s.pc + (c,)
    def dead(s):
        for x in s.pc:
            if id(x) not in _live:
                if z3.is_false(x): return True
                _live[id(x)] = x
        return False
_live = {}

def merge_pc(p, q):
    i = 0; n = min(len(p), len(q))
    while i < n and (p[i] is q[i] or p[i].eq(q[i])): i += 1
    pre = p[:i]; a = p[i:]; b = q[i:]
    ca = b_and(*a); cb = b_and(*b)
    r = b_or(ca, cb)
    if r is not True: pre = pre + (zb(r),)
    return pre, ca, cb

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'x')
    def __init__(s, i, name, size, kind, x=None): s.id, s.name, s.size, s.kind, s.x = i, name, size, kind, x
    def __repr__(s): return '<%s %s>' % (s.kind, s.name)

class Outcome:
    __slots__ = ('ret', 'val', 'thr')
    def __init__(s, ret=None, val=None, thr=None): s.ret, s.val, s.thr = ret, val, thr

# ------------------------------------------------------------------ weak topological order
def wto(f):
    succ = {b: [x for x in f.blocks[b].succs] for b in f.order}
    idx = {}; order = []; heads = {}
    def sccs(nodes, roots):
        # tarjan restricted to nodes, returns list of components in topological order
        low = {}; num = {}; st = []; on = set(); out = []; cnt = [0]
        def visit(v0):
            work = [(v0, iter(succ[v0]))]
            num[v0] = low[v0] = cnt[0]; cnt[0] += 1; st.append(v0); on.add(v0)
            while work:
                v, it = work[-1]; adv = False
                for w in it:
                    if w not in nodes: continue
                    if w not in num:
                        num[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(succ[w]))); adv = True; break
                    elif w in on: low[v] = min(low[v], num[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == num[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    out.append(comp)
        for r in roots:
            if r in nodes and r not in num: visit(r)
        out.reverse()
        return out
    removed = set()
    def go(nodes, root, outer):
        for comp in sccs(nodes, [root] + [n for n in f.order if n in nodes]):
            if len(comp) == 1 and comp[0] not in succ[comp[0]]:
                idx[comp[0]] = len(order); order.append(comp[0])
            else:
                cs = set(comp)
                # header: entered from outside (loop-simplify guarantees one for natural loops)
                hs = [n for n in f.order if n in cs and (n == root or any(n in succ[m] for m in f.order if m not in cs))]
                h = hs[0] if hs else comp[0]
                idx[h] = len(order); order.append(h); heads[h] = cs
                rest = cs - {h}
                if rest:
                    first = [x for x in succ[h] if x in rest]
                    go(rest, first[0] if first else next(iter(rest)), h)
    # reachable blocks only
    reach = set(); stk = [f.entry]
    while stk:
        b = stk.pop()
        if b in reach: continue
        reach.add(b); stk.extend(succ[b])
    go(reach, f.entry, None)
    return idx, heads

# ------------------------------------------------------------------ engine
class Engine:
    def __init__(s, mod, world):
        s.m = mod; s.w = world; world.e = s
        s.objs = [Obj(0, 'null', 0, 'null')]
        s.gobj = {}; s.cstrs = {}
        s.wtoc = {}; s.hc = {}
        s.stack = []
        s.obl = []          # obligations
        s.nchecks = 0; s.tsolve = 0.0; s.ninstr = 0
        s.maxiter = 1200
        s.solver_timeout = 20000
        s.executed = {}     # demangled name -> times executed in place
        s.contracts_used = {}
        s.bounded = set()
        s.loopinv = []
        s.deadline = None
        s.depth_limit = {}
        s.sat_cache = {}
        s.pinned = set()
    # ------------------------------------------------ solver
    def check(s, fs):
        """'unsat' | 'sat' | 'unknown' (+model)"""
        fs = [f for f in fs if f is not True]
        for f in fs:
            if f is False or (is_sym(f) and z3.is_false(f)): return 'unsat', None
        s.nchecks += 1
        t = time.time()
        so = z3.Solver(); so.set('timeout', s.solver_timeout)
        so.add(*s.w.axioms_for(fs))
        for f in fs: so.add(f)
        r = so.check()
        s.tsolve += time.time() - t
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', so.model()
        return 'unknown', None
    def feasible(s, pc):
        r, _ = s.check(list(pc))
        return r != 'unsat'
    def valid(s, st, c):
        c = nbool(c) if not isinstance(c, bool) else c
        if c is True: return True
        r, _ = s.check(list(st.pc) + [b_not(c)])
        return r == 'unsat'
    def where(s):
        for f, ln in reversed(s.stack):
            return '%s:%s' % (f, ln)
        return '?'
    def calltrace(s):
        return ' < '.join('%s:%s' % (f.split('(')[0][-60:], ln) for f, ln in reversed(s.stack[-6:]))
    def oblige(s, st, prop, label, cond, extra=None):
        """record the obligation pc => cond, discharging it now"""
        if prop is not None and not s.w.wants(prop): return True
        c = nbool(cond) if not isinstance(cond, bool) else cond
        t0 = time.time()
        if c is True: status, model = 'unsat', None; how = 'evaluation'
        else:
            status, model = s.check(list(st.pc) + [b_not(c)]); how = 'z3'
        ok = status == 'unsat'
        s.obl.append(dict(prop=prop, label=label, ctx=s.w.ctx, ok=ok, status={'unsat': 'discharged', 'sat': 'failed', 'unknown': 'unknown'}[status],
                          how=how, t=time.time() - t0, at=s.calltrace(), model=s.model_str(model) if model is not None else None, extra=extra))
        return ok
    def model_str(s, m):
        return {str(d): str(m[d]) for d in list(m.decls())[:60]}
    # ------------------------------------------------ objects
    def new_obj(s, name, size, kind, x=None):
        o = Obj(len(s.objs), name, size, kind, x); s.objs.append(o); return o
    def cstr(s, sv):
        """pointer to the characters of an abstract string"""
        if isinstance(sv, GV): return mkgv([(c, s.cstr(v)) for c, v in sv.alts])
        o = s.cstrs.get(sv)
        if o is None:
            o = s.cstrs[sv] = s.new_obj('cstr', None, 'cstr', sv)
        return Ptr(o.id, 0)
    def global_ptr(s, name):
        name = s.m.alias.get(name, name)
        o = s.gobj.get(name)
        if o is None:
            if name in s.m.ftext or name in s.m.decl: o = s.new_obj(name, 0, 'func')
            elif name in s.m.gtext: o = s.new_obj(name, None, 'global')
            else: raise Unsupported('global ' + name)
            s.gobj[name] = o
        return Ptr(o.id, 0)
    def global_cells(s, o):
        if o.x is None:
            cells = {}
            ty, val, const = s.m.ginit(o.name)
            o.size = s.m.size(ty)
            if val is not None: s._flat(cells, 0, ty, val)
            o.x = cells
        return o.x
    def _flat(s, cells, off, ty, val):
        k = val[0]
        b = s.m.body(ty) if ty.k == 'named' else ty
        if k == 'z':
            n = s.m.size(b)
            cells[('zero', off)] = n
            return
        if k == 's':
            raw = s._cstring(val[1])
            for i, ch in enumerate(raw): cells[off + i] = (1, ch)
            return
        if k == 'agg':
            if b.k in ('array', 'vector'):
                es = s.m.size(b.a)
                for i, (et, v) in enumerate(val[1]): s._flat(cells, off + i * es, et, v)
            else:
                offs = s.m.offsets(b)
                for i, (et, v) in enumerate(val[1]): s._flat(cells, off + offs[i], et, v)
            return
        if k == 'u': return
        cells[off] = (s.m.size(b), s.const(b, val, None))
    def _cstring(s, t):
        out = bytearray(); i = 0
        while i < len(t):
            if t[i] == '\\':
                if t[i+1] == '\\': out.append(92); i += 2
                else: out.append(int(t[i+1:i+3], 16)); i += 3
            else: out.append(ord(t[i])); i += 1
        return bytes(out)
    def cells(s, st, o):
        c = st.mem.get(o.id)
        if c is None:
            if o.kind == 'global': return s.global_cells(o)
            return {}
        return c
    def wcells(s, st, o):
        if o.id not in st.mem and o.kind == 'global':
            st.mem[o.id] = dict(s.global_cells(o)); st.own.add(o.id)
        return st.w(o.id)
    # ------------------------------------------------ memory
    def read_bytes(s, st, p, maxn=4096):
        """concrete NUL-terminated string at p, as bytes, or an abstract Str"""
        o = s.objs[p.o]
        if o.kind == 'cstr':
            if p.off != 0: raise Unsupported('pointer into string')
            return o.x
        if not isinstance(p.off, int): raise Unsupported('symbolic c string')
        out = bytearray(); i = p.off; c = s.cells(st, o)
        while len(out) < maxn:
            v = c.get(i)
            if v is None and o.kind == 'global' and any(isinstance(k, tuple) and k[1] <= i < k[1] + n for k, n in c.items()): break
            if v is None:
                return Str((('cstr', o.id, i),)) if not out else Str((bytes(out), ('cstr', o.id, i)))
            n, x = v
            if not isinstance(x, int) or n != 1: raise Unsupported('c string cell')
            if x == 0: break
            out.append(x); i += 1
        return Str((bytes(out),))
    def load_cell(s, st, o, off, size, ty):
        """load from an ordinary object at a constant offset"""
        c = s.cells(st, o)
        v = c.get(off)
        if v is not None and v[0] == size: return v[1]
        # zero-initialised global ranges
        if o.kind == 'global':
            for k, n in c.items():
                if isinstance(k, tuple) and k[1] <= off and off + size <= k[1] + n and not any(not isinstance(kk, tuple) and kk < off + size and kk + cv[0] > off for kk, cv in c.items()):
                    return NULL if ty is not None and ty.k == 'ptr' else 0
        # assemble from pieces
        parts = []; i = off; end = off + size
        while i < end:
            hit = None
            v = c.get(i)
            if v is not None: hit = (i, v)
            else:
                for k in range(i - 1, i - 33, -1):
                    v = c.get(k)
                    if v is not None:
                        if k + v[0] > i: hit = (k, v)
                        break
            if hit is None:
                # bytes never written: arbitrary, but always the same value
                nxt = min([k for k in c if not isinstance(k, tuple) and i < k < end] or [end])
                n = nxt - i
                if n == size:
                    if ty is not None and ty.k == 'ptr': val = s.w.uninit_ptr(st, o, off)
                    else: val = fresh_bv('uninit_%s_%d' % (o.name, off), 8 * size)
                    s.wcells(st, o)[off] = (size, val)
                    return val
                parts.append((n, fresh_bv('uninit_%s_%d' % (o.name, i), 8 * n))); i = nxt; continue
            k, (n, val) = hit
            lo = i - k; take = min(k + n, end) - i
            if not (isinstance(val, (int, bool)) or is_sym(val)):
                if isinstance(val, Undef): val = fresh_bv('undef', 8 * n)
                elif isinstance(val, Ptr) and val.o == 0 and isinstance(val.off, int): val = val.off
                else: raise Unsupported('partial load of %r' % (val,))
            if isinstance(val, (int, bool)): x = (int(val) >> (8 * lo)) & ((1 << (8 * take)) - 1)
            else: x = norm(z3.Extract(8 * (lo + take) - 1, 8 * lo, to_bv(val, 8 * n)))
            parts.append((take, x)); i += take
        if all(isinstance(x, int) for _, x in parts):
            r = 0; sh = 0
            for n, x in parts: r |= x << sh; sh += 8 * n
            return r
        bvs = [to_bv(x, 8 * n) for n, x in parts]
        return norm(z3.Concat(*reversed(bvs)) if len(bvs) > 1 else bvs[0])
    def store_cell(s, st, o, off, size, val):
        c = s.wcells(st, o)
        old = c.get(off)
        if old is None or old[0] != size:
            # split overlapped cells
            for k in [k for k in c if not isinstance(k, tuple) and k < off + size and k + c[k][0] > off]:
                n, v = c.pop(k)
                if k >= off and k + n <= off + size: continue
                if not (isinstance(v, (int, bool)) or is_sym(v)): continue    # partial overwrite of a pointer/string: rest becomes uninitialised
                for (a, b) in ((k, min(off, k + n)), (max(off + size, k), k + n)):
                    if b > a:
                        if isinstance(v, (int, bool)): x = (int(v) >> (8 * (a - k))) & ((1 << (8 * (b - a))) - 1)
                        else: x = norm(z3.Extract(8 * (b - k) - 1, 8 * (a - k), to_bv(v, 8 * n)))
                        c[a] = (b - a, x)
        c[off] = (size, val)
    def load(s, st, p, size, ty):
        if isinstance(p, GV):
            res = None
            alts = s.prune(st, p.alts, 'load')
            vals = [(c, s.load(st, v, size, ty)) for c, v in alts]
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]): r = ite(c, v, r, 1 if (ty is not None and ty.k == 'int' and ty.n == 1) else 8 * size)
            return r
        if not isinstance(p, Ptr): raise Unsupported('load from %r' % (p,))
        o = s.objs[p.o]
        if o.kind in ('null', 'func'):
            s.w.bad_deref(st, p, 'load')
            return s.havoc_ty(ty, size)
        if o.kind in s.w.special: return s.w.special_load(st, o, p.off, size, ty)
        if not isinstance(p.off, int):
            return s.w.sym_load(st, o, p.off, size, ty)
        return s.load_cell(st, o, p.off, size, ty)
    def store(s, st, p, size, val, ty=None):
        if isinstance(p, GV):
            for c, v in s.prune(st, p.alts, 'store'):
                if c is True: s.store(st, v, size, val, ty); continue
                old = s.load(st, v, size, ty)
                s.w.cond_store = c
                s.store(st, v, size, ite(c, val, old, 8 * size), ty)
                s.w.cond_store = True
            return
        if not isinstance(p, Ptr): raise Unsupported('store to %r' % (p,))
        o = s.objs[p.o]
        if o.kind in ('null', 'func'):
            s.w.bad_deref(st, p, 'store'); return
        if o.kind in s.w.special: s.w.special_store(st, o, p.off, size, val, ty); return
        if not isinstance(p.off, int):
            s.w.sym_store(st, o, p.off, size, val, ty); return
        s.store_cell(st, o, p.off, size, val)
    def prune(s, st, alts, what):
        out = []
        for c, v in alts:
            if isinstance(v, Ptr) and s.objs[v.o].kind == 'null':
                s.w.bad_deref_cond(st, c, v, what)
                continue
            out.append((c, v))
        if not out: raise ToolLimit('no valid target for ' + what)
        if len(out) == 1 and len(alts) > 1: return [(True, out[0][1])]
        return out
    def havoc_ty(s, ty, size):
        if ty is None: return fresh_bv('hv', 8 * size)
        if ty.k == 'ptr': return NULL
        if ty.k == 'int' and ty.n == 1: return fresh_bool('hv')
        if ty.k == 'int': return fresh_bv('hv', ty.n)
        return fresh_bv('hv', 8 * size)
    def copy_mem(s, st, dst, src, n):
        if not isinstance(n, int):
            return s.w.sym_memcpy(st, dst, src, n)
        if n == 0: return
        if isinstance(src, GV) or isinstance(dst, GV):
            if isinstance(src, GV):
                src2 = s.prune(st, src.alts, 'memcpy')
                if len(src2) == 1: return s.copy_mem(st, dst, src2[0][1], n)
            if isinstance(dst, GV):
                dst2 = s.prune(st, dst.alts, 'memcpy')
                if len(dst2) == 1: return s.copy_mem(st, dst2[0][1], src, n)
            # generic: word-wise
            for i in range(0, n, 8):
                k = min(8, n - i)
                v = s.load(st, s.padd(src, i), k, None); s.store(st, s.padd(dst, i), k, v)
            return
        so, do = s.objs[src.o], s.objs[dst.o]
        if so.kind in s.w.special or do.kind in s.w.special or not isinstance(src.off, int) or not isinstance(dst.off, int):
            if n in (1, 2, 4, 8):
                s.store(st, dst, n, s.load(st, src, n, None)); return
            return s.w.sym_memcpy(st, dst, src, n)
        if so.kind == 'cstr':
            raise Unsupported('memcpy from string')
        c = s.cells(st, so); a = src.off; items = []
        for k, cv in list(c.items()):
            if isinstance(k, tuple):
                if k[1] < a + n and k[1] + cv > a:
                    lo = max(k[1], a); hi = min(k[1] + cv, a + n)
                    j = lo
                    while j < hi:
                        w = min(8, hi - j); items.append((j - a, w, 0)); j += w
                continue
            if k < a + n and k + cv[0] > a:
                if k >= a and k + cv[0] <= a + n: items.append((k - a, cv[0], cv[1]))
                else:
                    lo = max(k, a); hi = min(k + cv[0], a + n)
                    items.append((lo - a, hi - lo, s.load_cell(st, so, lo, hi - lo, None)))
        # destination range becomes exactly the source cells
        d = s.wcells(st, do)
        for k in [k for k in d if not isinstance(k, tuple) and k < dst.off + n and k + d[k][0] > dst.off]:
            if k >= dst.off and k + d[k][0] <= dst.off + n: d.pop(k)
        for off, w, v in items: s.store_cell(st, do, dst.off + off, w, v)
    def padd(s, p, d):
        """pointer + d (d int or z3 BV64)"""
        if isinstance(d, int) and d == 0: return p
        if isinstance(p, GV): return GV([(c, s.padd(v, d)) for c, v in p.alts])
        if not isinstance(p, Ptr):
            if isinstance(p, Undef): raise Unsupported('arithmetic on undef pointer')
            p = Ptr(0, p)
        if isinstance(p.off, int) and isinstance(d, int):
            x = (p.off + d) & M64
            if x >= 1 << 63: x -= 1 << 64
            if p.o == 0: x &= M64
            return Ptr(p.o, x)
        return Ptr(p.o, norm(to_bv(p.off & M64 if isinstance(p.off, int) else p.off, 64) + to_bv(d & M64 if isinstance(d, int) else d, 64)))
    # ------------------------------------------------ operands
    def const(s, ty, v, env):
        k = v[0]
        if k == 'v': return env[v[1]]
        if k == 'c':
            if v[1] is None: return NULL
            if ty.k == 'int': return v[1] & ((1 << ty.n) - 1)
            return v[1]
        if k == 'g': return s.global_ptr(v[1])
        if k == 'u':
            if ty.k == 'int': return fresh_bool('undef') if ty.n == 1 else fresh_bv('undef', ty.n)
            if ty.k in ('struct', 'array', 'named'):
                b = s.m.body(ty)
                if b.k == 'struct': return tuple(s.const(e, ('u', e), env) for e in b.a)
                return tuple(s.const(b.a, ('u', b.a), env) for _ in range(b.n))
            return UNDEF
        if k == 'z':
            b = s.m.body(ty) if ty.k == 'named' else ty
            if b.k == 'struct': return tuple(s.const(e, ('z', e), env) for e in b.a)
            if b.k in ('array', 'vector'): return tuple(s.const(b.a, ('z', b.a), env) for _ in range(b.n))
            if b.k == 'ptr': return NULL
            return 0
        if k == 'f': return s.fconst(v[1][0], v[1][1])
        if k == 'gep': return s.gep(v[1], [(t, s.const(t, x, env)) for t, x in v[2]])
        if k == 'cast':
            _, op, ft, fv, tt = v
            return s.cast(op, ft, s.const(ft, fv, env), tt)
        if k == 'bin':
            return s.binop(v[1], v[2], s.const(v[2], v[3], env), s.const(v[2], v[4], env))
        if k == 'agg':
            return tuple(s.const(t, x, env) for t, x in v[1])
        raise Unsupported('operand %r' % (v,))
    def fconst(s, ty, t):
        if t.startswith('0x'):
            if t[2] in 'KLMHR': raise Unsupported('fp80 constant')
            bits = int(t, 16)
            if ty.k == 'double': return bits
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else:
            d = float(t)
            if ty.k == 'double': return struct.unpack('<Q', struct.pack('<d', d))[0]
        return struct.unpack('<I', struct.pack('<f', d))[0]
    def fval(s, ty, bits):
        return struct.unpack('<d', struct.pack('<Q', bits))[0] if ty.k == 'double' else struct.unpack('<f', struct.pack('<I', bits))[0]
    def fbits(s, ty, d):
        return struct.unpack('<Q', struct.pack('<d', d))[0] if ty.k == 'double' else struct.unpack('<I', struct.pack('<f', d))[0]
    # ------------------------------------------------ operations
    def gep(s, bt, ops):
        p = ops[0][1]; ty = bt; off = 0; first = True
        for t, i in ops[1:]:
            if first: es = s.m.size(ty); first = False
            else:
                b = s.m.body(ty) if ty.k == 'named' else ty
                if b.k == 'struct':
                    off = off + s.m.offsets(b)[i] if isinstance(off, int) else off + s.m.offsets(b)[i]; ty = b.a[i]; continue
                ty = b.a; es = s.m.size(ty)
            if isinstance(i, (int, bool)):
                i = int(i)
                if i >= 1 << (t.n - 1): i -= 1 << t.n
                d = i * es
                off = off + d if isinstance(off, int) else norm(off + z3.BitVecVal(d, 64))
            else:
                if z3.is_bool(i): i = to_bv(i, 64)
                e = i if i.size() == 64 else z3.SignExt(64 - i.size(), i)
                e = e * es if es != 1 else e
                off = norm(to_bv(off & M64, 64) + e) if isinstance(off, int) else norm(off + e)
        return s.padd(p, off)
    def cast(s, op, ft, v, tt):
        if isinstance(v, Undef): return UNDEF if tt.k == 'ptr' else s.havoc_ty(tt, s.m.size(tt))
        if op == 'bitcast': return v
        if op == 'inttoptr':
            if isinstance(v, (int, bool)): return NULL if v == 0 else Ptr(0, int(v))
            if isinstance(v, (Ptr, GV)): return v
            return s.w.inttoptr(v)
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.o == 0: return v.off & M64 if isinstance(v.off, int) else v.off
            if isinstance(v, (Ptr, GV)): return v      # symbolic address kept as pointer
            return v
        if isinstance(v, (Ptr, GV)):
            if op in ('zext', 'sext') : return v
            return s.havoc_ty(tt, s.m.size(tt))
        if op == 'trunc':
            if isinstance(v, (int, bool)): return int(v) & ((1 << tt.n) - 1)
            if tt.n == 1: return norm(z3.Extract(0, 0, v) == 1)
            return norm(z3.Extract(tt.n - 1, 0, v))
        if op == 'zext':
            if isinstance(v, (int, bool)): return int(v)
            if z3.is_bool(v): return norm(to_bv(v, tt.n))
            return norm(z3.ZeroExt(tt.n - v.size(), v))
        if op == 'sext':
            n = ft.n
            if isinstance(v, (int, bool)):
                v = int(v)
                if v >= 1 << (n - 1): v -= 1 << n
                return v & ((1 << tt.n) - 1)
            if z3.is_bool(v): return norm(z3.If(v, z3.BitVecVal((1 << tt.n) - 1, tt.n), z3.BitVecVal(0, tt.n)))
            return norm(z3.SignExt(tt.n - v.size(), v))
        if op in ('fpext', 'fptrunc'):
            if isinstance(v, int): return s.fbits(tt, s.fval(ft, v))
            return fresh_bv('fp', 8 * s.m.size(tt))
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, int): return int(s.fval(ft, v)) & ((1 << tt.n) - 1)
            return fresh_bv('fp', tt.n)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, (int, bool)):
                v = int(v)
                if op == 'sitofp' and v >= 1 << (ft.n - 1): v -= 1 << ft.n
                return s.fbits(tt, float(v))
            return fresh_bv('fp', 8 * s.m.size(tt))
        raise Unsupported('cast ' + op)
    def binop(s, op, ty, a, b):
        if op[0] == 'f':
            if isinstance(a, int) and isinstance(b, int):
                x, y = s.fval(ty, a), s.fval(ty, b)
                try: return s.fbits(ty, {'fadd': x + y, 'fsub': x - y, 'fmul': x * y, 'fdiv': x / y if y else float('inf')}[op])
                except (KeyError, OverflowError): raise Unsupported(op)
            return s.w.fop(op, ty, a, b)
        if ty.k != 'int': raise Unsupported('binop on %r' % ty)
        w = ty.n; m = (1 << w) - 1
        if isinstance(a, (Ptr, GV)) or isinstance(b, (Ptr, GV)):
            return s.ptr_arith(op, a, b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a = int(a); b = int(b)
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sg(a) >> b) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: return fresh_bv('div0', w)
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sg(a), sg(b); q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & m
        if w == 1:
            x, y = to_bool(a), to_bool(b)
            if op == 'and': r = b_and(x, y)
            elif op == 'or': r = b_or(x, y)
            elif op in ('xor', 'add', 'sub'): r = nbool(z3.Xor(zb(x), zb(y)))
            else: raise Unsupported('i1 ' + op)
            return int(r) if isinstance(r, bool) else r
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('mul', 'and'): return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('mul', 'and'): return 0
            if a == 1 and op == 'mul': return b
        x, y = to_bv(a, w), to_bv(b, w)
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y
        elif op == 'lshr': r = z3.LShR(x, y)
        elif op == 'ashr': r = x >> y
        elif op == 'udiv': r = z3.UDiv(x, y)
        elif op == 'urem': r = z3.URem(x, y)
        elif op == 'sdiv': r = x / y
        elif op == 'srem': r = z3.SRem(x, y)
        else: raise Unsupported(op)
        return norm(r)
    def ptr_arith(s, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            if isinstance(a.off, int) and isinstance(b.off, int): return (a.off - b.off) & M64
            return norm(to_bv(a.off & M64 if isinstance(a.off, int) else a.off, 64) - to_bv(b.off & M64 if isinstance(b.off, int) else b.off, 64))
        if op == 'sub' and isinstance(b, Ptr) and b.o == 0 and b.off == 0: return a
        if op == 'add' and isinstance(a, (Ptr, GV)) and not isinstance(b, (Ptr, GV)): return s.padd(a, b)
        if op == 'add' and isinstance(b, (Ptr, GV)) and not isinstance(a, (Ptr, GV)): return s.padd(b, a)
        if op in ('and', 'urem') and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int):
            # alignment tests: objects are at least 16-byte aligned
            mm = b if op == 'and' else b - 1
            if mm < 16: return a.off & mm
        if op == 'sub' and isinstance(a, (Ptr, GV)) and isinstance(b, int): return s.padd(a, -b)
        return s.w.addr_value(op, a, b)
    def icmp(s, c, ty, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh_bool('undefcmp')
        pa = isinstance(a, (Ptr, GV)); pb = isinstance(b, (Ptr, GV))
        if pa or pb:
            if not pa: a = Ptr(0, a if not isinstance(a, bool) else int(a))
            if not pb: b = Ptr(0, b if not isinstance(b, bool) else int(b))
            r = []
            for ca, va in alts_of(a):
                for cb, vb in alts_of(b):
                    cc = b_and(ca, cb)
                    if cc is False: continue
                    r.append((cc, s.pcmp(c, va, vb)))
            if all(isinstance(v, bool) for _, v in r):
                t = b_or(*[cc for cc, v in r if v]) if any(v for _, v in r) else False
                if all(v for _, v in r): t = True
            else: t = b_or(*[b_and(cc, v) for cc, v in r])
            return int(t) if isinstance(t, bool) else t
        w = ty.n if ty.k == 'int' else 64
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a = int(a); b = int(b)
            if c[0] == 's':
                sg = lambda x: x - (1 << w) if x >> (w - 1) else x
                a, b = sg(a), sg(b)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[c])
        if w == 1:
            x, y = to_bool(a), to_bool(b)
            if c == 'eq': return norm(zb(x) == zb(y))
            if c == 'ne': return norm(zb(x) != zb(y))
            raise Unsupported('i1 icmp ' + c)
        x, y = to_bv(a, w), to_bv(b, w)
        return norm({'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                     'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[c]())
    def pcmp(s, c, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh_bool('undefcmp')
        if a.o == b.o:
            if isinstance(a.off, int) and isinstance(b.off, int):
                x, y = a.off, b.off
                if a.o == 0: x &= M64; y &= M64
                return {'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y, 'sgt': x > y, 'slt': x < y, 'sge': x >= y, 'sle': x <= y}[c]
            x = to_bv(a.off & M64 if isinstance(a.off, int) else a.off, 64); y = to_bv(b.off & M64 if isinstance(b.off, int) else b.off, 64)
            if c == 'eq': return nbool(x == y)
            if c == 'ne': return nbool(x != y)
            return nbool({'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y}[c])
        if c == 'eq': return s.w.ptr_eq(a, b)
        if c == 'ne': return b_not(s.w.ptr_eq(a, b))
        if a.o == 0 or b.o == 0:     # non-null objects lie above null and below the all-ones error value
            z, p, flip = (a, b, False) if a.o == 0 else (b, a, True)
            if isinstance(z.off, int):
                hi = (z.off & M64) >= M64 - 4096
                lt = not hi if not flip else hi      # a < b ?
                return {'ult': lt, 'ule': lt, 'ugt': not lt, 'uge': not lt, 'slt': lt, 'sle': lt, 'sgt': not lt, 'sge': not lt}[c]
        return s.w.ptr_order(c, a, b)
    def select(s, c, a, b, ty):
        c = to_bool(c)
        w = ty.n if ty.k == 'int' else (8 * s.m.size(ty) if ty.k in ('float', 'double') else None)
        return ite(c, a, b, w)
    # ------------------------------------------------ merging
    def merge(s, ss):
        r = ss[0]
        for t in ss[1:]: r = s.merge2(r, t)
        return r
    def merge2(s, a, b):
        if a.dead(): return b
        if b.dead(): return a
        pre, ca, cb = merge_pc(a.pc, b.pc)
        if ca is False: return b
        if cb is False: return a
        # guard used to pick a's values: the shorter of the two descriptions
        c = ca if ca is not True else b_not(cb)
        if c is True and cb is True: c = True
        st = State(); st.pc = pre
        if a.mem is b.mem: st.mem = dict(a.mem)
        else:
            mem = {}
            for o, x in a.mem.items():
                y = b.mem.get(o)
                if y is None: mem[o] = x
                elif x is y: mem[o] = x
                else: mem[o] = s.merge_cells(s.objs[o], c, x, y)
            for o, y in b.mem.items():
                if o not in a.mem: mem[o] = y
            st.mem = mem
        st.g = s.w.merge_ghost(c, a.g, b.g)
        return st
    def merge_cells(s, o, c, x, y):
        out = {}
        for k, cv in x.items():
            if isinstance(k, tuple):
                out[k] = cv; continue
            dv = y.get(k)
            if dv is cv: out[k] = cv
            elif dv is not None and dv[0] == cv[0]:
                out[k] = (cv[0], ite(c, cv[1], dv[1], 8 * cv[0]))
            elif dv is None:
                if not any((not isinstance(j, tuple)) and j < k + cv[0] and j + y[j][0] > k for j in y):
                    if o.kind == 'global' and any(isinstance(j, tuple) and j[1] <= k and k + cv[0] <= j[1] + y[j] for j in y):
                        out[k] = (cv[0], ite(c, cv[1], NULL if isinstance(cv[1], (Ptr, GV)) else 0, 8 * cv[0]))
                    else: out[k] = (cv[0], ite(c, cv[1], UNDEF, 8 * cv[0]))
                # partially overlapping: becomes uninitialised (fresh on read)
        for k, dv in y.items():
            if k in x or isinstance(k, tuple):
                if isinstance(k, tuple) and k not in x: out[k] = dv
                continue
            if not any((not isinstance(j, tuple)) and j < k + dv[0] and j + x[j][0] > k for j in x):
                if o.kind == 'global' and any(isinstance(j, tuple) and j[1] <= k and k + dv[0] <= j[1] + x[j] for j in x):
                    out[k] = (dv[0], ite(c, NULL if isinstance(dv[1], (Ptr, GV)) else 0, dv[1], 8 * dv[0]))
                else: out[k] = (dv[0], ite(c, UNDEF, dv[1], 8 * dv[0]))
        return out
    # ------------------------------------------------ calls
    def handler(s, name):
        h = s.hc.get(name)
        if h is None:
            d = s.m.demangle(name)
            h = s.w.lookup(name, d)
            if h is None:
                h = ('body', d) if name in s.m.ftext or name in s.m.alias else ('ext', d)
            else: h = ('contract', d, h)
            s.hc[name] = h
        return h
    def call(s, st, name, args, rty=None):
        """-> Outcome (st is consumed)"""
        name = s.m.alias.get(name, name)
        h = s.handler(name)
        if h[0] == 'contract':
            s.contracts_used[h[1]] = s.contracts_used.get(h[1], 0) + 1
            r = h[2](s, st, args, name, h[1], rty)
            if isinstance(r, Outcome): return r
            if r is NotImplemented:
                if name in s.m.ftext: return s.exec_fn(st, name, args)
                raise ToolLimit('no contract applies: ' + h[1])
            return Outcome(st, r)
        if h[0] == 'body': return s.exec_fn(st, name, args)
        raise ToolLimit('external function without contract: ' + h[1])
    def exec_fn(s, st, name, args):
        f = s.m.func(name)
        if f is None: raise ToolLimit('no body: ' + name)
        d = f.demangled
        s.executed[d] = s.executed.get(d, 0) + 1
        depth = sum(1 for x, _ in s.stack if x == d)
        if depth:
            lim = s.w.recursion_limit(d)
            if depth >= lim:
                s.bounded.add('recursion of %s cut at depth %d' % (d.split('(')[0], lim))
                st.assume(z3.BoolVal(False))
                return Outcome(None, None, None)
        if len(s.stack) > 150: raise ToolLimit('call depth')
        s.stack.append((d, None))
        try:
            return s._exec(st, f, args)
        finally:
            s.stack.pop()
    def _exec(s, st, f, args):
        if s.deadline and time.time() > s.deadline: raise ToolLimit('time limit')
        w = s.wtoc.get(f.name)
        if w is None: w = s.wtoc[f.name] = wto(f)
        idx, heads = w
        env = {}
        for (nm, ty, at), v in zip(f.params, args): env[nm] = v
        locals_ = []
        pend = {f.entry: [(None, st, {})]}
        rets = []; thrs = []
        iters = {}; saved = {}; ind = {}
        fname = f.demangled
        # loop bookkeeping for invariant inference
        while pend:
            b = min(pend, key=lambda x: idx[x])
            inc = pend.pop(b)
            inc = [x for x in inc if not x[1].dead()]
            if not inc: continue
            if len(inc) == 1: st = inc[0][1]; phis = inc[0][2]
            else:
                st = None
                for pred, s2, ph in inc:
                    if st is None: st, phis = s2, dict(ph)
                    else:
                        pre, ca, cb = merge_pc(st.pc, s2.pc)
                        if ca is False: st, phis = s2, dict(ph); continue
                        if cb is False: continue
                        c = ca if ca is not True else b_not(cb)
                        tys = {i.res: i.ty for i in f.blocks[b].ins if i.op == 'phi'}
                        for k in ph:
                            ty = tys[k]
                            phis[k] = ite(c, phis[k], ph[k], ty.n if ty.k == 'int' else (8 * s.m.size(ty) if ty.k in ('float', 'double') else None)) if k in phis else ph[k]
                        st = s.merge2(st, s2)
            if b in heads:
                backs = [x for x in inc if x[0] in heads[b]]
                if not backs:
                    iters[b] = 0
                    saved[b] = None
                else:
                    iters[b] = iters.get(b, 0) + 1
                    n = iters[b]
                    ok = saved.get((b, 'okpc'))
                    if n >= 2 and not (ok is not None and len(ok) == len(st.pc) and all(x is y for x, y in zip(ok, st.pc))):
                        if not s.feasible(st.pc): continue
                        saved[(b, 'okpc')] = st.pc
                    if n > s.maxiter: raise ToolLimit('loop in %s: %d iterations' % (fname, n))
                    if s.deadline and time.time() > s.deadline: raise ToolLimit('time limit')
                if saved.get(b) is not None and backs:
                    # invariant inference in progress: compare the back-edge state with the assumed one
                    entry, ephis, hv, snap = saved[b]
                    diff = s.state_diff(entry, st, ephis, phis, set())
                    new = diff - hv
                    if not new:
                        s.loopinv.append((fname, s.blk_line(f, b), sorted(map(str, hv))[:40]))
                        saved[b] = None
                        continue       # inductive: back edge closed
                    hv = hv | new
                    st, phis = s.havoc(entry, ephis, hv, f, b)
                    pend = {k: list(v) for k, v in snap[0].items()}
                    del rets[snap[1]:]; del thrs[snap[2]:]
                    saved[b] = (st.clone(), dict(phis), hv, snap)
                    if len(hv) > 4000: raise ToolLimit('widening')
                elif backs and b in ind:
                    r = s.ind_step(ind[b], st, phis, f, b)
                    if r is None:
                        s.loopinv.append((fname, s.blk_line(f, b), ['induction: ' + ', '.join(n for n, _ in ind[b]['cands'])]))
                        del ind[b]; continue
                    st, phis = r; snap = ind[b]['snap']
                    pend = {k: list(v) for k, v in snap[0].items()}
                    del rets[snap[1]:]; del thrs[snap[2]:]
                elif backs and iters[b] == 2 and s.w.inductive(s, saved[(b, 'first')][0], st):
                    x = s.ind_start(saved[(b, 'first')], saved[(b, 'prev')], (st, phis), f, b)
                    ind[b] = x; snap = x['snap']
                    st, phis = s.ind_state(x, f, b)
                    pend = {k: list(v) for k, v in snap[0].items()}
                    del rets[snap[1]:]; del thrs[snap[2]:]
                elif backs and (iters[b] == 3 and s.w.env_mark() != saved[(b, 'env')] or saved.get((b, 'count'))) and not s.counted(f, heads[b], pend, saved, b, iters[b]):
                    saved[(b, 'count')] = False
                    entry, ephis, snap = saved[(b, 'first')]
                    hv = s.state_diff(entry, st, ephis, phis, set())
                    st, phis = s.havoc(entry, ephis, hv, f, b)
                    pend = {k: list(v) for k, v in snap[0].items()}
                    del rets[snap[1]:]; del thrs[snap[2]:]
                    saved[b] = (st.clone(), dict(phis), hv, snap)
                if not backs:
                    saved[(b, 'first')] = (st.clone(), dict(phis), ({k: list(v) for k, v in pend.items()}, len(rets), len(thrs)))
                    saved[(b, 'env')] = s.w.env_mark()
                saved[(b, 'pc')] = st.pc
                if iters[b] == 1: saved[(b, 'prev')] = (st.clone(), dict(phis))
            env.update(phis)
            s._block(f, f.blocks[b], st, env, pend, rets, thrs, locals_)
        r = Outcome()
        if rets:
            rets = [x for x in rets if not x[0].dead()]
        if rets:
            rs, rv = rets[0]
            for s2, v2 in rets[1:]:
                pre, ca, cb = merge_pc(rs.pc, s2.pc)
                c = ca if ca is not True else b_not(cb)
                if rv is not None:
                    w_ = f.rty.n if f.rty.k == 'int' else (8 * s.m.size(f.rty) if f.rty.k in ('float', 'double') else None)
                    rv = ite(c, rv, v2, w_)
                rs = s.merge2(rs, s2)
            for o in locals_: rs.mem.pop(o, None)
            r.ret, r.val = rs, rv
        thrs = [x for x in thrs if not x.dead()]
        if thrs:
            t = s.merge(thrs)
            for o in locals_: t.mem.pop(o, None)
            r.thr = t
        return r
    def counted(s, f, body, pend, saved, b, n):
        """a loop over a fixed number of elements: so far every iteration has decided by constants whether to go on (it is executed, not generalised)"""
        snap = saved[(b, 'first')][2][0]
        def land(x):
            for i in f.blocks[x].ins:
                if i.op != 'phi': return i.op == 'landingpad'
        r = n <= 40 and not any(x not in body and x != b and len(v) > len(snap.get(x, ())) and not land(x) for x, v in pend.items())
        saved[(b, 'count')] = r
        return r
    def blk_line(s, f, b):
        for i in f.blocks[b].ins:
            ln = s.m.line_of(i.dbg)
            if ln: return ln
        return None
    def state_diff(s, a, b, pa, pb, acc):
        d = set()
        for o, x in a.mem.items():
            y = b.mem.get(o)
            if y is None or x is y: continue
            for k, cv in x.items():
                dv = y.get(k)
                if isinstance(k, tuple): continue
                if dv is None or dv[0] != cv[0] or not (same(dv[1], cv[1]) or s.semeq(b, cv[1], dv[1], 8 * cv[0])): d.add(('m', o, k, cv[0]))
            for k, dv in y.items():
                if k not in x and not isinstance(k, tuple): d.add(('m', o, k, dv[0]))
        for k in pa:
            if not same(pa[k], pb.get(k)): d.add(('p', k))
        for k in set(a.g) | set(b.g):
            if k not in a.g or k not in b.g or not (same(a.g[k], b.g[k]) or s.semeq(b, a.g[k], b.g[k], None)): d.add(('g', k))
        return d
    def semeq(s, st, x, y, n):
        """equal in every execution that reaches st (only asked by families with loops whose effects are conditional)"""
        if not s.w.semdiff: return False
        for v in (x, y):
            if not (isinstance(v, (int, bool)) or is_sym(v)): return False
        zb_ = lambda v: isinstance(v, bool) or is_sym(v) and z3.is_bool(v)
        if n is None:
            if zb_(x) and zb_(y): return s.valid(st, nbool(zb(x) == zb(y)))
            n = next((v.size() for v in (x, y) if is_sym(v) and z3.is_bv(v)), None)
            if n is None: return False
        if n > 64: return False
        try: return s.valid(st, nbool(to_bv(x, n) == to_bv(y, n)))
        except z3.Z3Exception: return False
    def havoc(s, st, phis, hv, f, b):
        tys = {i.res: i.ty for i in f.blocks[b].ins if i.op == 'phi'}
        st = st.clone(); phis = dict(phis)
        for h in hv:
            if h[0] == 'm':
                _, o, k, n = h
                c = st.w(o)
                old = c.get(k)
                if old is not None and isinstance(old[1], (Ptr, GV)): raise ToolLimit('loop changes a pointer')
                if old is not None and old[0] != n: raise ToolLimit('loop changes cell shape')
                c[k] = (n, fresh_bv('inv', 8 * n) if old is None or isinstance(old[1], (int, bool)) or is_sym(old[1]) or isinstance(old[1], Undef) else s.w.havoc_special(old[1]))
            elif h[0] == 'p':
                v = phis[h[1]]
                if not (isinstance(v, (int, bool)) or is_sym(v)) or tys[h[1]].k != 'int': raise ToolLimit('loop-carried pointer')
                n = tys[h[1]].n
                phis[h[1]] = fresh_bool('inv') if n == 1 else fresh_bv('inv', n)
            else:
                st.g[h[1]] = s.w.havoc_ghost(h[1], st.g.get(h[1]))
        return st, phis
    # ------------------------------------------------ loops over a list of arbitrary length: induction on the iteration number
    def ind_start(s, first, prev, cur, f, b):
        """cells and loop variables that grow by a constant in every iteration are written entry + d * kappa; everything else the body
        changes becomes arbitrary; the candidate invariants are those the world offers.  What the body does not preserve is dropped."""
        entry, ephis, snap = first
        d = s.state_diff(entry, cur[0], ephis, cur[1], set())
        x = dict(entry=entry, ephis=ephis, snap=snap, kappa=fresh_bv('kappa', 64), step={}, hv=set(), tys={i.res: i.ty for i in f.blocks[b].ins if i.op == 'phi'})
        def delta(u, v, n):
            if isinstance(u, (Undef, type(None))) or isinstance(v, (Undef, type(None))): return None
            if isinstance(u, Ptr) and isinstance(v, Ptr): return delta(u.off, v.off, 64) if u.o == v.o else None
            if not all(isinstance(y, (int, bool)) or is_sym(y) and z3.is_bv(y) for y in (u, v)): return None
            w = norm(to_bv(v, n) - to_bv(u, n))
            return w if isinstance(w, int) else None
        for h in d:
            a0, a1, a2 = [s.ind_get(y, z, h) for y, z in ((entry, ephis), prev, cur)]
            n = 8 * h[3] if h[0] == 'm' else (x['tys'][h[1]].n if x['tys'][h[1]].k == 'int' else 64) if h[0] == 'p' else None
            e = None
            if n and a0 is not None and not (h[0] == 'p' and n == 1):
                e, e2 = delta(a0, a1, n), delta(a1, a2, n)
                if e is None or e != e2 or e == 0: e = None
            if e is None: x['hv'].add(h)
            else: x['step'][h] = (e, n)
        x['cands'] = [(nm, fn) for nm, fn in s.w.ind_candidates(s, x) if s.valid(entry, fn(z3.BitVecVal(0, 64), entry))]
        return x
    def ind_get(s, st, phis, h):
        if h[0] == 'm':
            c = st.mem.get(h[1], {}).get(h[2]); return c[1] if c is not None and c[0] == h[3] else None
        return phis.get(h[1]) if h[0] == 'p' else st.g.get(h[1])
    def ind_at(s, x, h, k):
        e, n = x['step'][h]; v = s.ind_get(x['entry'], x['ephis'], h)
        add = lambda o, w: norm(to_bv(o, w) + z3.BitVecVal(e, w) * (k if w == 64 else z3.Extract(w - 1, 0, k)))
        return Ptr(v.o, add(v.off, 64)) if isinstance(v, Ptr) else add(v, n)
    def ind_state(s, x, f, b):
        st, phis = s.havoc(x['entry'], x['ephis'], x['hv'], f, b)
        for h in x['step']:
            v = s.ind_at(x, h, x['kappa'])
            if h[0] == 'm': st.w(h[1])[h[2]] = (h[3], v)
            else: phis[h[1]] = v
        st.assume(z3.ULT(x['kappa'], bv(1 << 40)))
        for nm, fn in x['cands']: st.assume(nbool(fn(x['kappa'], st)))
        s.w.ind_begin(s, st, x)
        x['assumed'] = (st.clone(), dict(phis))
        return st, phis
    def ind_step(s, x, st, phis, f, b):
        """None if the assumed state is an invariant, else the state to try next"""
        ast, aphis = x['assumed']; k1 = x['kappa'] + 1; bad = False
        bound = s.valid(st, z3.ULT(k1, bv(1 << 40)))
        if not bound: raise ToolLimit('loop without a bound on its iterations')
        x['cands'], n = [(nm, fn) for nm, fn in x['cands'] if s.valid(st, fn(k1, st))], len(x['cands'])
        bad = len(x['cands']) < n
        for h in list(x['step']):
            want = s.ind_at(x, h, k1); got = s.ind_get(st, phis, h)
            ok = isinstance(got, Ptr) and isinstance(want, Ptr) and got.o == want.o and s.valid(st, nbool(to_bv(got.off, 64) == to_bv(want.off, 64))) if isinstance(want, Ptr) else \
                 got is not None and not isinstance(got, (Ptr, GV, Undef, Str)) and s.valid(st, nbool(to_bv(got, h[3] * 8 if h[0] == 'm' else x['step'][h][1]) == to_bv(want, x['step'][h][1])))
            if not ok: del x['step'][h]; x['hv'].add(h); bad = True
        new = {h for h in s.state_diff(ast, st, aphis, phis, set())} - x['hv'] - set(x['step'])
        if new: x['hv'] |= new; bad = True
        if not bad: return None
        if len(x['hv']) > 4000: raise ToolLimit('widening')
        return s.ind_state(x, f, b)
    # ------------------------------------------------ blocks
    def _edge(s, f, frm, to, st, env, pend):
        ph = {}
        for i in f.blocks[to].ins:
            if i.op != 'phi': break
            for v, p in i.a:
                if p == frm: ph[i.res] = s.const(i.ty, v, env); break
        pend.setdefault(to, []).append((frm, st, ph))
    def _block(s, f, blk, st, env, pend, rets, thrs, locals_):
        m = s.m; stk = s.stack
        fn = stk[-1][0]
        for I in blk.ins:
            s.ninstr += 1
            op = I.op
            if op == 'phi': continue
            if op == 'load':
                p = s.const(PTR, I.a[0], env)
                ty = I.ty
                b = m.body(ty) if ty.k == 'named' else ty
                if b.k in ('struct', 'array'): v = s.load_agg(st, p, b)
                else:
                    v = s.load(st, p, m.size(ty), ty)
                    if ty.k == 'int' and ty.n == 1 and not isinstance(v, (int, bool)): v = norm(to_bool(v))
                    elif ty.k == 'ptr' and not isinstance(v, (Ptr, GV)): v = s.as_ptr(v, st)
                env[I.res] = v
            elif op == 'store':
                v = s.const(I.ty, I.a[0], env); p = s.const(PTR, I.a[1], env)
                ty = I.ty; b = m.body(ty) if ty.k == 'named' else ty
                if b.k in ('struct', 'array'): s.store_agg(st, p, b, v)
                else:
                    n = m.size(ty)
                    if z3.is_bool(v) if is_sym(v) else False: v = norm(to_bv(v, 8 * n))
                    s.store(st, p, n, v, ty)
            elif op == 'getelementptr':
                env[I.res] = s.gep(I.ty, [(t, s.const(t, v, env)) for t, v in I.a])
            elif op == 'alloca':
                n = s.const(I.a[0], I.a[1], env)
                if not isinstance(n, int): raise Unsupported('dynamic alloca')
                o = s.new_obj(I.res, m.size(I.ty) * n, 'local')
                st.mem[o.id] = {}; st.own.add(o.id); locals_.append(o.id)
                env[I.res] = Ptr(o.id, 0)
            elif op in ('call', 'invoke'):
                if I.dbg: stk[-1] = (fn, m.line_of(I.dbg))
                callee = I.a[0]
                if callee[0] == 'g': name = callee[1]
                elif callee[0] == 'asm':
                    continue
                else:
                    cp = s.const(PTR, callee, env)
                    if isinstance(cp, Ptr) and s.objs[cp.o].kind == 'func': name = s.objs[cp.o].name
                    else:
                        r = s.w.indirect(s, st, cp, [s.const(t, v, env) for t, v, at in I.a[1]], I.ty)
                        name = None
                if name is not None and name.startswith('llvm.'):
                    if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.assume'): continue
                    r = s.intrinsic(st, name, [(t, s.const(t, v, env)) for t, v, at in I.a[1]], I)
                    if r is None and name == 'llvm.trap': return
                    r = Outcome(st, r)
                elif name is not None:
                    args = []
                    for t, v, at in I.a[1]:
                        x = s.const(t, v, env)
                        if 'byval' in at:
                            o = s.new_obj('byval', m.size(at['byval']), 'local'); st.mem[o.id] = {}; st.own.add(o.id); locals_.append(o.id)
                            s.copy_mem(st, Ptr(o.id, 0), x, m.size(at['byval'])); x = Ptr(o.id, 0)
                        args.append(x)
                    r = s.call(st, name, args, I.ty)
                if I.res is not None and r.ret is not None: env[I.res] = r.val
                if op == 'invoke':
                    if r.ret is not None and r.thr is not None and r.ret is r.thr: raise Unsupported('aliased outcome')
                    if r.thr is not None: s._edge(f, blk.name, I.a[3], r.thr, env, pend)
                    if r.ret is not None: s._edge(f, blk.name, I.a[2], r.ret, env, pend)
                    return
                if r.thr is not None: thrs.append(r.thr)
                if r.ret is None: return
                st = r.ret
            elif op == 'br':
                if len(I.a) == 1: s._edge(f, blk.name, I.a[0], st, env, pend); return
                c = to_bool(s.const(INT(1), I.a[0], env))
                if isinstance(c, bool):
                    s._edge(f, blk.name, I.a[1] if c else I.a[2], st, env, pend); return
                c = nbool(c)
                if isinstance(c, bool):
                    s._edge(f, blk.name, I.a[1] if c else I.a[2], st, env, pend); return
                nc = b_not(c)
                if isinstance(nc, bool):
                    s._edge(f, blk.name, I.a[2] if nc else I.a[1], st, env, pend); return
                for x in st.pc:
                    if x.eq(c): s._edge(f, blk.name, I.a[1], st, env, pend); return
                    if x.eq(nc): s._edge(f, blk.name, I.a[2], st, env, pend); return
                r = s.w.decide(c)
                if isinstance(r, bool): s._edge(f, blk.name, I.a[1] if r else I.a[2], st, env, pend); return
                if r is not None: c, nc = r, b_not(r)
                if s.w.prune_branches and r is None:
                    if not s.feasible(st.pc + (c,)): st.assume(nc); s._edge(f, blk.name, I.a[2], st, env, pend); return
                    if not s.feasible(st.pc + (nc,)): st.assume(c); s._edge(f, blk.name, I.a[1], st, env, pend); return
                t = st.clone(); t.assume(c); st.assume(nc)
                s._edge(f, blk.name, I.a[1], t, env, pend)
                s._edge(f, blk.name, I.a[2], st, env, pend)
                return
            elif op == 'switch':
                v = s.const(I.ty, I.a[0], env)
                if isinstance(v, (int, bool)):
                    for c, l in I.a[2]:
                        if (c[1] & ((1 << I.ty.n) - 1)) == int(v): s._edge(f, blk.name, l, st, env, pend); return
                    s._edge(f, blk.name, I.a[1], st, env, pend); return
                rest = st
                for c, l in I.a[2]:
                    e = nbool(to_bv(v, I.ty.n) == (c[1] & ((1 << I.ty.n) - 1)))
                    if e is False: continue
                    t = rest.clone(); t.assume(e); rest.assume(b_not(e))
                    s._edge(f, blk.name, l, t, env, pend)
                if not rest.dead(): s._edge(f, blk.name, I.a[1], rest, env, pend)
                return
            elif op == 'ret':
                rets.append((st, s.const(I.ty, I.a[0], env) if I.a else None)); return
            elif op == 'icmp':
                env[I.res] = s.icmp(I.a[0], I.ty, s.const(I.ty, I.a[1], env), s.const(I.ty, I.a[2], env))
            elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'fadd', 'fsub', 'fmul', 'fdiv'):
                env[I.res] = s.binop(op, I.ty, s.const(I.ty, I.a[0], env), s.const(I.ty, I.a[1], env))
            elif op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
                env[I.res] = s.cast(op, I.a[0], s.const(I.a[0], I.a[1], env), I.ty)
            elif op == 'select':
                env[I.res] = s.select(s.const(INT(1), I.a[0], env), s.const(I.ty, I.a[1], env), s.const(I.ty, I.a[2], env), I.ty)
            elif op == 'extractvalue':
                v = s.const(I.ty, I.a[0], env)
                for i in I.a[1]: v = v[i]
                env[I.res] = v
            elif op == 'insertvalue':
                v = s.const(I.ty, I.a[0], env); x = s.const(None, I.a[1], env) if I.a[1][0] in ('v',) else s.const(INT(64), I.a[1], env)
                env[I.res] = s.insert(v, x, I.a[2])
            elif op == 'landingpad':
                env[I.res] = s.w.landingpad(s, st, I.a[0], I.a[1], env)
            elif op == 'resume':
                thrs.append(st); return
            elif op == 'unreachable':
                return
            elif op == 'freeze':
                env[I.res] = s.const(I.ty, I.a[0], env)
            elif op == 'fneg':
                v = s.const(I.ty, I.a[0], env)
                env[I.res] = s.fbits(I.ty, -s.fval(I.ty, v)) if isinstance(v, int) else fresh_bv('fp', 8 * m.size(I.ty))
            elif op == 'fcmp':
                a = s.const(I.ty, I.a[1], env); b = s.const(I.ty, I.a[2], env)
                if isinstance(a, int) and isinstance(b, int):
                    x, y = s.fval(I.ty, a), s.fval(I.ty, b); c = I.a[0]
                    env[I.res] = int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[c[1:]])
                else: env[I.res] = fresh_bool('fcmp')
            else: raise Unsupported('op ' + op + ' in ' + fn)
        raise Unsupported('block without terminator')
    def as_ptr(s, v, st):
        if isinstance(v, (int, bool)): return NULL if v == 0 else Ptr(0, int(v))
        if isinstance(v, Undef): return v
        lv = leaves(v) if is_sym(v) else None
        if lv is not None: return mkgv([(c, NULL if x == 0 else Ptr(0, x)) for c, x in lv])
        return s.w.inttoptr(v)
    def insert(s, v, x, idx):
        if isinstance(v, Undef): v = (UNDEF,) * 2
        v = list(v)
        if len(idx) == 1: v[idx[0]] = x
        else: v[idx[0]] = s.insert(v[idx[0]], x, idx[1:])
        return tuple(v)
    def load_agg(s, st, p, b):
        if b.k == 'struct':
            offs = s.m.offsets(b); tys = b.a
        else:
            es = s.m.size(b.a); tys = [b.a] * b.n; offs = [i * es for i in range(b.n)]
        out = []
        for o, t in zip(offs, tys):
            bt = s.m.body(t) if t.k == 'named' else t
            if bt.k in ('struct', 'array'): out.append(s.load_agg(st, s.padd(p, o), bt))
            else:
                v = s.load(st, s.padd(p, o), s.m.size(t), t)
                if t.k == 'ptr' and not isinstance(v, (Ptr, GV)): v = s.as_ptr(v, st)
                out.append(v)
        return tuple(out)
    def store_agg(s, st, p, b, v):
        if b.k == 'struct':
            offs = s.m.offsets(b); tys = b.a
        else:
            es = s.m.size(b.a); tys = [b.a] * b.n; offs = [i * es for i in range(b.n)]
        for o, t, x in zip(offs, tys, v):
            bt = s.m.body(t) if t.k == 'named' else t
            if bt.k in ('struct', 'array'): s.store_agg(st, s.padd(p, o), bt, x)
            else: s.store(st, s.padd(p, o), s.m.size(t), x, t)
    def intrinsic(s, st, name, args, I):
        vs = [v for _, v in args]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            s.copy_mem(st, vs[0], vs[1], vs[2]); return None
        if name.startswith('llvm.memset'):
            if isinstance(vs[2], int) and isinstance(vs[1], int) and isinstance(vs[0], Ptr) and isinstance(vs[0].off, int) and s.objs[vs[0].o].kind not in s.w.special:
                n = vs[2]; i = 0; o = s.objs[vs[0].o]
                while i < n:
                    k = min(8, n - i); s.store_cell(st, o, vs[0].off + i, k, int.from_bytes(bytes([vs[1] & 255]) * k, 'little')); i += k
                return None
            s.w.sym_memset(st, vs[0], vs[1], vs[2]); return None
        if name.startswith('llvm.eh.typeid.for'): return s.w.typeid(s, vs[0])
        if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            k = name[5:9]; ty = args[0][0]
            c = s.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], ty, vs[0], vs[1])
            return ite(to_bool(c), vs[0], vs[1], ty.n)
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'): return None
        if name.startswith('llvm.expect'): return vs[0]
        if name.startswith('llvm.is.constant'): return 0
        if name.startswith('llvm.abs'):
            ty = args[0][0]
            return ite(to_bool(s.icmp('slt', ty, vs[0], 0)), s.binop('sub', ty, 0, vs[0]), vs[0], ty.n)
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
            ty = args[0][0]; return s.binop('fadd', ty, s.binop('fmul', ty, vs[0], vs[1]), vs[2])
        if name.startswith('llvm.stacksave'): return NULL
        if name.startswith('llvm.stackrestore'): return None
        if name.startswith('llvm.umul.with.overflow'):
            ty = args[0][0]; a, b = vs[0], vs[1]
            if isinstance(a, int) and isinstance(b, int): return ((a * b) & ((1 << ty.n) - 1), int(a * b >= 1 << ty.n))
            r = s.binop('mul', ty, a, b)
            return (r, norm(z3.Not(z3.BVMulNoOverflow(to_bv(a, ty.n), to_bv(b, ty.n), False))))
        raise Unsupported('intrinsic ' + name)
