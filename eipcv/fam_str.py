"""C14, C15: the shared string tensor.  StringTensor.cpp is executed as it is, for Server and Client; Server<int> and Client<int> are
represented by their contracts (what C01-C09 prove).  Strings are byte sequences of symbolic length; a slot is the 256 cells of a column."""
import re, time, z3
import symex, runner
from symex import *
from llir import Module, Unsupported, INT, PTR
from world import World, bv64, short, THREW
from poly import poly
from fam_misc import W, eqp, sx, result, live

MAXC, ROWS = 1024, 256
SZ = 4096            # where a string object keeps its length
BASE, NSP = ('a', 'name'), ('a', 'namespace')
class NotCanonical(Exception): pass
def zimp(a, b): return b_or(b_not(a), b)
def u8(v): return v if isinstance(v, int) else v
LEN = z3.Function('len', z3.BitVecSort(64), z3.BitVecSort(64))

class StrWorld(W):
    special = {'user', 'heapx', 'bytes', 'list'}
    semdiff = True
    def __init__(s, prop, K):
        super().__init__(prop); s.K = K; s.prune_branches = True
        s.sh = None; s.slots = {}; s.col = None; s.mode = 'one'; s.axv = {}; s.vc = {}; s.keep = []
        s.dec_ = {}; s.tab = {}; s.inc = {}; s.memo = {}; s.lens = []; s.list = None; s.enc = s.dec = None
        s.rx(r'EigenIPC::(Server|Client)<int, \d>::', s.h_shared)
        def first(key, h):
            old = s.exact.get(key)
            s.on(key, lambda e, st, a, n, d, r: h(e, st, a, n, d, r) if s.mine(st, a[0]) else (old(e, st, a, n, d, r) if old else NotImplemented))
        z = 'string::'
        for q in ('size() const', 'length() const'): first(z + q, lambda e, st, a, n, d, r: s.ssize(st, a[0]))
        first(z + 'empty() const', lambda e, st, a, n, d, r: norm(to_bv(s.ssize(st, a[0]), 64) == 0))
        for q in ('operator[](unsigned long) const', 'operator[](unsigned long)'): first(z + q, lambda e, st, a, n, d, r: s.byteptr(st, a[0], a[1], False))
        for q in ('at(unsigned long) const', 'at(unsigned long)'): first(z + q, s.h_at)
        for q in ('data() const', 'data()', 'c_str() const', 'begin() const', 'begin()', 'cbegin() const'): first(z + q, lambda e, st, a, n, d, r: Ptr(s.sobj(st, a[0]).o, 0))
        for q in ('end() const', 'end()', 'cend() const'): first(z + q, lambda e, st, a, n, d, r: Ptr(s.sobj(st, a[0]).o, s.ssize(st, a[0])))
        for q in ('front() const', 'front()'): first(z + q, lambda e, st, a, n, d, r: s.byteptr(st, a[0], 0, True))
        s.on(z + 'clear()', lambda e, st, a, n, d, r: s.setsize(st, a[0], 0))
        s.on(z + 'push_back(char)', lambda e, st, a, n, d, r: s.push(st, a[0], a[1]))
        s.on(z + 'operator+=(char)', lambda e, st, a, n, d, r: (s.push(st, a[0], a[1]), a[0])[1])
        for q in ('reserve(unsigned long)', 'shrink_to_fit()', 'reserve()'): s.on(z + q, lambda e, st, a, n, d, r: None)
        s.on(z + 'capacity() const', lambda e, st, a, n, d, r: fresh_bv('capacity', 64))
        s.on(z + 'append(unsigned long, char)', s.h_appendn)
        s.on(z + 'resize(unsigned long)', lambda e, st, a, n, d, r: s.h_resize(st, a[0], a[1], 0))
        s.on(z + 'resize(unsigned long, char)', lambda e, st, a, n, d, r: s.h_resize(st, a[0], a[1], a[2]))
        for q in ('const&', '&&'):
            for k in ('basic_string(string %s)' % q, 'operator=(string %s)' % q): first2(s, z + k)
        s.on(z + 'swap(string&)', s.h_swap)
        s.rx(r'(typename )?(std::)?(void|.*) std::swap<char, .*string', s.h_swap)
        s.rx(r'(void )?Eigen::internal::check_(rows_cols|size)_for_overflow<', s.h_overflow)
        s.on('strlen', lambda e, st, a, n, d, r: (_ for _ in ()).throw(ToolLimit('strlen')))
    def gdef(s, k):
        if k in ('wr', 'rd', 'enc', 'dec', 'changed', 'fresh', 'abs', 'res'): return False
        return super().gdef(k)
    def axioms_for(s, fs):
        """every byte of an input string differs from 0 (asserted for the bytes that occur)"""
        if not s.axv: return s.axioms
        vs = set()
        for f in fs: vs |= s.vars(f)
        return s.axioms + [s.axv[v] for v in vs if v in s.axv]
    def vars(s, f):
        if not is_sym(f): return frozenset()
        i = f.get_id()
        if i in s.vc: return s.vc[i]
        out = set(); todo = [f]; seen = set()
        while todo:
            x = todo.pop(); j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if j in s.vc: out |= s.vc[j]; continue
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else: todo += x.children()
        s.vc[i] = frozenset(out); s.keep.append(f)
        return s.vc[i]
    def O(s, st, l, c, prop=None):
        p = prop or s.prop
        if s.mute or p != s.prop: return True
        n = len(s.e.obl); s.e.oblige(st, p, l, c)
        if len(s.e.obl) > n and s.e.obl[-1]['status'] == 'failed' and st.g.get('abs') is not False and 'abs' in st.g: s.e.obl[-1]['status'] = 'unknown'
    n = None; lo = 0; hi = 0
    def decide(s, c):
        if s.mode != 'one' or s.n is None: return None
        i = c.get_id()
        if i in s.dec_: return s.dec_[i][1]
        v = s.vars(c); r = None
        if len(v) <= 6 and all(x == 'n' or x in s.axv for x in v):
            if s.quick(v, c) == 'unsat': r = False
            elif s.quick(v, z3.Not(c)) == 'unsat': r = True
            elif 'n' in v and s.hi <= MAXC:
                x = s.table(c)
                if x is not None: r = s.cond({k for k, y in x.items() if y})
        s.dec_[i] = (c, r)
        return r
    def h_overflow(s, e, st, a, n, d, r):
        """no overflow for a 256 x length tensor: both dimensions (or 2^9 times the number of elements) are small"""
        if all(isinstance(v, int) and v < 1 << 31 or eqp(v, s.L64) is True or len(a) == 1 and eqp(v, ROWS * s.L64) is True for v in a): return None
        return NotImplemented
    def quick(s, vs, c):
        """satisfiable together with what is known of the length and the bytes?"""
        if s.qs is None or s.qs[1] is not s.n or s.qs[2] != (s.lo, s.hi):
            so = z3.Solver(); so.set('timeout', 20000); so.add(z3.UGE(s.n, s.lo), z3.ULE(s.n, s.hi)); s.qs = (so, s.n, (s.lo, s.hi), set())
        so = s.qs[0]; t = time.time()
        for v in vs:
            if v in s.axv and v not in s.qs[3]: so.add(s.axv[v]); s.qs[3].add(v)
        so.push(); so.add(c); r = so.check(); so.pop()
        s.e.nchecks += 1; s.e.tsolve += time.time() - t
        return str(r)
    qs = None
    def table(s, t):
        """a term that depends on the length only: its value for every length of the range"""
        i = t.get_id()
        if i in s.tab: return s.tab[i][1]
        out = {}
        for v in range(s.lo, s.hi + 1):
            x = z3.simplify(z3.substitute(t, (s.n, bv(v))))
            if z3.is_bool(x) and not (z3.is_true(x) or z3.is_false(x)):
                ws = s.vars(x)
                if s.quick(ws, x) == 'unsat': x = z3.BoolVal(False)
                elif s.quick(ws, z3.Not(x)) == 'unsat': x = z3.BoolVal(True)
            if z3.is_true(x): out[v] = 1
            elif z3.is_false(x): out[v] = 0
            elif z3.is_bv_value(x): out[v] = x.as_long()
            else: out = None; break
        s.tab[i] = (t, out)
        return out
    def cond(s, vs):
        """the length is in vs"""
        key = ('cond',) + tuple(sorted(vs))
        if key in s.tab: return s.tab[key]
        out = []; v = s.lo
        while v <= s.hi:
            if v not in vs: v += 1; continue
            w = v
            while w + 1 in vs: w += 1
            c = []
            if v > s.lo: c.append(z3.UGE(s.n, v))
            if w < s.hi: c.append(z3.ULE(s.n, w))
            out.append(z3.And(*c) if len(c) == 2 else c[0] if c else z3.BoolVal(True)); v = w + 1
        r = s.tab[key] = out[0] if len(out) == 1 else z3.Or(*out) if out else z3.BoolVal(False)
        return r
    def canon(s, t):
        """(condition on the length, value) for a term that depends on the length only"""
        if s.n is None or not s.vars(t) <= {'n'} or s.hi > MAXC: return None
        x = s.table(t)
        if x is None: return None
        g = {}
        for v, y in x.items(): g.setdefault(y, set()).add(v)
        return [(s.cond(vs), y) for y, vs in sorted(g.items())]
    def chain(s, l):
        r = l[-1][1]
        for c, y in reversed(l[:-1]): r = ite(c, y, r, 64)
        return r
    # ------------------------------------------------------------ strings
    def cell(s, st, p):
        if not isinstance(p, Ptr): return None
        o = s.e.objs[p.o]
        if o.kind in s.special or not isinstance(p.off, int): return None
        c = st.mem.get(p.o, {}).get(p.off)
        return c[1] if c is not None and c[0] == 32 else None
    def mine(s, st, p):
        if isinstance(p, Ptr) and s.e.objs[p.o].kind == 'list': return True
        v = s.cell(st, p)
        return isinstance(v, Ptr)
    def newstr(s, st, n, cells=()):
        o = s.e.new_obj('bytes', None, 'bytes'); st.mem[o.id] = dict(cells); st.own.add(o.id); st.w(o.id)[SZ] = (8, n)
        return Ptr(o.id, 0)
    def sobj(s, st, p):
        """the byte object behind a string"""
        if isinstance(p, Ptr) and s.e.objs[p.o].kind == 'list': raise ToolLimit('bytes of a string in a list')
        v = s.cell(st, p)
        if isinstance(v, Ptr): return v
        if isinstance(v, Str) and v.const():
            x = v.bytes(); v = s.newstr(st, len(x), {i: (1, c) for i, c in enumerate(x)}); st.w(p.o)[p.off] = (32, v)
            return v
        if v is None and isinstance(p, Ptr) and p.o == 0: raise ToolLimit('null string')
        raise ToolLimit('string %r' % (v,))
    def ssize(s, st, p):
        if isinstance(p, Ptr) and s.e.objs[p.o].kind == 'list':
            i = s.index(st, p); v = LEN(i)
            if not any(v.eq(x) for _, x in s.lens): s.lens.append((i, v)); s.axioms.append(z3.ULT(v, bv(1 << 60)))
            return v
        return st.mem[s.sobj(st, p).o][SZ][1]
    def touched(s, st, o):
        if s.user is not None and o == s.user.o: st.g['changed'] = True
    user = None
    def setsize(s, st, p, n):
        if isinstance(p, Ptr) and s.e.objs[p.o].kind == 'list': s.index(st, p); st.g['changed'] = True; st.g['dec'] = False; return
        v = s.sobj(st, p); s.touched(st, v.o); st.w(v.o)[SZ] = (8, n)
    def push(s, st, p, c):
        v = s.sobj(st, p); s.touched(st, v.o); n = st.mem[v.o][SZ][1]
        s.put(st, v.o, n, c)
        st.w(v.o)[SZ] = (8, s.incr(n))
    def incr(s, n):
        if not is_sym(n): return n + 1
        l = s.canon(n)
        if l: return s.chain([(c, y + 1) for c, y in l])
        if z3.is_bv_value(n): return n.as_long() + 1
        i = n.get_id()
        if i not in s.inc:
            if z3.is_app_of(n, z3.Z3_OP_ITE): c, a, b = n.children(); r = ite(c, s.incr(a), s.incr(b), 64)
            else: r = norm(n + 1)
            s.inc[i] = (n, r)
        return s.inc[i][1]
    def put(s, st, o, n, c):
        m = st.w(o)
        if isinstance(n, int):
            if n > 2 * MAXC: raise ToolLimit('string grows')
            m[n] = (1, c); return
        l = s.canon(n) or leaves(n)
        if l is None or len(l) > 600: raise ToolLimit('position in a string')
        l = [(x, k) for x, k in l if x is not False]
        for x, k in l:
            if len(l) > 1 and not s.e.feasible(tuple(y for y in st.pc if 'n' in s.vars(y)) + (zb(x),)): continue
            if k >= SZ: raise ToolLimit('string grows')
            old = m.get(k); m[k] = (1, ite(x, c, old[1] if old is not None else 0, 8))
    def h_appendn(s, e, st, a, n, d, r):
        if not isinstance(a[1], int) or a[1] > MAXC: raise ToolLimit('append')
        for i in range(a[1]): s.push(st, a[0], a[2])
        return a[0]
    def h_resize(s, st, p, n, c):
        v = s.sobj(st, p); s.touched(st, v.o); o = st.mem[v.o][SZ][1]
        if isinstance(n, int) and n == 0: st.w(v.o)[SZ] = (8, 0); return
        if isinstance(n, int) and isinstance(o, int) and n <= 2 * MAXC:
            for i in range(o, n): st.w(v.o)[i] = (1, c)
            st.w(v.o)[SZ] = (8, n); return
        if isinstance(n, int) and n <= 2 * MAXC:
            for i in range(n):
                x = st.w(v.o).get(i); st.w(v.o)[i] = (1, ite(nbool(z3.ULT(bv(i), to_bv(o, 64))), x[1] if x is not None else 0, c, 8))
            st.w(v.o)[SZ] = (8, n); return
        if not s.e.valid(st, z3.ULE(to_bv(n, 64), to_bv(o, 64))): raise ToolLimit('resize')
        st.w(v.o)[SZ] = (8, n)
    def h_swap(s, e, st, a, n, d, r):
        x, y = s.sobj(st, a[0]), s.sobj(st, a[1])
        for q in (x, y): s.touched(st, q.o)
        st.mem[x.o], st.mem[y.o] = dict(st.mem[y.o]), dict(st.mem[x.o]); st.own |= {x.o, y.o}
    def byteptr(s, st, p, i, strict):
        v = s.sobj(st, p); n = st.mem[v.o][SZ][1]
        c = (z3.ULT if strict else z3.ULE)(to_bv(i, 64), to_bv(n, 64))
        s.O(st, 'no character outside the string is accessed', nbool(c), 'C15')
        return Ptr(v.o, i)
    def h_at(s, e, st, a, n, d, r):
        v = s.sobj(st, a[0]); c = nbool(z3.ULT(to_bv(a[1], 64), to_bv(st.mem[v.o][SZ][1], 64)))
        if c is True: return Ptr(v.o, a[1])
        t, f = s.both(st.clone(), zb(c))
        return Outcome(t if e.feasible(t.pc) else None, Ptr(v.o, a[1]), s.throw(f, '_ZTISt12out_of_range') if e.feasible(f.pc) else None)
    def uniq(s, st, off):
        """a value the path condition determines"""
        if isinstance(off, int): return off
        r, m = s.e.check(list(st.pc))
        if r != 'sat': raise ToolLimit('offset')
        v = m.eval(off, model_completion=True).as_long()
        if not s.e.valid(st, off == v): raise ToolLimit('symbolic offset')
        return v
    # ------------------------------------------------------------ memory
    def index(s, st, p):
        """which element of the list"""
        off = p.off
        if isinstance(off, int):
            if off % 32: raise ToolLimit('list element')
            i = off // 32
        else:
            P, atoms = poly(off); i = bv(0)
            for m, c in P.items():
                c = c if c < 1 << 63 else c - (1 << 64)
                if c % 32: raise ToolLimit('list element')
                t = bv(1)
                for k in m: t = t * atoms[k]
                i = i + bv64((c // 32) % (1 << 64)) * t
            i = norm(i)
        i = bv64(i)
        s.O(st, 'no string outside the list is accessed', nbool(z3.ULT(i, s.k)), 'C15')
        return i
    def cellof(s, st, o, off):
        """(row, byte) of an address in the buffer; the column must be the slot of the operation"""
        if s.mode != 'one': raise ToolLimit('direct access to the buffer of a list operation')
        P, atoms = poly(off); Lp, _ = poly(s.L64)
        (lk,) = Lp if len(Lp) == 1 else (None,)
        if not lk or Lp[lk] != 1: raise ToolLimit('length')
        row = [(m, c) for m, c in P.items() if all(m.count(k) >= lk.count(k) for k in lk) and m != lk]
        for m, c in row: del P[m]
        r4 = P.pop(lk, 0)
        r4 = r4 if r4 < 1 << 63 else r4 - (1 << 64)
        if row:                       # a row that depends on the length of the string
            t = bv(r4)
            for m, c in row:
                u = bv64(c); m = list(m)
                for k in lk: m.remove(k)
                for k in m: u = u * atoms[k]
                t = t + u
            r4 = s.canon(norm(t))
            if r4 is None: raise ToolLimit('row')
            r4 = [(c, y if y < 1 << 63 else y - (1 << 64)) for c, y in r4]
        else: r4 = [(True, r4)]
        Q = dict(P); C, _ = poly(bv64(sx(s.col)))
        for m, c in C.items():
            v = (Q.get(m, 0) - 4 * c) % (1 << 64)
            if v: Q[m] = v
            else: Q.pop(m, None)
        b = Q.pop((), 0)
        if Q or any(y % 4 for _, y in r4): raise ToolLimit('address in the buffer that is not in the slot')
        out = [zb(c) for c, y in r4 if not (0 <= y // 4 < ROWS and 0 <= b < 4)]
        if out: r4 = [(c, y) for c, y in r4 if 0 <= y // 4 < ROWS and 0 <= b < 4]
        if out and s.e.feasible(st.pc + (z3.Or(*out),)):
            for q in ('C14', 'C15'): s.O(st, 'only the rows of the slot are accessed', False, q)
            raise ToolLimit('access outside the slot')
        key = tuple(x.get_id() for x in st.pc if 'col' in s.vars(x))
        if key not in s.memo:
            s.memo[key] = st.pc; s.O(st, 'only an existing slot is accessed', nbool(z3.And(s.col >= 0, s.col < s.L)), 'C15')
        if s.op == 'read':
            key = ('fresh',) + tuple(x.get_id() for x in st.pc if 'granted' in s.vars(x))
            if key not in s.memo:
                s.memo[key] = st.pc
                for q in ('C14', 'C15'): s.O(st, 'a slot is only looked at after a successful read', st.g['fresh'], q)
        return [(c, y + b) for c, y in r4]
    def special_load(s, st, o, off, size, ty):
        if o.kind == 'bytes':
            i = s.uniq(st, off); n = st.mem[o.id][SZ][1]
            s.O(st, 'no character outside the string is accessed', nbool(z3.ULE(bv(i) + size - 1, to_bv(n, 64))), 'C15')
            if size == 1: return s.byte(st, o.id, i)
            x = [to_bv(s.byte(st, o.id, i + j), 8) for j in range(size)]
            return norm(z3.Concat(*reversed(x)))
        if o.kind == 'list': raise ToolLimit('bytes of a list')
        if o.kind == 'heapx' and o.id in s.slots:
            l = s.cellof(st, o, off)
            if l[0][1] % 4 + size > 4: raise ToolLimit('access across cells')
            r = None
            for c, y in reversed(l):
                v = s.e.load_cell(st, s.e.objs[s.slots[o.id]], y, size, ty)
                r = v if r is None else ite(c, v, r, 8 * size)
            return r
        return super().special_load(st, o, off, size, ty)
    def byte(s, st, o, i):
        c = st.mem[o].get(i); n = st.mem[o][SZ][1]
        if c is None: c = st.w(o)[i] = (1, fresh_bv('char', 8))
        v = c[1]
        if n is s.n and i < s.lo: return v
        inside = nbool(z3.ULT(bv(i), to_bv(n, 64)))
        return ite(inside, v, 0, 8)
    def special_store(s, st, o, off, size, v, ty):
        if o.kind == 'bytes':
            i = s.uniq(st, off); n = st.mem[o.id][SZ][1]
            s.O(st, 'no character outside the string is written', nbool(z3.ULT(bv(i) + size - 1, to_bv(n, 64))), 'C15')
            s.touched(st, o.id)
            if size != 1: raise ToolLimit('wide store to a string')
            st.w(o.id)[i] = (1, v); return
        if o.kind == 'list': raise ToolLimit('bytes of a list')
        if o.kind == 'heapx' and o.id in s.slots:
            l = s.cellof(st, o, off)
            if l[0][1] % 4 + size > 4: raise ToolLimit('access across cells')
            so = s.e.objs[s.slots[o.id]]
            for c, y in l: s.e.store_cell(st, so, y, size, v if len(l) == 1 else ite(c, v, s.e.load_cell(st, so, y, size, INT(8 * size)), 8 * size))
            return
        super().special_store(st, o, off, size, v, ty)
    # ------------------------------------------------------------ the shared tensor
    def h_shared(s, e, st, a, n, d, r):
        m = re.match(r'EigenIPC::(Server|Client)<int, (\d)>::(~?\w+)', d); cls, op = m.group(1), m.group(3)
        p = a[0]
        if op == cls:
            if d.count('(') and re.search(r'::(Server|Client)\(EigenIPC::', d): raise ToolLimit('copy of the shared tensor')
            s.sh = (p.o, p.off); st.g['run'] = False; s.layout = int(m.group(2))
            if cls == 'Server': s.shape = (a[1], a[2])
            return None
        if not isinstance(p, Ptr) or (p.o, p.off) != s.sh: raise ToolLimit('shared tensor object')
        if op[0] == '~': st.g['run'] = False; return None
        if op in ('run', 'attach'):
            t = s.throw(st.clone(), '_ZTISt13runtime_error'); st.g['run'] = True
            return Outcome(st, None, t)
        if op in ('close', 'detach', 'stop'): st.g['run'] = False; return None
        if op in ('isRunning', 'isAttached'): return st.g['run']
        if op == 'getNCols': return s.L
        if op == 'getNRows': return ROWS
        if op in ('read', 'write'): return s.transfer(e, st, a, d, op)
        raise ToolLimit('shared tensor operation without contract: ' + d)
    def transfer(s, e, st, a, d, op):
        fn = 'drv_probe_ref' if 'Eigen::Ref<' in d else 'drv_probe_map' if 'Eigen::Map<' in d else None
        if fn is None: raise ToolLimit('transfer')
        o = e.new_obj('probe', 40, 'ext'); t = st.clone(); t.mem[o.id] = {}; t.own.add(o.id)
        mu, s.mute = s.mute, True
        try: x = e.call(t, fn, [a[1], Ptr(o.id, 0), Ptr(o.id, 8)])
        finally: s.mute = mu
        b, R, C, RS, CS = [x.ret.mem[o.id][8 * i][1] for i in range(5)]
        R, C, RS, CS = bv64(R), bv64(C), bv64(RS), bv64(CS)
        row, col = bv64(sx(a[2])), bv64(sx(a[3]))
        fits = nbool(z3.And(row >= 0, col >= 0, row + R <= ROWS, col + C <= bv64(s.L64)))
        avail = z3.Bool('granted')
        if s.avail is None: s.avail = avail
        res = b_and(fits, st.g['run'], avail)
        n = s.k if s.mode == 'list' else bv(1); c0 = bv64(sx(s.col))
        P = lambda l, c, q=None: s.O(st, l, zimp(res, c), q)
        for q in ('C14', 'C15'):
            P('the operation is done by one transfer', b_not(st.g['tr']), q)
            P('the transfer is a %s' % s.op, op == s.op, q)
            P('the slots requested are transferred, and no others', nbool(z3.And(row == 0, col == c0, R == ROWS, C == n)), q)
            inb = isinstance(b, Ptr) and b.o in s.slots
            if s.mode == 'list': P('the block transferred is the part of the buffer that belongs to the slots', b_or(nbool(n == 0), b_and(inb, eqp(b.off, 4 * bv64(sx(s.col))) if inb else False, eqp(RS, s.L64), b_or(eqp(CS, 1), nbool(n == 1)))), q)
            else: P('the block transferred is the part of the buffer that belongs to the slot', b_and(inb, eqp(b.off, 4 * bv64(sx(s.col))) if inb else False, eqp(RS, s.L64)), q)
        st.g['tr'] = True
        st.g['res'] = res
        if op == 'write':
            P('a write that does not fit is refused', b_not(s.refuse), 'C15')
            s.checkslots(st, res)
            return res
        P('a read that does not fit is refused', b_not(s.refuse), 'C15')
        st.g['fresh'] = res
        # single slots: the cells already hold what a successful read puts there: they may be looked at only after one
        return res
    avail = None
    def cellbits(s, st, so, r): return to_bv(s.e.load_cell(st, s.e.objs[so], 4 * r, 4, INT(32)), 32)
    def checkslots(s, st, res):
        if s.prop != 'C14': return
        if s.mode == 'list':
            s.O(st, 'every string of the list has been put into its slot', zimp(b_and(res, nbool(z3.ULT(s.q, s.k))), st.g['enc'])); return
        t = st.clone(); t.assume(zb(res))
        if not s.e.feasible(t.pc): return
        so = list(s.slots.values())[0]
        if s.comp is not None:
            if s.comp: raise ToolLimit('several transfers')
            s.comp += [norm(s.cellbits(t, so, r)) for r in range(ROWS)]; return
        for r in range(ROWS):
            s.O(t, 'every cell of the slot holds the bytes of the string, and 0 behind its end', nbool(s.cellbits(t, so, r) == s.slotval[r]))
            s.canonical()
    comp = None
    def canonical(s):
        if s.comp is None and not s.mute and s.e.obl and not s.e.obl[-1]['ok']: raise NotCanonical()
    # ------------------------------------------------------------ lists
    def h_enc(s, e, st, a, n, d, r):
        if s.mode != 'list': return NotImplemented
        if r is not None and r.k != 'void': raise ToolLimit('encoder returns a value')
        return s.encdec(st, a, 'enc')
    def h_dec(s, e, st, a, n, d, r):
        if s.mode != 'list': return NotImplemented
        if r is not None and r.k != 'void': raise ToolLimit('decoder returns a value')
        return s.encdec(st, a, 'dec')
    def encdec(s, st, a, k):
        if not (isinstance(a[0], Ptr) and a[0].o == s.obj.id and a[0].off == 0): raise ToolLimit('other object')
        if not (isinstance(a[1], Ptr) and s.e.objs[a[1].o].kind == 'list'): raise ToolLimit('a string that is not in the list')
        i = s.index(st, a[1]); col = bv64(sx(a[2])); c0 = bv64(sx(s.col))
        s.O(st, 'only existing slots are accessed', nbool(z3.And(col >= 0, col < bv64(s.L64))), 'C15')
        s.O(st, 'the k-th string of the list belongs to slot index + k', nbool(col == c0 + i), 'C14')
        if k == 'enc':
            s.ssize(st, a[1])
            s.O(st, 'only strings that fit a slot are put into one', zimp(nbool(i == s.q), nbool(z3.ULE(LEN(i), MAXC))), 'C15')
            st.g['enc'] = ite(nbool(col == c0 + s.q), nbool(i == s.q), st.g['enc'], 1)
        else:
            for q in ('C14', 'C15'): s.O(st, 'strings are taken from slots that have been read', st.g['fresh'], q)
            st.g['changed'] = True
            st.g['dec'] = ite(nbool(i == s.q), nbool(col == c0 + s.q), st.g['dec'], 1)
        return None
    def inductive(s, e, a, b): return s.mode == 'list' and len(b.pc) != len(a.pc)
    def ind_candidates(s, e, x):
        q, k = s.q, s.k
        c = [('iterations <= length of the list', lambda i, st: z3.ULE(i, k)),
             ('strings passed fit', lambda i, st: z3.Implies(z3.UGT(i, q), z3.ULE(LEN(q), MAXC)))]
        for g in ('enc', 'dec'):
            if ('g', g) in x['hv']: c.append(('string %s' % g, lambda i, st, g=g: z3.Implies(z3.UGT(i, q), zb(to_bool(st.g[g])))))
        return c
    def ind_begin(s, e, st, x): st.g['abs'] = True

def first2(s, key):
    """copy construction and assignment of strings whose bytes are known individually"""
    old = s.exact.get(key)
    def h(e, st, a, n, d, r):
        if s.mine(st, a[1]):
            v = s.sobj(st, a[1]); m = dict(st.mem[v.o]); size = m.pop(SZ)[1]
            c = s.cell(st, a[0])
            if isinstance(c, Ptr) and 'operator=' in key: s.touched(st, c.o); st.mem[c.o] = dict(st.mem[v.o]); st.own.add(c.o)
            else: st.w(a[0].o)[a[0].off] = (32, s.newstr(st, size, m))
            return a[0] if 'operator=' in key else None
        c = s.cell(st, a[0])
        if 'operator=' in key and isinstance(c, Ptr):
            v = s.sobj(st, a[1]); s.touched(st, c.o); st.mem[c.o] = dict(st.mem[v.o]); st.own.add(c.o)
            return a[0]
        return old(e, st, a, n, d, r) if old else NotImplemented
    s.on(key, h)

# ------------------------------------------------------------------------------------------------ tasks
def mk(e, st, name, n, kind='ext'):
    o = e.new_obj(name, n, kind); st.mem[o.id] = {}; st.own.add(o.id)
    return o
def reset(w, st):
    for k in ('tr', 'res', 'fresh', 'changed', 'abs', 'enc', 'dec'): st.g[k] = False
    st.g.pop(THREW, None); st.g.pop('excobj', None)

def setup(mod, w, e, K, again):
    w.L = z3.BitVec('L', 32); w.L64 = z3.SignExt(32, w.L); w.col = z3.BitVec('col', 32); w.k = z3.BitVec('k', 64); w.q = z3.BitVec('q', 64)
    w.axioms += [w.L >= 0, z3.ULE(w.k, bv(1 << 26))]
    w.ctx = 'construction'
    st = State(); w.obj = obj = mk(e, st, 'tensor', e.call(State(), 'drv_st_sizeof_' + K, []).val); P = Ptr(obj.id, 0)
    s1, s2 = mk(e, st, 'basename', 32), mk(e, st, 'namespace', 32)
    st.w(s1.id)[0] = (32, Str((BASE,))); st.w(s2.id)[0] = (32, Str((NSP,)))
    reset(w, st); w.op = 'make'; w.mode = 'setup'
    v, f, sf, l = z3.Bool('verbose'), z3.Bool('force'), z3.Bool('safe'), z3.BitVec('vlevel', 32)
    x = e.call(st, 'drv_st_make_' + K, ([P, w.L, Ptr(s1.id, 0), Ptr(s2.id, 0), v, l, f, sf] if K == 'S' else [P, Ptr(s1.id, 0), Ptr(s2.id, 0), v, l, sf]))
    new = x.ret
    if K == 'S': w.O(new, 'the shared tensor has one column of 256 integers per slot', b_and(eqp(sx(w.shape[0]), ROWS), eqp(sx(w.shape[1]), w.L64)))
    def go(st, fn):
        st = st.clone(); reset(w, st)
        return e.call(st, 'drv_st_%s_%s' % (fn, K), [P])
    for q in (new,): nonempty(w, q)
    r = go(new, 'run'); run = r.ret; nonempty(w, run); c = go(run, 'close').ret
    states = dict(new=new, closed=c)
    if r.thr is not None and live(e, r.thr): states['failed run'] = r.thr
    if again:
        # a client may be attached again to a tensor with another number of slots
        L2 = z3.BitVec('L2', 32); old = w.L, w.L64
        w.axioms.append(L2 >= 0)
        if K == 'C': w.L, w.L64 = L2, z3.SignExt(32, L2)
        r2 = go(c, 'run'); run2 = r2.ret; nonempty(w, run2)
        w.L, w.L64 = old
        then = lambda v: z3.substitute(v, (old[0], L2)) if K == 'C' and is_sym(v) else v
        if r2.thr is not None and live(e, r2.thr): states['failed second run'] = r2.thr
        # running again after closing leads to the same state
        for k in set(run.mem[obj.id]) | set(run2.mem[obj.id]):
            a, b = run.mem[obj.id].get(k), run2.mem[obj.id].get(k)
            a, b = a and a[1], b and b[1]
            a = then(a)
            if isinstance(a, Ptr) and e.objs[a.o].kind == 'heapx':
                x = then(e.objs[a.o].x)
                for g, y in b.alts if isinstance(b, GV) else [(True, b)]:
                    if not isinstance(y, Ptr) or e.objs[y.o].kind != 'heapx' or y.off != 0: raise ToolLimit('buffer when a tensor runs again')
                    y = e.objs[y.o].x
                    if not (eqp(x, y) is True or e.valid(run2, b_or(b_not(g), nbool(to_bv(x, 64) == to_bv(y, 64))))): raise ToolLimit('the buffer has another size when a tensor runs again')
                continue
            if same(a, b) or e.semeq(run2, a, b, 32): continue
            raise ToolLimit('a tensor that runs again differs from one that runs for the first time')
    states['running'] = run
    bufs = [v[1] for v in run.mem[obj.id].values() if isinstance(v[1], Ptr) and e.objs[v[1].o].kind == 'heapx']
    if len(bufs) != 1 or bufs[0].off != 0: raise ToolLimit('buffer: %s' % {k: v for k, v in run.mem[obj.id].items() if isinstance(v[1], (Ptr, GV))})
    so = mk(e, run, 'slot', 4 * ROWS)
    for r in range(ROWS): run.mem[so.id][4 * r] = (4, fresh_bv('old', 32))
    w.slots = {bufs[0].o: so.id}
    for r in ('new', 'closed', 'failed run', 'failed second run'):
        if r in states: states[r].mem[so.id] = dict(run.mem[so.id]); states[r].own.add(so.id)
    for q in states.values(): q.pc = ()            # the facts about memory allocation are not needed (fewer assumptions)
    # accessors
    w.ctx = 'isRunning'
    for nm, q in states.items():
        y = e.call(q.clone(), 'drv_st_running_' + K, [P])
        w.O(q, 'isRunning() tells whether the tensor runs', nbool(zb(to_bool(y.val)) == (nm == 'running')), 'C15')
    # cells of the object that operations change
    w.H = set()
    return P, states

def nonempty(w, st):
    """a tensor without slots has no buffer: a null pointer that is never followed (every slot request on it is refused)"""
    for k, (n, v) in list(st.mem[w.obj.id].items()):
        if isinstance(v, GV):
            alts = [(c, p) for c, p in v.alts if not (isinstance(p, Ptr) and p.o == 0)]
            if len(alts) == 1 and len(v.alts) == 2 and w.e.objs[alts[0][1].o].kind == 'heapx' and w.e.valid(st, b_or(alts[0][0], nbool(w.L == 0))): st.w(w.obj.id)[k] = (n, alts[0][1])

def prep(w, st, nm):
    st = st.clone(); reset(w, st); st.g['abs'] = False
    if nm == 'running':
        for k in w.H:
            if k in st.mem[w.obj.id]: st.w(w.obj.id)[k] = (st.mem[w.obj.id][k][0], fresh_bv('scratch', 8 * st.mem[w.obj.id][k][0]))
    return st

def changed(w, a, b):
    x, y = a.mem[w.obj.id], b.mem[w.obj.id]; out = set()
    for k in set(x) | set(y):
        if k not in x or k not in y or not (same(x[k][1], y[k][1]) or w.e.semeq(b, x[k][1], y[k][1], 8 * x[k][0])): out.add(k)
    return out

def pair(w, e, P, states, lo, hi):
    """write and read of strings of lo..hi bytes, each against the layout 'four bytes in a cell, 0 behind the end'; sources that use another
    layout: what a read makes of the cells a write has left (same class; the bounded execution covers server to client and back)"""
    n = len(e.obl)
    try:
        one(w, e, P, states, 'write', lo, hi); one(w, e, P, states, 'read', lo, hi)
    except NotCanonical:
        del e.obl[n:]; w.comp = []; w.dec_ = {}; w.tab = {}; w.inc = {}
        run = {'running': states['running']}
        one(w, e, P, run, 'write', lo, hi)
        if len(w.comp) != ROWS: raise ToolLimit('no transfer')
        one(w, e, P, run, 'read', lo, hi)
        raise ToolLimit('strings are laid out differently: only what is written and read by the same class is proved')

def one(w, e, P, states, op, lo, hi):
    """write(string, index) / read(string, index) for strings of lo..hi bytes"""
    w.mode = 'one'; w.op = op; w.lo, w.hi = lo, hi; w.n = z3.BitVec('n', 64); K = w.K
    inp = hi <= MAXC
    B = [z3.BitVec('b%d' % i, 8) for i in range(min(hi, MAXC))]
    for b in B: w.axv[b.decl().name()] = b != 0
    tb = lambda i: 0 if i >= len(B) else B[i] if i < lo else z3.If(z3.UGT(w.n, i), B[i], z3.BitVecVal(0, 8))
    w.slotval = [norm(z3.Concat(*[to_bv(tb(4 * r + j), 8) for j in (3, 2, 1, 0)])) for r in range(ROWS)]
    for nm, base in states.items():
        w.ctx = '%s(string of %s bytes), %s%s' % (op, '%d' % lo if lo == hi else '%d..%d' % (lo, hi) if inp else 'more than 1024', 'server' if K == 'S' else 'client', '' if nm == 'running' else ', ' + nm)
        if nm != 'running' and lo: continue
        st = prep(w, base, nm); st.assume(z3.UGE(w.n, lo)); st.assume(z3.ULE(w.n, hi))
        so = mk(e, st, 'string', 32)
        w.refuse = b_or(nm != 'running', nbool(z3.Or(w.col < 0, w.col >= w.L)), op == 'write' and not inp)
        w.avail = None; w.memo = {}
        if w.comp and op == 'read': w.slotval = w.comp
        if op == 'write': v = w.newstr(st, w.n, {i: (1, B[i]) for i in range(len(B))}); w.user = None
        else:
            for r in range(ROWS): st.w(list(w.slots.values())[0])[4 * r] = (4, w.slotval[r])
            n0 = z3.BitVec('n0', 64); st.assume(z3.ULE(n0, 1 << 60)); v = w.newstr(st, n0); w.user = v
        st.w(so.id)[0] = (32, v); before = st.clone()
        x = e.call(st, 'drv_st_%s1_%s' % (op, K), [P, Ptr(so.id, 0), w.col])
        for q in ('C14', 'C15'): w.O(State(), 'the operation returns', x.ret is not None and live(e, x.ret) and not live(e, x.thr), q)
        if x.ret is None: continue
        z = x.ret; ret = to_bool(x.val)
        w.O(z, 'a request that does not fit returns false', b_or(b_not(w.refuse), b_not(ret)), 'C15')
        w.O(z, 'a request that fits is carried out, and its result reported', b_or(w.refuse, b_and(z.g['tr'], nbool(zb(ret) == zb(z.g['res'])))), 'C14')
        if op == 'read':
            w.O(z, 'a refused read leaves the string as it was', b_or(ret, b_not(z.g['changed'])), 'C15')
            if w.prop == 'C14':
                t = z.clone(); t.assume(zb(ret))
                if not live(e, t): continue
                o = w.sobj(t, Ptr(so.id, 0)).o; m = t.mem[o][SZ][1]
                w.O(t, 'the string read has the length of the string written', nbool(to_bv(m, 64) == w.n)); w.canonical()
                t.assume(nbool(to_bv(m, 64) == w.n)); known = {}
                def strip(v):
                    while is_sym(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
                        c, a, b = v.children(); i = c.get_id()
                        if i not in known: known[i] = (c, True if e.valid(t, c) else False if e.valid(t, z3.Not(c)) else None)
                        if known[i][1] is None: break
                        v = a if known[i][1] else b
                    return v
                for r in range((hi + 3) // 4):
                    c = [b_or(nbool(z3.ULE(w.n, 4 * r + j)), nbool(to_bv(strip(t.mem[o].get(4 * r + j, (1, 0))[1]), 8) == B[4 * r + j])) for j in range(4) if 4 * r + j < hi]
                    w.O(t, 'the bytes of the string read are those of the string written', b_and(*c)); w.canonical()
        elif w.user is None and w.prop == 'C15': pass
        w.H2 |= changed(w, before, z)

def listop(w, e, P, states, op):
    """write(list, index) / read(list, index) for lists of any length; one slot is encoded and decoded by the contract that the tasks for
    single strings prove of the functions found by their signatures"""
    w.mode = 'list'; w.op = op; K = w.K; w.n = None; w.user = None
    T = 'EigenIPC::StringTensor<EigenIPC::%s<int, %d>>::' % ('Server' if K == 'S' else 'Client', w.layout)
    found = []
    for key, h in (('(string const&, int)', w.h_enc), ('(string&, int)', w.h_dec)):
        c = [d for d in e.m.find(lambda d: short(d).replace('> >', '>>').startswith(T) and short(d).endswith(key) and not re.search(r'::(write|read)\(', short(d)))]
        if len(c) == 1: w.on(c[0], h); e.hc.clear(); found.append(c[0])
    for nm, base in states.items():
        w.ctx = '%s(list), %s%s' % (op, 'server' if K == 'S' else 'client', '' if nm == 'running' else ', ' + nm)
        st = prep(w, base, nm)
        w.list = e.new_obj('list', None, 'list', None); vo = mk(e, st, 'vector', 24)
        end = Ptr(w.list.id, w.k * 32)
        st.w(vo.id).update({0: (8, Ptr(w.list.id, 0)), 8: (8, end), 16: (8, end)})
        w.lens = [(w.q, LEN(w.q))]; w.axioms.append(z3.ULT(LEN(w.q), bv(1 << 60)))
        big = nbool(z3.And(z3.ULT(w.q, w.k), z3.UGT(LEN(w.q), MAXC)))
        c64 = bv64(sx(w.col))
        w.refuse = b_or(nm != 'running', nbool(z3.Or(w.col < 0, c64 + w.k > w.L64)), big if op == 'write' else False)
        w.avail = None; before = st.clone()
        x = e.call(st, 'drv_st_%sv_%s' % (op, K), [P, Ptr(vo.id, 0), w.col])
        for q in ('C14', 'C15'): w.O(State(), 'the operation returns', x.ret is not None and live(e, x.ret) and not live(e, x.thr), q)
        if x.ret is None: continue
        z = x.ret; ret = to_bool(x.val)
        fit = nbool(z3.And(*[z3.Implies(z3.ULT(i, w.k), z3.ULE(v, MAXC)) for i, v in w.lens])) if op == 'write' else True
        bad = b_or(w.refuse, b_not(fit))
        w.O(z, 'a request that does not fit returns false', b_or(b_not(w.refuse), b_not(ret)), 'C15')
        w.O(z, 'a request that fits is carried out, and its result reported', b_or(bad, b_and(z.g['tr'], nbool(zb(ret) == zb(z.g['res'])))), 'C14')
        if op == 'read':
            w.O(z, 'a refused read leaves the strings as they were', b_or(ret, b_not(z.g['changed'])), 'C15')
            w.O(z, 'every string of the list has been taken from its slot', zimp(b_and(ret, nbool(z3.ULT(w.q, w.k))), z.g['dec']), 'C14')
            w.O(z, 'the list keeps its length', same(z.mem[vo.id][8][1], end) or e.semeq(z, z.mem[vo.id][8][1].off, end.off, 64), 'C15') if isinstance(z.mem[vo.id][8][1], Ptr) else None
        w.H2 |= changed(w, before, z)

def task(mod, prop, K, what, dl):
    limits = []; info = {}; w = StrWorld(prop, K); e = Engine(mod, w); e.deadline = dl
    try:
        P, states = setup(mod, w, e, K, what[0] == 'list' or what[1] == 0)
        # which members operations change (they keep temporaries there)
        w.mute = True; w.H2 = set()
        run1 = {'running': states['running']}
        one(w, e, P, run1, 'write', 0, 5); one(w, e, P, run1, 'read', 0, 5)
        w.H = set(w.H2); w.mute = False; w.dec_ = {}; w.tab = {}; w.inc = {}
        if any(not isinstance(states['running'].mem[w.obj.id].get(k, (0, 0))[1], (int, bool)) and not is_sym(states['running'].mem[w.obj.id][k][1]) or k not in states['running'].mem[w.obj.id] for k in w.H): raise ToolLimit('operations change the structure of the tensor')
        if what[0] == 'pair': pair(w, e, P, states, *what[1:])
        elif what[0] == 'list': listop(w, e, P, states, what[1])
        else: one(w, e, P, states, *what)
        if not w.H2 <= w.H: raise ToolLimit('operations change the tensor: %s' % sorted(w.H2 - w.H))
        if w.prop == 'C15' : w.O(State(), 'operations change only temporaries of the tensor', True)
        info['members changed by operations'] = sorted(w.H)
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx if w else '', ex))
    return result(e, limits, **info)

STEP = 32
def ranges():
    return [(lo, min(lo + STEP - 1, MAXC)) for lo in range(0, MAXC, STEP)] + [(MAXC, MAXC)]
def tasks(prop, d, tier, budget):
    mod = Module(runner.build_ir(d, 'drv_str', passes='mem2reg,loop-simplify,lcssa')); dl = time.time() + budget
    T = []
    for K, nm in (('S', 'server'), ('C', 'client')):
        for lo, hi in reversed(ranges()): T.append(('write and read, strings of %d..%d bytes, %s' % (lo, hi, nm), lambda K=K, lo=lo, hi=hi: task(mod, prop, K, ('pair', lo, hi), dl)))
        T.append(('write, longer strings, %s' % nm, lambda K=K: task(mod, prop, K, ('write', MAXC + 1, 1 << 60), dl)))
        for op in ('write', 'read'): T.append(('%s, lists, %s' % (op, nm), lambda K=K, op=op: task(mod, prop, K, ('list', op), dl)))
    return T

def native_exe(d, prop): return runner.build_native(d, 'native_str.cpp', 'native_str', ['-fsanitize=address', '-fno-sanitize-recover=all'])

TRUSTED = [
    'clang 18 front end and mem2reg/loop-simplify/lcssa (the verified text is the LLVM IR of the unmodified StringTensor.cpp and its headers, re-generated on every run, -DNDEBUG)',
    'the verification-condition generator eipcv/symex.py and z3',
    'assumed contract of the shared tensor (Server<int>, Client<int>): a transfer succeeds only while running/attached and if the block lies inside the 256 x length tensor, then moves exactly the block, and otherwise changes nothing (what C01-C09 prove)',
    'assumed contracts: std::string (size, [], clear, push_back, ...), std::vector, malloc; a slot that is read holds the encoding of a NUL-free string (an unwritten slot holds zeros, the encoding of the empty string)',
    'lists: lengths up to 2^26; putting one string into its slot and taking it out again is used by contract, which the tasks for single strings prove of the same function bodies',
]
