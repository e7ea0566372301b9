"""C19 (return codes), C20 (sub-views), and the body of Journal::log, which the other families use as a contract."""
import os, re, subprocess, time, z3
import symex, runner
from symex import *
from llir import Module, Unsupported, INT, PTR
from world import World, bv64, short, THREW, STR
from poly import poly_eq

INST = {'dR': ('double', 8, 1), 'dC': ('double', 8, 0), 'fR': ('float', 4, 1), 'fC': ('float', 4, 0), 'iR': ('int', 4, 1), 'iC': ('int', 4, 0), 'bR': ('bool', 1, 1), 'bC': ('bool', 1, 0)}

def eqp(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) % (1 << 64) == 0
    if poly_eq(a, b): return True
    return nbool(bv64(a) == bv64(b))
def sx(v): return (v if v < 1 << 31 else v - (1 << 32)) % (1 << 64) if isinstance(v, int) else z3.SignExt(32, v)

def result(e, limits=(), **info):
    obl = [dict(prop=o['prop'], label=o['label'], ctx=o['ctx'], ok=o['ok'], status=o['status'], how=o['how'], t=round(o['t'], 4), at=o['at'] if not o['ok'] else '', model=o['model']) for o in e.obl]
    lim = [(str(a), str(b)) for a, b in limits]
    if not lim and not obl: lim.append(('', 'vacuous: no obligation was generated'))
    return dict(obl=obl, limits=lim, funcs=e.executed, contracts=e.contracts_used, bounded=sorted(e.bounded), nchecks=e.nchecks, tsolve=e.tsolve, ninstr=e.ninstr, loops=len(e.loopinv), info=info)

class W(World):
    """no environment: caller data may only be addressed, never read or written"""
    def __init__(s, prop):
        super().__init__([prop]); s.prop = prop
    def gets(s, st, p):
        if isinstance(p, Ptr) and s.e.objs[p.o].kind == 'global':
            c = s.e.cells(st, s.e.objs[p.o]).get(p.off)
            if c is None or not isinstance(c[1], (Str, GV)): return Str((('global', s.e.objs[p.o].name),))      # an arbitrary constant
        return super().gets(st, p)
    def special_load(s, st, o, off, size, ty):
        if o.kind == 'user': s.e.oblige(st, s.prop, 'no element of the tensor is accessed', False); return s.e.havoc_ty(ty, size)
        return s.e.havoc_ty(ty, size)
    def special_store(s, st, o, off, size, v, ty):
        if o.kind == 'user': s.e.oblige(st, s.prop, 'no element of the tensor is accessed', False)

def live(e, st): return st is not None and not st.dead() and e.feasible(st.pc)

# ------------------------------------------------------------------------------------------------ C20
def view_task(mod, T, deadline):
    cpp, sz, rm = INST[T]
    w = W('C20'); e = Engine(mod, w); e.deadline = deadline; w.ctx = 'createViewFrom<%s>' % T
    rows, cols = z3.BitVec('rows', 64), z3.BitVec('cols', 64)
    row, col, r, c = [z3.BitVec(n, 32) for n in ('row', 'col', 'r', 'c')]
    w.axioms += [rows >= 0, cols >= 0, rows < (1 << 31), cols < (1 << 31)]
    st = State()
    user = e.new_obj('user', None, 'user'); base = Ptr(user.id, 0)
    t = e.new_obj('tensor', 24, 'ext'); st.w(t.id).update({0: (8, base), 8: (8, rows), 16: (8, cols)})
    def probe(st, fn, p):
        o = e.new_obj('probe', 48, 'ext'); st.mem[o.id] = {}; st.own.add(o.id)
        x = e.call(st, fn, [p, Ptr(o.id, 0), Ptr(o.id, 8)])
        if x.thr is not None or x.ret is None: raise ToolLimit('accessor threw')
        m = x.ret.mem[o.id]
        return x.ret, m[0][1], [m[8 + 8 * i][1] for i in range(5)]
    limits = []
    try:
        w.mute = True
        st, b, v = probe(st, 'drv_tensor_probe_' + T, Ptr(t.id, 0))
        w.mute = False
        if not (b == base and v[0] is rows or True) or not (isinstance(b, Ptr) and b == base) or not all(eqp(x, y) is True for x, y in ((v[0], rows), (v[1], cols))): raise ToolLimit('Eigen tensor layout not as expected')
        rs, cs = v[2], v[3]
        n = e.call(st.clone(), 'drv_view_sizeof_' + T, []).val
        at = e.new_obj('view', n, 'ext'); st.mem[at.id] = {}; st.own.add(at.id)
        R, C, R2, C2 = sx(row), sx(col), sx(r), sx(c)
        inside = nbool(z3.And(row >= 0, col >= 0, r >= 0, c >= 0, R < rows, C < cols, R + R2 <= rows, C + C2 <= cols))
        x = e.call(st, 'drv_view_make_' + T, [Ptr(at.id, 0), Ptr(t.id, 0), row, col, r, c])
        if x.thr is not None and not x.thr.dead():
            e.oblige(x.thr, 'C20', 'a view that lies inside the tensor is created, not refused', b_not(inside))
        if x.ret is not None and not x.ret.dead():
            s2 = x.ret
            e.oblige(s2, 'C20', 'a view that does not lie inside the tensor is refused with an exception', inside)
            s2.assume(inside)
            s2, b, v = probe(s2, 'drv_view_probe_' + T, Ptr(at.id, 0))
            ok = False
            want = bv64(sz) * (bv64(R) * bv64(rs) + bv64(C) * bv64(cs))
            for cc, p in alts_of(b):
                if isinstance(p, Ptr) and p.o == user.id: ok = b_or(ok, b_and(cc, eqp(p.off, want)))
            e.oblige(s2, 'C20', 'view element (0, 0) is tensor element (row, col)', ok)
            e.oblige(s2, 'C20', 'the view has the requested number of rows', eqp(v[0], R2))
            e.oblige(s2, 'C20', 'the view has the requested number of columns', eqp(v[1], C2))
            e.oblige(s2, 'C20', 'one row further in the view is one row further in the tensor', b_or(eqp(v[2], rs), nbool(r <= 1)))
            e.oblige(s2, 'C20', 'one column further in the view is one column further in the tensor', b_or(eqp(v[3], cs), nbool(c <= 1)))
        e.oblige(State(), 'C20', 'both outcomes occur', live(e, x.ret) and live(e, x.thr))
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx, ex))
    return result(e, limits)

# ------------------------------------------------------------------------------------------------ Journal::log
def journal_task(mod, prop, deadline):
    """throws std::runtime_error exactly for LogType::EXCEP with throw_when_excep, returns otherwise"""
    w = W(prop); e = Engine(mod, w); e.deadline = deadline; limits = []
    try:
        for fn in ('drv_log', 'drv_slog'):
            w.ctx = fn
            st = State(); o = [e.new_obj('str%d' % i, 32, 'ext') for i in range(3)]
            for i, x in enumerate(o): st.w(x.id)[0] = (32, Str((('a', 'text%d' % i),)))
            ty = z3.BitVec('type', 32); thr = z3.Bool('throw')
            st.assume(z3.ULE(ty, 3))
            if fn == 'drv_log':
                n = e.call(st.clone(), 'drv_journal_sizeof', []).val
                j = e.new_obj('journal', n, 'ext'); st.mem[j.id] = {}; st.own.add(j.id)
                st = e.call(st, 'drv_journal', [Ptr(j.id, 0), Ptr(o[0].id, 0)]).ret
                args = [Ptr(j.id, 0), Ptr(o[1].id, 0), Ptr(o[2].id, 0), ty, thr]
            else: args = [Ptr(x.id, 0) for x in o] + [ty, thr]
            before = {k: v for k, v in st.mem.items()}
            x = e.call(st, fn, args)
            must = nbool(z3.And(ty == 1, thr))
            if x.ret is not None: e.oblige(x.ret, prop, 'log(EXCEP, throw) throws', b_not(must))
            if x.thr is not None:
                e.oblige(x.thr, prop, 'log throws only for (EXCEP, throw)', must)
                e.oblige(x.thr, prop, 'what is thrown is std::runtime_error', x.thr.g.get(THREW) == '_ZTISt13runtime_error')
            for r in (x.ret, x.thr):
                if r is None: continue
                ok = all(k in r.mem and (r.mem[k] is v or all(c in v and same(v[c][1], cv[1]) for c, cv in r.mem[k].items())) for k, v in before.items())
                e.oblige(r, prop, 'log changes nothing of its caller', ok)
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx, ex))
    return result(e, limits)

# ------------------------------------------------------------------------------------------------ C19
def enumerators(d):
    """name -> value of every ReturnCode enumerator, from the debug information of the current header"""
    src = os.path.join(d, 'rc.cpp'); out = os.path.join(d, 'rc.ll')
    open(src, 'w').write('#include <string>\n#include <EigenIPC/ReturnCodes.hpp>\nEigenIPC::ReturnCode v; int f(EigenIPC::ReturnCode x) { return x == EigenIPC::ReturnCode::NONE; }\n')
    r = subprocess.run(['clang++-18', '-std=gnu++17', '-g', '-w'] + runner.INC + ['-S', '-emit-llvm', src, '-o', out], capture_output=True, text=True)
    if r.returncode: raise runner.BuildError(r.stderr[-2000:])
    t = open(out).read()
    m = re.search(r'DICompositeType\(tag: DW_TAG_enumeration_type, name: "ReturnCode".*?elements: !(\d+)', t)
    els = re.search(r'^!%s = !\{(.*)\}' % m.group(1), t, re.M).group(1)
    names = {}
    for k in re.findall(r'!(\d+)', els):
        x = re.search(r'^!%s = !DIEnumerator\(name: "(\w+)", value: (-?\d+)' % k, t, re.M)
        names[x.group(1)] = int(x.group(2)) % (1 << 64)
    os.unlink(out)
    return names

class RCWorld(W):
    def __init__(s):
        super().__init__('C19'); s.maps = {}
        s.rx(r'std::unordered_map<EigenIPC::ReturnCode, string.*::unordered_map\(', s.h_ctor)
        s.rx(r'std::unordered_map<EigenIPC::ReturnCode, string.*::~unordered_map\(', lambda e, st, a, n, d, r: None)
        s.rx(r'std::unordered_map<EigenIPC::ReturnCode, string.*::find\(', s.h_find)
        s.rx(r'std::unordered_map<EigenIPC::ReturnCode, string.*::c?end\(', lambda e, st, a, n, d, r: NULL)
        s.rx(r'std::unordered_map<EigenIPC::ReturnCode, string.*::count\(', lambda e, st, a, n, d, r: int(s.find(e, st, a[0], e.load(st, a[1], 8, INT(64))) is not None))
        s.rx(r'std::unordered_map<EigenIPC::ReturnCode, string.*::at\(', s.h_at)
        s.rx(r'std::__detail::_Node_(const_)?iterator<std::pair<EigenIPC::ReturnCode const, string.*::operator(->|\*)\(', lambda e, st, a, n, d, r: e.load(st, a[0], 8, PTR))
        s.rx(r'(bool )?std::__detail::operator==(<.*>)?\(std::__detail::_Node', lambda e, st, a, n, d, r: e.icmp('eq', PTR, e.load(st, a[0], 8, PTR), e.load(st, a[1], 8, PTR)))
        s.rx(r'(bool )?std::__detail::operator!=(<.*>)?\(std::__detail::_Node', lambda e, st, a, n, d, r: e.icmp('ne', PTR, e.load(st, a[0], 8, PTR), e.load(st, a[1], 8, PTR)))
    def h_ctor(s, e, st, a, n, d, r):
        if 'initializer_list' not in d: raise ToolLimit('unordered_map constructor without contract: ' + d[-120:])
        if not (isinstance(a[1], Ptr) and isinstance(a[2], int)): raise ToolLimit('initializer list')
        ents = []
        for i in range(a[2]):
            k = e.load(st, e.padd(a[1], 40 * i), 8, INT(64)); v = s.gets(st, e.padd(a[1], 40 * i + 8))
            if not isinstance(k, int): raise ToolLimit('symbolic map key')
            if any(k == x for x, _ in ents): continue           # the first of equal keys is kept
            o = e.new_obj('mapnode', 40, 'glob2'); st.w(o.id).update({0: (8, k), 8: (32, v)}); ents.append((k, o.id))
        s.maps[(a[0].o, a[0].off)] = ents
    def find(s, e, st, m, k):
        ents = s.maps.get((m.o, m.off))
        if ents is None: raise ToolLimit('map not initialised')
        if not isinstance(k, int): raise ToolLimit('map lookup with a symbolic key')
        return next((o for x, o in ents if x == k), None)
    def h_find(s, e, st, a, n, d, r):
        o = s.find(e, st, a[0], e.load(st, a[1], 8, INT(64)))
        return NULL if o is None else Ptr(o, 0)
    def h_at(s, e, st, a, n, d, r):
        o = s.find(e, st, a[0], e.load(st, a[1], 8, INT(64)))
        return Outcome(None, None, s.throw(st, '_ZTISt12out_of_range')) if o is None else Ptr(o, 8)

def flat(p, c, out):
    """[(condition, bytes)] of an abstract string"""
    for x in p:
        if isinstance(x, bytes): out.append((c, x))
        elif isinstance(x, IteS): flat(x.a.p, b_and(c, x.c), out); flat(x.b.p, b_and(c, b_not(x.c)), out)
        else: raise ToolLimit('description contains an unknown part: %s' % repr(x)[:120])
    return out

def rc_task(mod, names, deadline):
    w = RCWorld(); e = Engine(mod, w); e.deadline = deadline; limits = []
    O = lambda st, l, c: e.oblige(st, 'C19', l, c)
    z = State()
    w.ctx = 'enumerators'
    vals = {n: v for n, v in names.items() if n != 'NONE'}
    for n, v in vals.items(): O(z, '%s is a single bit' % n, v and v & (v - 1) == 0)
    for n, v in vals.items(): O(z, '%s shares its bit with no other condition' % n, sum(v == x for x in vals.values()) == 1)
    O(z, 'NONE is the empty set', names.get('NONE') == 0)
    O(z, 'there are conditions', len(vals) > 8 and 'RESET' in vals)
    RESET = names.get('RESET', 1)
    a, b = z3.BitVec('a', 64), z3.BitVec('b', 64)
    def run(fn, args):
        x = e.call(State(), fn, args)
        if x.thr is not None and live(e, x.thr): O(x.thr, fn + ' does not throw', False)
        return x
    try:
        w.ctx = 'operator+'
        x = run('drv_rc_add', [a, b])
        O(x.ret, 'adding gives the union', nbool(z3.Implies(z3.And(a != RESET, b != RESET), bv64(x.val) == a | b)))
        O(x.ret, 'adding the reset code empties the set', nbool(z3.Implies(b == RESET, bv64(x.val) == 0)))
        w.ctx = 'operator-'
        x = run('drv_rc_sub', [a, b])
        O(x.ret, 'removing gives the difference', nbool(z3.Implies(z3.And(a != RESET, b != RESET), bv64(x.val) == a & ~b)))
        w.ctx = 'isin'
        x = run('drv_rc_isin', [a, b])
        O(x.ret, 'membership is true exactly if all bits are in the set', nbool(zb(to_bool(x.val)) == (b & a == a)))
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx, ex))
    try:
        o = e.new_obj('out', 32, 'ext')
        for n, v in names.items():
            w.ctx = 'getDescription(%s)' % n
            st = State(); st.mem[o.id] = {}; st.own.add(o.id)
            x = e.call(st, 'drv_rc_name', [Ptr(o.id, 0), v])
            if x.thr is not None: O(x.thr, 'describing a condition does not throw', False)
            if x.ret is not None: O(x.ret, 'a condition is described by its own name', w.gets(x.ret, Ptr(o.id, 0)) == Str((n.encode(),)))
        w.ctx = 'getDescriptions'
        st = State(); st.mem[o.id] = {}; st.own.add(o.id)
        mask = 0
        for v in vals.values(): mask |= v
        st.assume(nbool(a & (M64 & ~mask) == 0))         # a set of named conditions
        x = e.call(st, 'drv_rc_names', [Ptr(o.id, 0), a])
        if x.thr is not None: O(x.thr, 'describing a set does not throw', False)
        st = x.ret
        got = flat(w.gets(st, Ptr(o.id, 0)).p, True, [])
        got = [(c, t) for c, t in got if c is not False and t and not e.valid(st, b_not(c))]
        exp = [(True, b'[')]; lower = False
        for v, n in sorted((v, n) for n, v in vals.items()):
            c = nbool(a & v != 0)
            exp += [(b_and(c, lower), b', '), (c, n.encode())]; lower = b_or(lower, c)
        exp.append((True, b']'))
        exp = [(c, t) for c, t in exp if c is not False]
        # a piece ", NAME" under one condition splits into its parts; a different structure is left to the bounded check
        def split(l):
            out = []
            for c, t in l:
                for y in re.findall(rb', |[^,]+|,', t):
                    for k in re.findall(rb'\[|\]|[^\[\]]+', y): out.append((c, k))
            return out
        got = split(got); exp = split(exp)
        i = 0; ok = len(got) == len(exp)
        if ok:
            for (c, t), (c2, t2) in zip(got, exp):
                if t != t2: ok = False; break
        if not ok and sorted(set(t for _, t in got)) != sorted(set(t for _, t in exp)):
            O(st, 'the description of a set is made of the names of the conditions', False)
        elif not ok: limits.append((w.ctx, 'description built in a different way: not decided by this argument'))
        else:
            for (c, t), (c2, t2) in zip(got, exp): O(st, 'exactly the contained conditions are named: "%s"' % t.decode(), nbool(zb(c) == zb(c2)))
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx, ex))
    return result(e, limits, enumerators=len(names))

# ------------------------------------------------------------------------------------------------
def tasks(prop, d, tier, budget):
    mod = Module(runner.build_ir(d, 'drv_misc')); dl = time.time() + budget
    T = []
    if prop == 'C20':
        for k in INST: T.append(('createViewFrom<%s>' % k, lambda k=k: view_task(mod, k, dl)))
        T.append(('Journal::log', lambda: journal_task(mod, 'C20', dl)))
    if prop == 'C19':
        names = enumerators(d)
        T.append(('ReturnCode', lambda: rc_task(mod, names, dl)))
    return T

def native_exe(d, prop):
    open(os.path.join(d, 'names.inc'), 'w').write(''.join('{"%s", %dULL},\n' % x for x in enumerators(d).items()))
    return runner.build_native(d, 'native_misc.cpp', 'native_misc', ['-I' + d])

TRUSTED = [
    'clang 18 front end and mem2reg/loop-simplify/lcssa (the verified text is the LLVM IR of the unmodified headers, re-generated on every run, -DNDEBUG)',
    'the verification-condition generator eipcv/symex.py and z3',
    'assumed contracts: std::string, std::unordered_map (construction from a list, find, end), printf, memory allocation (never fails)',
    'preconditions: tensor sizes 0..2^31-1; described sets consist of named conditions; operands of union and difference are not the reset code alone',
]
