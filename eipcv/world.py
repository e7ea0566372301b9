"""Assumed contracts of the environment: C++ runtime, std::string, POSIX shared memory and semaphores,
Eigen's assignment kernel.  Everything here is an assumption listed in the evidence; the properties
are decided by the obligations raised in the handlers and by the checks' postconditions."""
import re, z3
import symex
from symex import *
from llir import Unsupported, INT, PTR

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
U32 = 0xffffffff
THREW = 'exc'

def short(d):
    d = d.replace(STR, 'string')
    d = re.sub(r'\[abi:\w+\]', '', d)
    return d

def bv64(v): return to_bv(v, 64) if not isinstance(v, (int, bool)) else z3.BitVecVal(int(v) & M64, 64)

class World:
    semdiff = False
    special = {'region', 'user', 'heapx'}
    def __init__(s, props):
        s.props = set(props); s.axioms = []; s.ctx = ''
        s.prune_branches = False; s.cond_store = True
        s.envops = 0
        s.tids = {}
        s.mute = False          # obligations not recorded (getter probes)
        s.handlers = []         # (predicate on short name, handler)
        s.exact = {}
        s.assumptions = set()
        s.unlike = []
        s.install_runtime()
    def wants(s, p): return not s.mute and p in s.props
    # ---------------------------------------------------------------- dispatch
    def lookup(s, name, d):
        h = s.exact.get(name)
        if h: return h
        sd = short(d)
        h = s.exact.get(sd)
        if h: return h
        for pred, h in s.handlers:
            if pred(sd): return h
        return None
    def on(s, key, h):
        if isinstance(key, str): s.exact[key] = h
        else: s.handlers.append((key, h))
    def rx(s, r, h):
        c = re.compile(r)
        s.handlers.append((lambda d, c=c: c.match(d), h))
    # ---------------------------------------------------------------- engine hooks
    def env_mark(s): return s.envops
    def axioms_for(s, fs): return s.axioms
    def decide(s, c): return None       # True/False if the world knows that c always/never holds, or an equivalent condition that can go either way
    def inductive(s, e, a, b): return False
    def ind_candidates(s, e, x): return []
    def ind_begin(s, e, st, x): pass
    def recursion_limit(s, d): return 3
    def merge_ghost(s, c, a, b):
        if a is b: return dict(a)
        g = {}
        for k in a.keys() | b.keys():
            x = a.get(k); y = b.get(k)
            if x is y: g[k] = x
            else:
                if x is None: x = s.gdef(k)
                if y is None: y = s.gdef(k)
                bx = isinstance(x, bool) or (is_sym(x) and z3.is_bool(x)); by = isinstance(y, bool) or (is_sym(y) and z3.is_bool(y))
                if bx and isinstance(y, Undef): y = fresh_bool('gundef')
                if by and isinstance(x, Undef): x = fresh_bool('gundef')
                g[k] = ite(c, x, y, s.gwidth(k, x, y)) if not (isinstance(x, bool) or isinstance(y, bool) or (is_sym(x) and z3.is_bool(x))) else nbool(z3.If(zb(c), zb(to_bool(x)), zb(to_bool(y))))
        return g
    def gwidth(s, k, x, y):
        for v in (x, y):
            if is_sym(v) and z3.is_bv(v): return v.size()
        t = k[0] if isinstance(k, tuple) else k
        if t in ('tok', 'ep', 'la') or (isinstance(t, str) and t.startswith('n_')): return 8
        if t in ('d_total', 'ncl', 'meta', 'pub'): return 32
        return 64
    def gdef(s, k):
        t = k[0] if isinstance(k, tuple) else k
        if t in ('fd', 'so', 'heap', 'mutheld', 'ftr', 'timed_errs'): return False
        if isinstance(t, str) and t.startswith('sp_'): return False
        if t in ('tok', 'ep', 'unl'): return 0
        if isinstance(k, str) and k.startswith('n_'): return 0
        return UNDEF
    def havoc_ghost(s, k, v):
        if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)): return fresh_bool('ginv')
        if isinstance(v, int): return fresh_bv('ginv', s.gwidth(k, v, v))
        if is_sym(v): return fresh_bv('ginv', v.size())
        if isinstance(v, Undef) or v is None: return UNDEF
        raise ToolLimit('loop changes ghost %r' % (k,))
    def havoc_special(s, v): raise ToolLimit('loop changes %r' % (v,))
    def bad_deref(s, st, p, what):
        s.e.oblige(st, s.safety(), 'no %s through an invalid pointer' % what, False)
        st.assume(z3.BoolVal(False))
    def bad_deref_cond(s, st, c, p, what):
        s.e.oblige(st, s.safety(), 'no %s through an invalid pointer' % what, b_not(c))
        st.assume(b_not(c))
    def safety(s): return sorted(s.props)[0] if s.props else None
    def uninit_ptr(s, st, o, off): return UNDEF
    def inttoptr(s, v): raise Unsupported('inttoptr')
    def addr_value(s, op, a, b): return fresh_bv('addr', 64)
    def ptr_eq(s, a, b): return False
    def ptr_order(s, c, a, b): return fresh_bool('ptrorder')
    def fop(s, op, ty, a, b): return fresh_bv('fp', 64 if ty.k == 'double' else 32)
    def indirect(s, e, st, p, args, rty): raise ToolLimit('indirect call')
    def sym_load(s, st, o, off, size, ty): raise ToolLimit('load at symbolic offset of %s' % o.name)
    def sym_store(s, st, o, off, size, v, ty): raise ToolLimit('store at symbolic offset of %s' % o.name)
    def sym_memcpy(s, st, d, p, n): raise ToolLimit('memcpy')
    def sym_memset(s, st, d, v, n): raise ToolLimit('memset')
    def special_load(s, st, o, off, size, ty): raise ToolLimit('load from ' + o.kind)
    def special_store(s, st, o, off, size, v, ty): raise ToolLimit('store to ' + o.kind)
    # ---------------------------------------------------------------- exceptions
    def tid(s, name):
        if name not in s.tids: s.tids[name] = len(s.tids) + 1
        return s.tids[name]
    def typeid(s, e, p):
        if isinstance(p, Ptr): return s.tid(e.objs[p.o].name)
        raise Unsupported('typeid')
    BASES = {'_ZTISt13runtime_error': ('_ZTISt9exception',), '_ZTISt9bad_alloc': ('_ZTISt9exception',), '_ZTISt12out_of_range': ('_ZTISt11logic_error', '_ZTISt9exception'),
             '_ZTISt11logic_error': ('_ZTISt9exception',), '_ZTISt16invalid_argument': ('_ZTISt11logic_error', '_ZTISt9exception'), '_ZTISt12length_error': ('_ZTISt11logic_error', '_ZTISt9exception'),
             '_ZTISt12system_error': ('_ZTISt13runtime_error', '_ZTISt9exception'), '_ZTIN5boost12interprocess22interprocess_exceptionE': ('_ZTISt9exception',),
             '_ZTIN5boost12interprocess14lock_exceptionE': ('_ZTIN5boost12interprocess22interprocess_exceptionE', '_ZTISt9exception')}
    def landingpad(s, e, st, cleanup, clauses, env):
        x = st.g.get(THREW)
        if not isinstance(x, str):
            x = None
        xo = st.g.get('excobj', NULL)
        sel = 0
        for kind, v in clauses:
            if kind != 'catch': sel = fresh_bv('sel', 32); break
            nm = None if v[0] == 'c' and v[1] is None else v[1] if v[0] == 'g' else None
            if nm is None: sel = s.tid('...'); break
            if x is None: sel = ite(fresh_bool('catches'), s.tid(nm), sel, 32) if len(clauses) == 1 else fresh_bv('sel', 32); continue
            if nm == x or nm in s.BASES.get(x, ()): sel = s.tid(nm); break
        return (xo, sel)
    def throw(s, st, ty='_ZTISt13runtime_error'):
        st.g[THREW] = ty
        return st
    def both(s, st, c):
        """(state where c, state where not c)"""
        t = st.clone(); t.assume(c); st.assume(b_not(c))
        return t, st
    # ---------------------------------------------------------------- runtime
    def install_runtime(s):
        on = s.on
        nop = lambda e, st, a, n, d, r: None
        for k in ('free', 'operator delete(void*)', 'operator delete(void*, unsigned long)', '__cxa_free_exception', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_end_catch', 'std::allocator<char>::allocator()', 'std::allocator<char>::~allocator()', 'std::allocator<char>::allocator(std::allocator<char> const&)', 'operator delete[](void*)'):
            on(k, nop)
        on('__cxa_atexit', lambda e, st, a, n, d, r: 0)
        on('__cxa_guard_acquire', lambda e, st, a, n, d, r: 1)
        on('printf', lambda e, st, a, n, d, r: 0)
        on('puts', lambda e, st, a, n, d, r: 0); on('putchar', lambda e, st, a, n, d, r: 0)
        on('fflush', lambda e, st, a, n, d, r: 0)
        def alloc(e, st, a, n, d, r):
            sz = a[0]
            o = e.new_obj('heap', sz if isinstance(sz, int) else None, 'heap' if isinstance(sz, int) else 'heapx', sz)
            if o.kind == 'heap': st.mem[o.id] = {}; st.own.add(o.id)
            return Ptr(o.id, 0)
        for k in ('malloc', 'operator new(unsigned long)', 'operator new[](unsigned long)', '__cxa_allocate_exception'): on(k, alloc)
        s.rx(r'(double|float|int|bool|char|unsigned char|void)\* Eigen::internal::conditional_aligned_(new_auto|malloc)<', alloc)
        s.rx(r'Eigen::internal::aligned_malloc', alloc)
        s.rx(r'void Eigen::internal::conditional_aligned_(delete_auto|free)<', nop)
        s.rx(r'Eigen::internal::aligned_free', nop)
        def badalloc(e, st, a, n, d, r): return Outcome(None, None, s.throw(st, '_ZTISt9bad_alloc'))
        on('Eigen::internal::throw_std_bad_alloc()', badalloc); on('std::__throw_bad_alloc()', badalloc)
        def lenerr(e, st, a, n, d, r): return Outcome(None, None, s.throw(st, '_ZTISt12length_error'))
        s.rx(r'std::__throw_(length_error|logic_error|out_of_range|bad_array_new_length|out_of_range_fmt)', lenerr)
        on('std::runtime_error::runtime_error(string const&)', nop); on('std::runtime_error::~runtime_error()', nop); on('std::runtime_error::runtime_error(char const*)', nop)
        s.rx(r'std::(invalid_argument|logic_error|out_of_range|length_error|domain_error|range_error|bad_alloc|exception)::', nop)
        def cxa_throw(e, st, a, n, d, r):
            ti = e.objs[a[1].o].name if isinstance(a[1], Ptr) else None
            st.g[THREW] = ti if ti else UNDEF; st.g['excobj'] = a[0]
            return Outcome(None, None, st)
        on('__cxa_throw', cxa_throw)
        def begin_catch(e, st, a, n, d, r): return a[0]
        on('__cxa_begin_catch', begin_catch)
        on('__cxa_rethrow', lambda e, st, a, n, d, r: Outcome(None, None, st))
        def term(e, st, a, n, d, r):
            s.on_terminate(st)
            return Outcome(None, None, None)
        on('std::terminate()', term); on('__clang_call_terminate', term); on('abort', term)
        def strlen(e, st, a, n, d, r):
            x = e.read_bytes(st, a[0])
            if x.const(): return len(x.bytes())
            return s.str_len(x)
        on('strlen', strlen)
        on('__errno_location', lambda e, st, a, n, d, r: s.errno_ptr(st))
        s.install_strings()
    def on_terminate(s, st): pass
    def errno_ptr(s, st):
        o = getattr(s, '_errno', None)
        if o is None: o = s._errno = s.e.new_obj('errno', 4, 'glob2')
        if o.id not in st.mem: st.w(o.id)[0] = (4, 0)
        return Ptr(o.id, 0)
    def set_errno(s, st, ok, v):
        p = s.errno_ptr(st)
        old = st.mem[p.o][0][1]
        st.w(p.o)[0] = (4, ite(ok, old, v, 32))
    def get_errno(s, st): return st.mem[s.errno_ptr(st).o][0][1]
    # ---------------------------------------------------------------- std::string
    def str_len(s, x):
        n = 0; syms = []
        for p in x.p:
            if isinstance(p, bytes): n += len(p)
            elif isinstance(p, IteS): syms.append(z3.If(p.c, bv64(s.str_len(p.a)), bv64(s.str_len(p.b))))
            else:
                syms.append(z3.BitVec('len<%s>' % (p,), 64))
        if not syms: return n
        r = bv64(n)
        for t in syms: r = r + t
        return norm(r)
    def gets(s, st, p):
        if isinstance(p, GV):
            alts = s.e.prune(st, p.alts, 'string use'); vals = [(c, s.gets(st, v)) for c, v in alts]
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]): r = ite(c, v, r)
            return r
        o = s.e.objs[p.o]
        if o.kind == 'null': s.bad_deref(st, p, 'string use'); return Str(())
        c = s.e.cells(st, o).get(p.off)
        if c is None or not isinstance(c[1], (Str, GV)): raise Unsupported('string at %s+%s is %r' % (o.name, p.off, c))
        return c[1]
    def puts(s, st, p, v):
        if isinstance(p, GV): raise Unsupported('store string to several places')
        s.e.store_cell(st, s.e.objs[p.o], p.off, 32, v)
    def cs(s, st, p):
        if isinstance(p, GV):
            alts = [(c, s.cs(st, v)) for c, v in s.e.prune(st, p.alts, 'C string use')]
            r = alts[-1][1]
            for c, v in reversed(alts[:-1]): r = ite(c, v, r)
            return r
        return s.e.read_bytes(st, p)
    def cat(s, *xs):
        out = []
        for x in xs:
            if not isinstance(x, Str): raise Unsupported('string alternatives')
            out += x.p
        return Str(out)
    def install_strings(s):
        on = s.on; gets, puts, cs, cat = s.gets, s.puts, s.cs, s.cat
        def W(f):
            return lambda e, st, a, n, d, r: f(st, a)
        on('string::basic_string()', W(lambda st, a: puts(st, a[0], Str(()))))
        on('string::basic_string(std::allocator<char> const&)', W(lambda st, a: puts(st, a[0], Str(()))))
        for sig in ('string const&', 'string&&'):
            on('string::basic_string(%s)' % sig, W(lambda st, a: puts(st, a[0], gets(st, a[1]))))
            on('string::operator=(%s)' % sig, W(lambda st, a: (puts(st, a[0], gets(st, a[1])), a[0])[1]))
        on('string::basic_string<std::allocator<char>>(char const*, std::allocator<char> const&)', W(lambda st, a: puts(st, a[0], cs(st, a[1]))))
        s.rx(r'string::basic_string(<.*>)?\(char const\*, (std::allocator<char>|std::allocator<char> const&)\)', W(lambda st, a: puts(st, a[0], cs(st, a[1]))))
        def from_n(st, a):
            x = cs(st, a[1])
            if not (x.const() and isinstance(a[2], int)): raise Unsupported('string(ptr, n)')
            puts(st, a[0], Str((x.bytes()[:a[2]],)))
        s.rx(r'string::basic_string\(char const\*, unsigned long, ', W(from_n))
        on('string::operator=(char const*)', W(lambda st, a: (puts(st, a[0], cs(st, a[1])), a[0])[1]))
        on('string::~basic_string()', lambda e, st, a, n, d, r: None)
        def append(get):
            def f(st, a): puts(st, a[0], cat(gets(st, a[0]), get(st, a[1]))); return a[0]
            return f
        for op in ('operator+=', 'append'):
            on('string::%s(string const&)' % op, W(append(gets)))
            on('string::%s(char const*)' % op, W(append(cs)))
            on('string::%s(char)' % op, W(append(lambda st, x: Str((bytes([x & 255]),)))))
        on('string::push_back(char)', W(append(lambda st, x: Str((bytes([x & 255]),)))))
        def plus(e, st, a, n, d, r):
            m = re.search(r'operator\+<.*>\((.*)\)$', short(d)); sig = m.group(1).split(', ')
            xs = [gets(st, p) if 'string' in t else cs(st, p) if '*' in t else Str((bytes([p & 255]),)) for t, p in zip(sig, a[1:3])]
            puts(st, a[0], cat(*xs))
        s.rx(r'string std::operator\+<char,', plus)
        def tostr(e, st, a, n, d, r):
            v = a[1]
            if isinstance(v, (int, bool)):
                v = int(v)
                m = re.search(r'to_string\((\w[\w ]*)\)', short(d)).group(1)
                w = {'int': 32, 'long': 64, 'long long': 64}.get(m)
                if w and v >> (w - 1): v -= 1 << w
                puts(st, a[0], Str((str(v).encode(),)))
            else: puts(st, a[0], Str((('num', str(v)),)))
        s.rx(r'(string )?std::(__cxx11::)?to_string\(', tostr)
        on('string::c_str() const', lambda e, st, a, n, d, r: e.cstr(gets(st, a[0])))
        on('string::data() const', lambda e, st, a, n, d, r: e.cstr(gets(st, a[0])))
        ln = lambda e, st, a, n, d, r: s.str_len(gets(st, a[0]))
        on('string::size() const', ln); on('string::length() const', ln)
        on('string::empty() const', lambda e, st, a, n, d, r: (lambda l: int(l == 0) if isinstance(l, int) else norm(l == 0))(s.str_len(gets(st, a[0]))))
        def substr(st, a):
            x = gets(st, a[1]); pos, n = a[2], a[3]
            if not isinstance(x, Str) or not isinstance(pos, int) or not isinstance(n, int): raise Unsupported('substr')
            if pos == 0 and n >> 63: y = x
            elif x.const() and pos <= len(x.bytes()): y = Str((x.bytes()[pos:pos + n],))
            elif pos == 0: y = Str((('sub', x, n),))
            else: raise Unsupported('substr')
            puts(st, a[0], y)
        on('string::substr(unsigned long, unsigned long) const', W(substr))
        on('string::clear()', W(lambda st, a: puts(st, a[0], Str(()))))
        on('string::reserve(unsigned long)', lambda e, st, a, n, d, r: None)
        def eq(x, y):
            if x == y: return 1
            if x.const() and y.const(): return 0
            return fresh_bool('streq')
        s.rx(r'bool std::operator==<char,.*\((string const&|char const\*), (string const&|char const\*)\)', lambda e, st, a, n, d, r: eq(*[gets(st, p) if 'string' in t else cs(st, p) for t, p in zip(re.search(r'>\((.*)\)$', short(d)).group(1).split(', '), a)]))
        s.rx(r'bool std::operator!=<char,.*\((string const&|char const\*), (string const&|char const\*)\)', lambda e, st, a, n, d, r: (lambda v: 1 - v if isinstance(v, int) else b_not(v))(eq(*[gets(st, p) if 'string' in t else cs(st, p) for t, p in zip(re.search(r'>\((.*)\)$', short(d)).group(1).split(', '), a)])))
