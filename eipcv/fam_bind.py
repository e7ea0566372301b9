"""C23: the Python entry points.  The unmodified binding sources are compiled against the real pybind11; what they register is found by
executing the registration code; every registered function is then verified against the C++ operation of that name, which is a contract
that records the object, the operation and the arguments."""
import os, re, z3
import symex, runner, fam_py
from symex import *
from llir import Module, Unsupported, INT, PTR
from world import bv64, short
from fam_misc import INST, eqp, sx, result, live
from fam_py import PyWorld, targ, CPP, FLAGS
P = 'C23'

def split(t):
    """top-level commas"""
    out = []; d = 0; cur = ''
    for c in t:
        if c in '<({[': d += 1
        elif c in '>)}]': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()] if cur.strip() else out
def tail_args(d):
    """parameter types of a demangled function"""
    i = d.rindex(')') if not d.endswith(')') else len(d) - 1
    k = 0; j = i
    while j >= 0:
        if d[j] == ')': k += 1
        elif d[j] == '(':
            k -= 1
            if k == 0: break
        j -= 1
    return split(d[j + 1:i])

def header(e, n): return e.m.lines[e.m.ftext[n][0]] if n in e.m.ftext else e.m.decl[n]
def is_sret(e, n): return 'sret(' in header(e, n)
def ret_bits(e, n):
    """width of the returned integer, 0 if nothing is returned"""
    t = re.search(r'(\S+) @("[^"]*"|[-\w$.]+)\(', header(e, n)).group(1)
    if t == 'void': return 0
    if re.match(r'i\d+$', t): return int(t[1:])
    raise ToolLimit('return type ' + t)

class BindWorld(PyWorld):
    special = PyWorld.special | {'vdata', 'pylist'}
    def __init__(s):
        super().__init__(); s.prop = P; s.props = [P] if hasattr(s, 'props') else None
        s.mods = {}; s.defaults = []; s.classes = []; s.values = {}; s.attrs = {}; s.inits = []; s.ep = {}; s.call = None; s.vec = None; s.made = []; s.n = None
        F = lambda r, h: s.handlers.insert(0, ((lambda d, c=re.compile(r): c.match(d)), h))
        nop = lambda e, st, a, n, d, r: None
        F(r'pybind11::arg::arg\(', lambda e, st, a, n, d, r: (e.store(st, a[0], 8, a[1]), None)[1])
        F(r'pybind11::arg_v pybind11::arg::operator=', s.h_default)
        F(r'.*pybind11::module_& pybind11::module_::def<', s.h_mdef)
        F(r'.*std::make_shared<EigenIPC::(Server|Client)<', s.h_make)
        F(r'std::shared_ptr<EigenIPC::(Server|Client)<.*>::~shared_ptr\(\)', nop)
        F(r'.*pybind11::cast<std::shared_ptr<EigenIPC::', s.h_castsp)
        F(r'.*pybind11::cast<PyEigenIPC::(Server|Client)Wrapper', s.h_castw)
        F(r'(.* )?EigenIPC::(?:Server<\w+, \d>|Client<\w+, \d>|Producer|Consumer|StringTensor<EigenIPC::(?:Server|Client)<\w+, \d>>)::(\w+)(\[abi:\w+\])?\(', s.h_op)
        # a Python list of strings, a vector of strings
        VS = r'std::vector<string, std::allocator<string>>::'
        F(VS + r'vector\(\)', s.h_vec); F(VS + r'~vector\(\)', nop); F(VS + r'reserve\(', nop)
        F(r'(.* )?' + VS + r'(push_back\(string(&&| const&)\)|emplace_back<string( const&|&)?>\()', s.h_push)
        F(r'pybind11::list::empty\(\) const', lambda e, st, a, n, d, r: s.empty(st))
        F(r'pybind11::list::size\(\) const', lambda e, st, a, n, d, r: s.lsize(st))
        F(r'pybind11::list::begin\(\) const', lambda e, st, a, n, d, r: Ptr(s.items.id, 0))
        F(r'pybind11::list::end\(\) const', lambda e, st, a, n, d, r: Ptr(s.items.id, norm(s.lsize(st) * 8) if is_sym(s.lsize(st)) else s.lsize(st) * 8))
        F(r'(.* )?pybind11::detail::generic_iterator<.*>::operator\*\(\) const', lambda e, st, a, n, d, r: e.load(st, a[0], 8, PTR))
        F(r'(.* )?pybind11::detail::generic_iterator<.*>::operator\+\+\(\)', s.h_inc)
        F(r'pybind11::detail::operator(!=|==)\(pybind11::detail::generic_iterator<', s.h_iter)
        F(r'string pybind11::handle::cast<string>\(\) const', lambda e, st, a, n, d, r: s.item(e, st, a[0], e.load(st, a[1], 8, PTR)))
        F(r'(void )?pybind11::list::append<', s.h_append)
        F(r'pybind11::(object|list|handle)::~', nop)
        F(r'pybind11::list::operator\[\]\(unsigned long\) const', s.h_at)
        F(r'string pybind11::detail::(object_api<)?.*accessor<.*list_item>.*::cast<string>', s.h_getat)
        F(r'(void )?pybind11::detail::accessor<.*list_item>::operator=<string', s.h_setat)
        F(r'pybind11::detail::accessor<.*>::~accessor', nop)
        # the module
        F(r'(void )?pybind11::class_<.*>::class_[<(]', s.h_class)
        F(r'(void )?pybind11::enum_<.*>::enum_[<(]', s.h_class)
        F(r'pybind11::enum_<.*>::value\(', s.h_value)
        F(r'pybind11::enum_<.*>::export_values\(', lambda e, st, a, n, d, r: a[0]); F(r'pybind11::enum_<.*>::~enum_', nop)
        F(r'pybind11::detail::object_api<.*>::doc\(\) const', lambda e, st, a, n, d, r: s.ret(e, st, a[0], ('doc',)))
        F(r'(void )?pybind11::detail::accessor<.*str_attr>::operator=<', s.h_setattr)
        F(r'.*pybind11::class_<.*>::def_static<', lambda e, st, a, n, d, r: a[0])
    # -------------------------------------------------------------- registration
    def h_default(s, e, st, a, n, d, r):
        nm = e.load(st, a[1], 8, PTR); e.store(st, a[0], 8, nm)
        T = targ(short(d), '::operator=<'); k = (s.cs(st, nm).bytes().decode(), a[0].o, a[0].off)
        v = e.load(st, a[2], 1, INT(8)) if T == 'bool' else e.load(st, a[2], 4, INT(32)) if T in ('int', 'int const&') or T.endswith(('DType', 'VLevel')) else None
        s.defaults.append((k[0], T, v)); return None
    def h_def(s, e, st, a, n, d, r):
        ds = short(d); F = targ(ds, '>::def<')
        if '(pybind11::detail::initimpl' in d:
            T = tail_args(ds); X = split(T[0][T[0].index('::constructor<') + 14:T[0].rindex('>')]) if '::constructor<' in T[0] else None
            K = targ(ds, 'pybind11::class_<')
            s.inits.append((K, X, [s.cs(st, e.load(st, p, 8, PTR)).bytes().decode() for p, t in zip(a[2:], T[1:]) if re.match(r'pybind11::arg(_v)? ', t)]))
            return a[0]
        if '::*)(' in F:
            v = e.load(st, a[2], 8, PTR)
            if isinstance(v, Ptr) and e.objs[v.o].kind == 'func':
                nm = s.cs(st, a[1]); s.defs.setdefault(nm.bytes().decode(), []).append((e.objs[v.o].name, False, F)); return a[0]
        return super().h_def(e, st, a, n, d, r)
    def h_mdef(s, e, st, a, n, d, r):
        ds = short(d); i = ds.index('::def<') + 6; k = 1; j = i
        while k: k += (ds[j] in '<(') - (ds[j] in '>)' and ds[j - 1] != '-'); j += 1
        T = split(ds[i:j - 1]); nm = s.cs(st, a[1]).bytes().decode()
        c = e.m.find(lambda x: short(x).startswith(T[0] + '::operator()('))
        v = e.load(st, a[2], 8, PTR) if not c else None
        if isinstance(a[2], Ptr) and e.objs[a[2].o].kind == 'func': v = a[2]
        fn = c[0] if c else e.objs[v.o].name if isinstance(v, Ptr) and e.objs[v.o].kind == 'func' else None
        names = [s.cs(st, e.load(st, a[3 + q], 8, PTR)).bytes().decode() for q, t in enumerate(T[1:]) if t in ('pybind11::arg', 'pybind11::arg_v')]
        s.mods[nm] = (fn, bool(c), names)
        return a[0]
    def h_class(s, e, st, a, n, d, r):
        ds = short(d); K = 'class_<' if 'pybind11::class_<' in ds[:40] else 'enum_<'
        t = split(targ(ds, 'pybind11::' + K))[0]
        if K == 'enum_<': e.store(st, a[0], 8, NULL); s.values.setdefault(t, {})
        s.classes.append((t, s.cs(st, a[2]).bytes().decode()))
        return a[0]
    def h_value(s, e, st, a, n, d, r):
        t = targ(short(d), 'pybind11::enum_<'); nm = s.cs(st, a[1]).bytes().decode()
        s.values.setdefault(t, {}).setdefault(nm, []).append(a[2]); return a[0]
    def h_setattr(s, e, st, a, n, d, r):
        m = s.m(e, st, a[0])
        if m[0] == 'attr' and m[2].const(): s.attrs.setdefault(m[2].bytes().decode(), []).append(e.load(st, a[1], 4, INT(32)) if 'operator=<int' in short(d) else None)
    # -------------------------------------------------------------- factories
    def val(s, e, st, p, t):
        t = t.rstrip('&').strip()
        if t.startswith('const '): t = t[6:]
        t = t.replace(' const', '')
        if t == 'string': return s.gets(st, p)
        if t == 'bool': return nbool(zb(to_bool(e.load(st, p, 1, INT(8)))))
        if t in ('int', 'unsigned int') or t.endswith('VLevel'): return e.load(st, p, 4, INT(32))
        raise ToolLimit('factory argument of type ' + t)
    def h_make(s, e, st, a, n, d, r):
        ds = short(d); m = re.search(r'make_shared<EigenIPC::(Server|Client)<(\w+), (\d)>', ds)
        A = [s.val(e, st, p, t) for p, t in zip(a[1:], tail_args(ds))]
        o = e.new_obj('endpoint', 64, 'ext'); s.ep[o.id] = ('endpoint', m.group(1), m.group(2), int(m.group(3)), len(s.made)); s.made.append(A)
        e.store(st, a[0], 8, Ptr(o.id, 0)); e.store(st, e.padd(a[0], 8), 8, NULL)
    def alts(s, e, st, p, tab):
        v = e.load(st, p, 8, PTR)
        out = []
        for c, q in alts_of(v) if isinstance(v, GV) else [(True, v)]:
            if not (isinstance(q, Ptr) and q.o in tab): raise ToolLimit('unknown object %r' % (q,))
            out.append((c, tab[q.o]))
        return out
    def one(s, e, st, p, tab):
        x = s.alts(e, st, p, tab)
        if len(x) != 1: raise ToolLimit('several objects')
        return x[0][1]
    def h_castsp(s, e, st, a, n, d, r): s.ret(e, st, a[0], ('py', s.one(e, st, a[1], s.ep)))
    def h_castw(s, e, st, a, n, d, r):
        w = e.load(st, a[1], 8, PTR)
        if not isinstance(w, Ptr) or e.objs[w.o].kind == 'null': raise ToolLimit('empty wrapper')
        k = re.search(r'cast<PyEigenIPC::(Server|Client)Wrapper', d).group(1)
        s.ret(e, st, a[0], ('wrapper', k, s.one(e, st, w, s.meta)))
        if '&&' in d.rsplit('(', 1)[-1]: e.store(st, a[1], 8, NULL)       # moved from
    # -------------------------------------------------------------- operations of the C++ objects
    def h_op(s, e, st, a, n, d, r):
        ds = short(d); m = re.search(r'EigenIPC::(?:(Server|Client)<(\w+), (\d)>|(Producer|Consumer)|StringTensor<EigenIPC::(Server|Client)<\w+, \d>>)::(\w+)(?:\[abi:\w+\])?\(', ds)
        op = m.group(6)
        if op in ('Server', 'Client', 'Producer', 'Consumer', 'StringTensor') or '~' in op: raise ToolLimit('construction of ' + ds[:80])
        c = s.call
        if c is None: raise ToolLimit('operation outside a call')
        O = lambda l, x: e.oblige(st, P, l, x)
        pt = tail_args(ds); sret = is_sret(e, n)
        self = a[1] if sret else a[0]; args = a[2:] if sret else a[1:]
        O('the function performs the C++ operation of its name', op == c['op'] and (c.get('sig') is None or (len(pt) > 0 and re.match(c['sig'], pt[0]) is not None)))
        O('it is performed on the object it was called on', isinstance(self, Ptr) and self == c['self'])
        O('it is performed once', b_not(st.g.get('called', False)))
        st.g['called'] = True
        if len(args) != len(pt): raise ToolLimit('arguments')
        for i, (x, t) in enumerate(zip(args, pt)):
            t = t.replace(' const', '')
            if i >= len(c['args']): O('no argument is added', False); continue
            w = c['args'][i]
            if t in ('string&', 'string'):
                if w == 'out': s.puts(st, x, Str((('res', 'str'),)))
                else: O('the string is passed on', s.gets(st, x) == w)
            elif t.startswith('std::vector<string'):
                if w == 'list': s.h_readvec(e, st, x)
                else: O('the strings are passed on', isinstance(x, Ptr) and x == w)
            else: O('argument %d is passed on in its place' % (i + 1), eqp(sx(x), sx(w)) if not isinstance(x, (Ptr, GV)) else False)
        if sret: s.puts(st, a[0], Str((('res', op),))); return None
        b = ret_bits(e, n)
        if not b: return None
        v = fresh_bool('result') if b == 1 else fresh_bv('result', b); s.results.append((v, c))
        return v
    # -------------------------------------------------------------- lists of strings
    def lsize(s, st): return st.mem[s.lst.id][0][1]
    def empty(s, st):
        n = s.lsize(st); return nbool(bv64(n) == 0)
    def h_vec(s, e, st, a, n, d, r):
        o = e.new_obj('vdata', None, 'vdata', None)
        if s.vec is not None: raise ToolLimit('a second vector')
        s.vec = o; z = Ptr(o.id, 0)
        for k in (0, 8, 16): e.store(st, e.padd(a[0], k), 8, z)
    def vsize(s, e, st, v):
        b, x = e.load(st, v, 8, PTR), e.load(st, e.padd(v, 8), 8, PTR)
        if not (isinstance(x, Ptr) and isinstance(b, Ptr) and s.vec is not None and b.o == x.o == s.vec.id and b.off == 0): raise ToolLimit('vector structure')
        return x
    def h_push(s, e, st, a, n, d, r):
        x = s.vsize(e, st, a[0]); t = s.gets(st, a[1])
        k = t.p[0][1] if len(t.p) == 1 and isinstance(t.p[0], tuple) and t.p[0][0] == 'item' else None
        e.oblige(st, P, 'the strings of the list are collected in order', k is not None and nbool(bv64(x.off) == 4 * bv64(k)) and b_not(st.g.get('called', False)) if k is not None else False)
        e.store(st, e.padd(a[0], 8), 8, e.padd(x, 32))
        return a[1]
    def h_inc(s, e, st, a, n, d, r):
        e.store(st, a[0], 8, e.padd(e.load(st, a[0], 8, PTR), 8)); return a[0]
    def h_iter(s, e, st, a, n, d, r):
        x, y = e.load(st, a[0], 8, PTR), e.load(st, a[1], 8, PTR)
        if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o): raise ToolLimit('iterators')
        q = nbool(bv64(x.off) == bv64(y.off))
        return q if 'operator==' in d else b_not(q)
    def item(s, e, st, at, h):
        if not (isinstance(h, Ptr) and h.o == s.items.id): raise ToolLimit('cast of something that is not in the list')
        e.oblige(st, P, 'only existing elements of the list are read', nbool(z3.ULT(bv64(h.off), 8 * bv64(s.lsize(st)))))
        s.puts(st, at, Str((('item', h.off),)))
    def gets(s, st, p):
        if isinstance(p, Ptr) and s.e.objs[p.o].kind == 'vdata': return Str((('res' if st.g.get('called') is True else 'vec', p.off),))
        return super().gets(st, p)
    def puts(s, st, p, v):
        if isinstance(p, Ptr) and s.e.objs[p.o].kind == 'vdata': raise ToolLimit('a string of the vector is assigned')
        return super().puts(st, p, v)
    def h_readvec(s, e, st, v):
        x = s.vsize(e, st, v)
        e.oblige(st, P, 'as many strings are read as the list has', nbool(bv64(x.off) == 32 * s.n))
    def h_pycall(s, e, st, a, n, d, r):
        m = s.m(e, st, a[1]); args = a[2:]
        nm = m[2].bytes().decode() if m[0] == 'attr' and m[2].const() else '?'
        if m[0] == 'attr' and m[1] == ('list',):
            if nm != 'clear': raise ToolLimit('list.' + nm)
            st.w(s.lst.id)[0] = (8, 0); st.w(s.lst.id)[8] = (8, 0); s.ret(e, st, a[0], ('none',)); return
        if m[0] != 'attr' or m[1] != ('server',) or s.call is None: raise ToolLimit('Python call')
        e.oblige(st, P, 'the wrapper calls the function of its own name', nm == s.call['op'] and not args)
        e.oblige(st, P, 'it is called once', b_not(st.g.get('called', False)))
        st.g['called'] = True
        s.ret(e, st, a[0], ('call', m))
    def h_append(s, e, st, a, n, d, r):
        t = s.gets(st, a[1]); k = t.p[0][1] if len(t.p) == 1 and isinstance(t.p[0], tuple) and t.p[0][0] == 'res' else None
        z = s.lsize(st)
        e.oblige(st, P, 'the strings that were read are put into the list in order', nbool(bv64(k) == 32 * bv64(z)) if k is not None and not isinstance(k, str) else False)
        f = st.mem[s.lst.id][8][1]; z1 = norm(bv64(z) + 1) if is_sym(z) else z + 1
        st.w(s.lst.id)[8] = (8, ite(nbool(bv64(f) == bv64(z)), z1, f, 64)); st.w(s.lst.id)[0] = (8, z1)
    def h_at(s, e, st, a, n, d, r):
        i = a[2]
        e.oblige(st, P, 'only existing elements of the list are used', nbool(z3.ULT(bv64(i), bv64(s.lsize(st)))))
        o = e.new_obj('accessor', 16, 'ext'); s.meta[o.id] = ('elem', i); e.store(st, a[0], 8, Ptr(o.id, 0))
    def h_getat(s, e, st, a, n, d, r):
        m = s.m(e, st, a[1])
        if m[0] != 'elem' or not e.valid(st, nbool(bv64(st.mem[s.lst.id][8][1]) == 0)): raise ToolLimit('list element read after the list was changed')
        s.puts(st, a[0], Str((('item', norm(8 * bv64(m[1])) if is_sym(m[1]) else 8 * m[1]),)))
    def h_setat(s, e, st, a, n, d, r):
        m = s.m(e, st, a[0]); t = s.gets(st, a[1]); i = m[1] if m[0] == 'elem' else None
        if i is None: raise ToolLimit('assignment to an attribute')
        k = t.p[0][1] if len(t.p) == 1 and isinstance(t.p[0], tuple) and t.p[0][0] == 'res' else None
        e.oblige(st, P, 'the strings that were read are put into the list in order', nbool(bv64(k) == 32 * bv64(i)) if k is not None and not isinstance(k, str) else False)
        f = st.mem[s.lst.id][8][1]
        if not e.valid(st, nbool(bv64(f) == bv64(i))): raise ToolLimit('list elements assigned in another order')
        st.w(s.lst.id)[8] = (8, norm(bv64(i) + 1) if is_sym(i) else i + 1)
    def h_cast(s, e, st, a, n, d, r):
        T = targ(short(d), 'cast<')
        if T in ('bool', 'EigenIPC::DType', 'PyEigenIPC::DType', 'int'):
            m = s.m(e, st, a[0])
            if m[0] == 'call': v = fresh_bool('r') if r is not None and r.k == 'int' and r.n == 1 else fresh_bv('r', 32); s.results.append((v, m)); return v
        if T == 'string' and s.m(e, st, a[1])[0] == 'call': s.puts(st, a[0], Str((('res', s.call['op']),))); return None
        return super().h_cast(e, st, a, n, d, r)
    def inductive(s, e, a, b): return s.lst is not None and len(b.pc) != len(a.pc)
    def ind_candidates(s, e, x): return [('at most n iterations', lambda k, st: z3.ULE(k, s.n))]
    lst = None

def world(mod, deadline, ctx):
    w = BindWorld(); e = Engine(mod, w); e.deadline = deadline; w.ctx = ctx; w.results = []; w.rv = {}
    return w, e

def find_defs(mod, fn, deadline):
    w, e = world(mod, deadline, fn)
    st = State(); o = e.new_obj('module', 8, 'ext'); m = e.new_obj('py module', 16, 'ext'); w.meta[m.id] = ('module',); st.mem[o.id] = {0: (8, Ptr(m.id, 0))}; st.own.add(o.id)
    e.call(st, fn, [Ptr(o.id, 0)])
    return w

COMMON = ['close', 'isRunning', 'getScalarType', 'getNRows', 'getNCols', 'getNamespace', 'getBasename', 'dataSemAcquire', 'dataSemRelease']
EPOPS = {'S': COMMON + ['run', 'stop', 'getNClients'], 'C': COMMON + ['attach', 'detach']}

def objs(e, st, w, *names):
    ob = {}
    for n in names:
        ob[n] = e.new_obj(n, 64, 'ext'); st.mem[ob[n].id] = {}; st.own.add(ob[n].id)
    return {n: Ptr(o.id, 0) for n, o in ob.items()}

def invoke(w, e, st, fn, islam, self, args):
    """-> Outcome, address of the returned object if it is returned in memory"""
    q = objs(e, st, w, 'lambda', 'ret'); sret = is_sret(e, fn)
    return e.call(st, fn, ([q['ret']] if sret else []) + ([q['lambda']] if islam else []) + [self] + args), q['ret'] if sret else None

def method_task(mod, reg, name, wrapper, deadline, op=None, sig=None, args=(), out=None):
    """the function registered under a name performs the C++ operation op (the Python function of the same name for the wrappers)"""
    limits = []; ctx = '%s.%s' % (reg[1], name); w, e = world(mod, deadline, ctx)
    try:
        w0 = find_defs(mod, reg[0], deadline); defs = w0.defs.get(name, [])
        w.ctx = ctx
        e.oblige(State(), P, 'a function is registered under the name %s' % name, len(defs) == 1)
        for fn, islam, F in defs:
            if fn is None: raise ToolLimit('registered function not found: ' + F[-100:])
            w.results = []; st = State(); st.g['called'] = False
            q = objs(e, st, w, 'self', 'object', 'srv')
            a = []; w.call = dict(op=op or name, self=q['self'], sig=sig, args=[])
            for x in args:
                if x == 'int': v = z3.BitVec('arg%d' % len(a), 32); a.append(v); w.call['args'].append(v)
                elif x == 'str':
                    v = Str((('arg', 'str'),)); p = objs(e, st, w, 'strarg')['strarg']; w.puts(st, p, v); a.append(p); w.call['args'].append(v)
                elif x == 'vec': p = objs(e, st, w, 'vecarg')['vecarg']; a.append(p); w.call['args'].append(p)
                elif x == 'out': w.call['args'].append('out')
                elif x == 'list':
                    w.lst = e.new_obj('pylist', 16, 'ext'); w.items = e.new_obj('items', None, 'pylist', None); w.n = z3.BitVec('n', 64); w.axioms.append(z3.ULT(w.n, bv64(1 << 31)))
                    st.mem[w.lst.id] = {0: (8, w.n), 8: (8, 0)}; st.own.add(w.lst.id); w.meta[w.lst.id] = ('list',)
                    p = objs(e, st, w, 'pyhandle')['pyhandle']; e.store(st, p, 8, Ptr(w.lst.id, 0)); a.append(p); w.call['args'].append('list')
            if wrapper:
                w.meta[q['srv'].o] = ('server',); e.store(st, q['object'], 8, q['srv']); e.store(st, q['self'], 8, q['object'])
            x, ret = invoke(w, e, st, fn, islam, q['self'], a)
            e.oblige(State(), P, 'the call returns', x.ret is not None and live(e, x.ret))
            if x.thr is not None and live(e, x.thr): e.oblige(x.thr, P, 'the call throws nothing of its own', False)
            z = x.ret
            if z is None: continue
            O = lambda l, c: e.oblige(z, P, l, c)
            if 'list' in args:
                O('a list that is not empty is read', b_or(z.g['called'], nbool(w.n == 0)))
                O('the list keeps its length', nbool(bv64(w.lsize(z)) == w.n))
                O('after a read that succeeded every element of the list is a string that was read', b_or(b_not(to_bool(x.val)), nbool(bv64(z.mem[w.lst.id][8][1]) == w.n)))
                ok = False
                for v, c in w.results: ok = b_or(ok, nbool(zb(to_bool(x.val)) == zb(v)))
                O('the result of the operation is returned', b_or(ok, b_and(b_not(z.g['called']), b_not(to_bool(x.val)))))
                continue
            if out == 'tuple':
                t = e.new_obj('probe', 16, 'ext'); z.mem[t.id] = {}; z.own.add(t.id); w.mute = True
                z = e.call(z, 'drv_b_tuple', [ret, Ptr(t.id, 0)]).ret; w.mute = False
                sp, bp = z.mem[t.id][0][1], z.mem[t.id][8][1]
                O('the operation is performed', z.g['called'])
                O('the string that was read is returned', w.gets(z, sp) == Str((('res', 'str'),)))
                O('the result of the read is returned', len(w.results) == 1 and nbool(zb(to_bool(e.load(z, bp, 1, INT(8)))) == zb(w.results[0][0])))
                continue
            O('the operation is performed', z.g['called'])
            if ret is not None:
                if wrapper and not ('string' in F or name in ('getNamespace', 'getBasename')): pass        # a Python object (None)
                else: O('the result of the operation is returned', w.gets(z, ret) == Str((('res', op or name),)))
            elif x.val is not None and w.results:
                v = w.results[0][0]
                O('the result of the operation is returned', len(w.results) == 1 and (nbool(zb(to_bool(x.val)) == zb(v)) if z3.is_bool(v) else nbool(to_bv(x.val, v.size()) == v)))
            elif x.val is not None: O('the result of the operation is returned', False)
    except (ToolLimit, Unsupported) as ex: limits.append((ctx, ex))
    return result(e, limits)

def factory_task(mod, who, deadline):
    limits = []; K = {'S': 'Server', 'C': 'Client'}[who]; ctx = K + 'Factory'; w, e = world(mod, deadline, ctx)
    try:
        mods = find_defs(mod, 'drv_b_fac' + who, deadline).mods
        e.oblige(State(), P, 'the factory is registered', ctx in mods)
        fn, islam, names = mods[ctx]
        if fn is None: raise ToolLimit('factory not found')
        dtv = {t: e.call(State(), 'drv_py_dtype_' + k, []).val for k, t in CPP.items()}
        lay = {1: e.call(State(), 'drv_b_row', []).val, 0: e.call(State(), 'drv_b_col', []).val}
        st = State()
        want = (['n_rows', 'n_cols'] if who == 'S' else []) + ['basename', 'namespace', 'verbose', 'vlevel'] + (['force_reconnection'] if who == 'S' else []) + ['safe']
        e.oblige(State(), P, 'the factory takes every parameter by its name', sorted(names) == sorted(want + ['dtype', 'layout']))
        V = {}; A = []
        for n in names:
            if n in ('basename', 'namespace'):
                V[n] = Str((('a', n),)); p = objs(e, st, w, n)[n]; w.puts(st, p, V[n]); A.append(p)
            elif n in ('verbose', 'safe', 'force_reconnection'): V[n] = z3.Bool(n); A.append(V[n])
            else: V[n] = z3.BitVec(n, 32); A.append(V[n])
        q = objs(e, st, w, 'ret', 'lambda')
        x = e.call(st, fn, [q['ret']] + ([q['lambda']] if islam else []) + A)
        dt, ly = V.get('dtype'), V.get('layout')
        if dt is None or ly is None: raise ToolLimit('no type or layout')
        good = nbool(z3.And(z3.Or(*[dt == v for v in dtv.values()]), z3.Or(*[ly == v for v in lay.values()])))
        if x.thr is not None and live(e, x.thr): e.oblige(x.thr, P, 'a type and a layout that exist are accepted', b_not(good))
        e.oblige(State(), P, 'the factory can return', x.ret is not None and live(e, x.ret))
        z = x.ret
        e.oblige(z, P, 'a type or layout that does not exist is refused with an exception', good)
        n = 0
        for c, m in w.alts(e, z, q['ret'], w.meta):
            O = lambda l, y: e.oblige(z, P, l, b_or(b_not(c), y))
            ok = m[0] == 'wrapper' and m[2][0] == 'py' and m[2][1][0] == 'endpoint'
            O('what is returned is an endpoint that was created for this call', ok)
            if not ok: continue
            _, k, T, L, i = m[2][1]; n += 1
            O('the endpoint is a %s, wrapped as one' % K.lower(), m[1] == K and k == K)
            O('the endpoint has the element type that was asked for (%s)' % T, nbool(dt == dtv[T]) if T in dtv else False)
            O('the endpoint has the layout that was asked for (%d)' % L, nbool(ly == L))
            got = w.made[i]
            O('every parameter is passed on', len(got) == len(want))
            for a, g in zip(want, got):
                v = V.get(a)
                O('the endpoint gets the %s' % a, False if v is None else g == v if isinstance(g, Str) or isinstance(v, Str) else nbool(zb(to_bool(g)) == zb(v)) if z3.is_bool(v) else nbool(to_bv(g, 32) == v))
        e.oblige(z, P, 'all types and layouts can be had', n >= 8)
    except (ToolLimit, Unsupported) as ex: limits.append((ctx, ex))
    return result(e, limits)

DEFAULTS = {'index': 0, 'row': 0, 'col': 0, 'ms_timeout': -1, 'safe': 1, 'force_reconnection': 0, 'verbose': 0, 'dtype': 'drv_py_dtype_f', 'layout': 'drv_b_row', 'vlevel': 'drv_b_vl_V0'}
def defaults_check(w, e, w0, only=None):
    for nm, T, v in w0.defaults:
        x = DEFAULTS.get(nm)
        if x is None or v is None: continue
        if isinstance(x, str): x = e.call(State(), x, []).val
        e.oblige(State(), P, 'an omitted %s has the value of the C++ interface' % nm, nbool(to_bv(v, 32) == to_bv(x, 32)) if is_sym(v) or is_sym(x) else (int(v) - int(x)) % (1 << 32) == 0)

INITS = {   # parameters of the C++ constructors, in order
    'drv_b_strS': ('StringTensor<EigenIPC::Server<int, 0>>', 'int string string bool VLevel bool bool', 'length basename name_space verbose vlevel force_reconnection safe'),
    'drv_b_strC': ('StringTensor<EigenIPC::Client<int, 0>>', 'string string bool VLevel bool', 'basename name_space verbose vlevel safe'),
    'drv_b_prod': ('Producer', 'string string bool VLevel bool', 'basename namespace verbose vlevel force_reconnection'),
    'drv_b_cons': ('Consumer', 'string string bool VLevel', 'basename namespace verbose vlevel')}

def init_task(mod, drv, deadline):
    limits = []; K, X, names = INITS[drv]; ctx = 'construction of ' + K; w, e = world(mod, deadline, ctx)
    try:
        I = find_defs(mod, drv, deadline).inits; O = lambda l, c: e.oblige(State(), P, l, c)
        O('one constructor is registered', len(I) == 1)
        for k, x, nm in I:
            O('every parameter of the constructor goes by its name', nm == names.split())
            if x is None: raise ToolLimit('constructor')
            O('the constructor has the types of its parameters', [t.split('::')[-1] for t in x] == X.split())
            O('it creates the object of the class', 'EigenIPC::' + K.split('<')[0] in k)
    except (ToolLimit, Unsupported) as ex: limits.append((ctx, ex))
    return result(e, limits)

def module_task(mod, deadline):
    limits = []; ctx = 'module'; w, e = world(mod, deadline, ctx)
    try:
        w0 = find_defs(mod, 'drv_b_module', deadline); O = lambda l, c: e.oblige(State(), P, l, c)
        T = [t for t, _ in w0.classes]; V = w0.values
        defaults_check(w, e, w0)
        for k in ('Server', 'Client'):
            for c in CPP.values():
                for l in (0, 1): O('%s<%s, %d> can be returned to Python' % (k, c, l), T.count('EigenIPC::%s<%s, %d>' % (k, c, l)) == 1)
            O('%s objects have a class' % k, T.count('PyEigenIPC::%sWrapper' % k) == 1)
            O('%sFactory is registered' % k, k + 'Factory' in w0.mods)
        for t in ('EigenIPC::Producer', 'EigenIPC::Consumer'): O(t + ' has a class of its name', (t, t.split('::')[1]) in w0.classes)
        for k in ('Server', 'Client'): O('StringTensor%s is a string tensor %s' % (k, k.lower()), any(n == 'StringTensor' + k and t.startswith('EigenIPC::StringTensor<EigenIPC::' + k) for t, n in w0.classes))
        O('no two classes have one name', len({n for _, n in w0.classes}) == len(w0.classes))
        dt = next((v for t, v in V.items() if t.endswith('::DType')), {}); vl = next((v for t, v in V.items() if t.endswith('::VLevel')), {}); lt = next((v for t, v in V.items() if t.endswith('::LogType')), {})
        O('the element types are called dtype', any(t.endswith('::DType') and n == 'dtype' for t, n in w0.classes)); O('the verbosity levels are called VLevel', any(t.endswith('::VLevel') and n == 'VLevel' for t, n in w0.classes))
        num = lambda f: e.call(State(), f, []).val
        for tab, pre, ns in ((dt, 'dt', ('Bool', 'Int', 'Float', 'Double')), (vl, 'vl', ('V0', 'V1', 'V2', 'V3')), (lt, 'lt', ('WARN', 'EXCEP', 'INFO', 'STAT'))):
            for n in ns: O('the name %s stands for that value' % n, len(tab.get(n, [])) == 1 and eqp(sx(tab[n][0]), sx(num('drv_b_%s_%s' % (pre, n)))) or False)
        for n, f in (('RowMajor', 'drv_b_row'), ('ColMajor', 'drv_b_col')):
            v = w0.attrs.get(n, []); O('the name %s stands for that layout' % n, len(v) == 1 and v[0] is not None and eqp(sx(v[0]), sx(num(f))))
        O('toNumpyDType is registered', 'toNumpyDType' in w0.mods)
        fn, islam, _ = w0.mods['toNumpyDType']; st = State(); q = objs(e, st, w, 'ret', 'lambda'); x = z3.BitVec('dtype', 32)
        o = e.call(st, fn, [q['ret']] + ([q['lambda']] if islam else []) + [x])
        dtv = {t: num('drv_py_dtype_' + k) for k, t in CPP.items()}; good = nbool(z3.Or(*[x == v for v in dtv.values()]))
        if o.thr is not None and live(e, o.thr): e.oblige(o.thr, P, 'every element type has a numpy type', b_not(good))
        z = o.ret; e.oblige(State(), P, 'toNumpyDType returns', z is not None and live(e, z))
        for c, m in w.alts(e, z, q['ret'], w.meta): e.oblige(z, P, 'toNumpyDType gives the numpy type of the element type', b_or(b_not(c), nbool(x == dtv[m[1]]) if m[0] == 'dtypeof' and m[1] in dtv else False))
    except (ToolLimit, Unsupported, KeyError) as ex: limits.append((ctx, ex))
    return result(e, limits)

def tasks(prop, d, tier, budget):
    import time
    mod = Module(runner.build_ir(d, 'drv_bind', FLAGS)); dl = time.time() + budget
    T = []
    def add(reg, name, wrapper=False, **kw): T.append(('%s.%s' % (reg[1], name), lambda: method_task(mod, reg, name, wrapper, dl, **kw)))
    for who, K in (('S', 'Server'), ('C', 'Client')):
        T.append((K + 'Factory', lambda who=who: factory_task(mod, who, dl)))
        for name in EPOPS[who]:
            add(('drv_py_wrap' + who, K + 'Wrapper'), name, True)
            for k in INST: add(('drv_py_bind%s_%s' % (who, k), '%s<%s>' % (K, k)), name, op='isAttached' if (who, name) == ('C', 'isRunning') else None)
        r = ('drv_b_str' + who, 'StringTensor' + K)
        for name in ('run', 'isRunning', 'getNamespace', 'getBasename', 'close'): add(r, name)
        add(r, 'length', op='getLength')
        add(r, 'write_vec', op='write', sig='std::vector<string', args=('vec', 'int')); add(r, 'write_str', op='write', sig='string const&$', args=('str', 'int'))
        add(r, 'read_str', op='read', sig='string&$', args=('out', 'int'), out='tuple')
        add(r, 'read_vec', op='read', sig='std::vector<string', args=('list', 'int'))
    for name in ('run', 'close', 'trigger'): add(('drv_b_prod', 'Producer'), name)
    add(('drv_b_prod', 'Producer'), 'wait_ack_from', args=('int', 'int'))
    for name in ('run', 'close', 'ack'): add(('drv_b_cons', 'Consumer'), name)
    add(('drv_b_cons', 'Consumer'), 'wait', args=('int',))
    for drv in INITS: T.append(('init ' + drv[6:], lambda drv=drv: init_task(mod, drv, dl)))
    T.append(('module', lambda: module_task(mod, dl)))
    mod.demangle('')
    return T

def native_exe(d, prop): return fam_py.native_exe(d, prop, 'native_bind')

TRUSTED = [
    'clang 18 front end and mem2reg/loop-simplify/lcssa (the verified text is the LLVM IR of the unmodified sources compiled against the real pybind11 headers, re-generated on every run, -DNDEBUG)',
    'the verification-condition generator eipcv/symex.py and z3',
    'assumed contracts of pybind11: class_, enum_ and module_::def register the given function, class, value or parameter name; a call from Python passes the arguments to the parameters by position or name; construction through py::init passes its parameters to the C++ constructor in order; cast of a shared pointer or wrapper makes a Python object for it; list iteration, clear and append; attribute access and call',
    'the contract of make_shared: one endpoint constructed with the given arguments; the operations of the endpoints, string tensors, producers and consumers are recorded by contract (they are the subject of C01 to C18)',
    'assumed contracts of std::vector<string>: construction, reserve, push_back, begin/end',
]
