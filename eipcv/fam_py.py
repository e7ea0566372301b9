"""C21: the numpy side of the bindings.  The unmodified binding sources are compiled against the real pybind11; the functions
registered for Python as "write" and "read" are found by executing the registration code and then verified for every buffer."""
import os, re, subprocess, z3
import symex, runner
from symex import *
from llir import Module, Unsupported, INT, PTR
from world import World, bv64, short
from fam_misc import INST, W, eqp, sx, result, live, journal_task

CPP = {'d': 'double', 'f': 'float', 'i': 'int', 'b': 'bool'}
PB = r'pybind11::'

def targ(d, key):
    """first template argument after key"""
    i = d.index(key) + len(key); depth = 0; j = i
    while j < len(d):
        c = d[j]
        if c in '<({': depth += 1
        elif c in '>)}':
            if c == '>' and d[j - 1] == '-': pass
            else:
                if depth == 0: break
                depth -= 1
        elif c == ',' and depth == 0: break
        j += 1
    return d[i:j]

class PyWorld(W):
    special = {'user', 'heapx', 'pyarr'}
    def __init__(s):
        super().__init__('C21'); s.defs = {}; s.meta = {}; s.calls = []; s.dt = None
        nop = lambda e, st, a, n, d, r: None
        self0 = lambda e, st, a, n, d, r: a[0]
        s.rx(r'.*pybind11::class_<.*>::def<pybind11::detail::initimpl', self0)
        s.rx(r'.*pybind11::class_<.*>& pybind11::class_<.*>::def<', s.h_def)
        s.rx(r'(void )?pybind11::class_<.*>::(class_|~class_)[<(]', nop)
        s.rx(r'.*pybind11::init<', nop)
        s.rx(r'pybind11::arg::', nop); s.rx(r'pybind11::arg_v::', nop); s.rx(r'pybind11::arg_v pybind11::arg::operator=', nop)
        for k in ('inc_ref', 'dec_ref'): s.rx(r'pybind11::handle::%s\(' % k, self0)
        s.rx(r'pybind11::(object|handle|dtype|str|array|buffer|buffer_info|bytes|array_t<.*>|detail::accessor<.*>)::~', nop)
        s.rx(r'pybind11::gil_scoped', nop)
        # the numpy array
        s.rx(r'pybind11::buffer::request\(', s.h_request)
        s.rx(r'pybind11::buffer_info::buffer_info\(', s.h_copyinfo)
        s.rx(r'pybind11::array::dtype\(\) const', lambda e, st, a, n, d, r: s.ret(e, st, a[0], ('dtype', s.m(e, st, a[1]))))
        s.rx(r'pybind11::array::ndim\(\) const', lambda e, st, a, n, d, r: s.arr('ndim'))
        s.rx(r'pybind11::array::itemsize\(\) const', lambda e, st, a, n, d, r: s.isz)
        s.rx(r'.*pybind11::array::shape<.*>\(long, ?.*\) const|.*pybind11::array::shape\(long\) const', lambda e, st, a, n, d, r: s.dim(st, 'shape', a[1]))
        s.rx(r'.*pybind11::array::strides\(long\) const', lambda e, st, a, n, d, r: s.dim(st, 'strides', a[1]))
        s.rx(r'.*pybind11::array(_t<.*>)?::(mutable_)?data<>\(', lambda e, st, a, n, d, r: Ptr(s.data.id, 0))
        # Python objects
        s.rx(r'.*pybind11::detail::object_api<.*>::attr\(char const\*\) const', lambda e, st, a, n, d, r: s.ret(e, st, a[0], ('attr', s.m(e, st, a[1]), s.cs(st, a[2]))))
        s.rx(r'.*pybind11::detail::object_api<.*>::operator\(\)<', s.h_pycall)
        s.rx(r'.*pybind11::object::cast<', s.h_cast)
        s.rx(r'.*pybind11::cast<', s.h_cast)
        s.rx(r'pybind11::dtype pybind11::dtype::of<', lambda e, st, a, n, d, r: s.ret(e, st, a[0], ('dtypeof', targ(d, '::of<'))))
        s.rx(r'pybind11::detail::object_api<.*>::(is|equal|not_equal)\(|.*pybind11::detail::object_api<.*>::operator[!=]=\(', s.h_is)
        s.rx(r'pybind11::str::str\(', lambda e, st, a, n, d, r: s.ret(e, st, a[0], ('str', s.m(e, st, a[1]))))
        s.rx(r'(pybind11::object::object|pybind11::handle::handle|pybind11::dtype::dtype|pybind11::array(_t<.*>)?::array(_t)?)\((pybind11::\w+(<.*>)?) (const&|&&)\)|(pybind11::object::object)\(pybind11::object(&&| const&)\)', lambda e, st, a, n, d, r: e.store(st, a[0], 8, e.load(st, a[1], 8, PTR)))
        s.rx(r'EigenIPC::(Server|Client)<.*>::(write|read)\(', s.h_transfer)
    # -------------------------------------------------------------- abstract Python objects
    def ret(s, e, st, at, meta):
        o = e.new_obj('py', 16, 'ext'); s.meta[o.id] = meta
        e.store(st, at, 8, Ptr(o.id, 0))
    def m(s, e, st, p):
        v = e.load(st, p, 8, PTR)
        if isinstance(v, Ptr) and v.o in s.meta: return s.meta[v.o]
        raise ToolLimit('unknown Python object %r' % (v,))
    # -------------------------------------------------------------- registration
    def h_def(s, e, st, a, n, d, r):
        if '(pybind11::detail::initimpl' in d: return a[0]
        d = short(d)
        F = targ(d, '>::def<'); nm = s.cs(st, a[1])
        if not nm.const(): raise ToolLimit('binding name')
        fn = None
        c = e.m.find(lambda x: short(x).startswith(F + '::operator()('))
        if c: fn = c[0]
        elif '(*)(' in F:
            v = e.load(st, a[2], 8, PTR)
            if isinstance(v, Ptr): fn = e.objs[v.o].name
        s.defs.setdefault(nm.bytes().decode(), []).append((fn, bool(c), F))
        return a[0]
    # -------------------------------------------------------------- buffer
    def setup(s, e, size, scope):
        s.isz = size; s.data = e.new_obj('numpy data', None, 'pyarr'); s.shapeo = e.new_obj('shape', None, 'pyarr'); s.strideo = e.new_obj('strides', None, 'pyarr')
        s.nd = z3.BitVec('ndim', 64); s.shp = [z3.BitVec('shape%d' % i, 64) for i in range(2)]; s.std = [z3.BitVec('stride%d' % i, 64) for i in range(2)]
        s.axioms += [s.nd >= 0, s.nd <= 32] + [x >= 0 for x in s.shp] + [x < (1 << 31) for x in s.shp]
        s.off = None
    def arr(s, k): return s.nd
    def dim(s, st, what, i):
        s.e.oblige(st, 'C21', 'only existing dimensions of the array are looked at', nbool(z3.ULT(bv64(i), s.nd)))
        v = s.shp if what == 'shape' else s.std
        if isinstance(i, int): return v[i] if i < 2 else fresh_bv('dim', 64)
        raise ToolLimit('symbolic dimension')
    def special_load(s, st, o, off, size, ty):
        if o is s.shapeo or o is s.strideo:
            if not isinstance(off, int) or off % 8 or size != 8: raise ToolLimit('dimension access')
            return s.dim(st, o.name, off // 8)
        if o.kind == 'pyarr': s.e.oblige(st, 'C21', 'the binding itself touches no element', False)
        return s.e.havoc_ty(ty, size)
    def special_store(s, st, o, off, size, v, ty):
        if o.kind == 'pyarr': s.e.oblige(st, 'C21', 'the binding itself changes neither array nor its description', False)
    def probe(s, e, st, fn, p, n):
        o = e.new_obj('probe', 8 * n + 16, 'ext'); st = st.clone(); st.mem[o.id] = {}; st.own.add(o.id)
        x = e.call(st, fn, [p, Ptr(o.id, 0)] + ([Ptr(o.id, 8)] if n == 6 else []))
        if x.ret is None: raise ToolLimit('probe')
        return [x.ret.mem[o.id][8 * i][1] for i in range(n)]
    def h_request(s, e, st, a, n, d, r):
        st.mem.setdefault(a[0].o, {})
        f = s.probe(e, st, 'drv_py_info', a[0], 8)
        def put(p, k, size, v): e.store(st, e.padd(p, k), size, v)
        put(f[0], 0, 8, Ptr(s.data.id, 0)); put(f[1], 0, 8, s.isz); put(f[4], 0, 8, s.nd); put(f[2], 0, 8, fresh_bv('size', 64))
        s.puts(st, f[3], Str((('fmt', 'format'),))); put(f[7], 0, 1, fresh_bv('readonly', 8) & 1)
        n8 = s.nd * 8
        for k, o in ((5, s.shapeo), (6, s.strideo)):
            put(f[k], 0, 8, Ptr(o.id, 0)); put(f[k], 8, 8, Ptr(o.id, n8)); put(f[k], 16, 8, Ptr(o.id, n8))
        return None
    def h_copyinfo(s, e, st, a, n, d, r):
        if '&&' not in d and 'const&' not in d: raise ToolLimit('buffer_info constructor')
        return s.h_request(e, st, a, n, d, r)
    # -------------------------------------------------------------- transfer
    def h_transfer(s, e, st, a, n, d, r):
        O = lambda l, c: e.oblige(st, 'C21', l, c)
        op = re.search(r'>::(write|read)\(', d).group(1)
        T = s.T; cpp, sz, rm = INST[T]
        O('the transfer is a %s' % s.op, op == s.op)
        O('the transfer uses the object it was called on', isinstance(a[0], Ptr) and a[0] == s.self)
        O('row index passed through', eqp(sx(a[2]), sx(s.row))); O('column index passed through', eqp(sx(a[3]), sx(s.col)))
        O('at most one transfer', b_not(st.g.get('ntr', False)))
        st.g['ntr'] = True
        if 'Eigen::Map<' not in d: raise ToolLimit('transfer of something that is not a view')
        s.mute = True
        try: b, R, C, RS, CS, _ = s.probe(e, st, 'drv_py_view_' + T, a[1], 6)
        finally: s.mute = False
        s0, s1 = s.std
        accept = nbool(z3.And(s.nd == 2, z3.SRem(s0, bv64(sz)) == 0, z3.SRem(s1, bv64(sz)) == 0))
        O('an array that is not two-dimensional is refused', nbool(s.nd == 2))
        O('an array whose strides are not whole numbers of elements is refused', accept)
        bad = z3.And(s.shp[0] > 1, s.shp[1] > 1, s0 > 0, s1 > 0, s0 < s1 if rm else s0 > s1)
        O('an array whose memory order contradicts the layout is refused', b_not(nbool(bad)))
        st = st.clone(); st.assume(accept)
        O = lambda l, c: e.oblige(st, 'C21', l, c)
        O('view element (0,0) is array element (0,0)', isinstance(b, Ptr) and b.o == s.data.id and eqp(b.off, 0))
        O('the view has the rows of the array', eqp(R, s.shp[0])); O('the view has the columns of the array', eqp(C, s.shp[1]))
        O('one row further in the view is one row further in the array', b_or(eqp(bv64(RS) * sz, s0), nbool(s.shp[0] <= 1)))
        O('one column further in the view is one column further in the array', b_or(eqp(bv64(CS) * sz, s1), nbool(s.shp[1] <= 1)))
        v = fresh_bool('transferred'); s.results.append(v)
        return v
    # -------------------------------------------------------------- wrappers
    def h_is(s, e, st, a, n, d, r):
        x, y = s.m(e, st, a[0]), s.m(e, st, a[1])
        if x[0] == 'dtypeof': x, y = y, x
        neg = 'operator!=' in d or 'not_equal' in d
        if x == ('dtype', ('array',)) and y[0] == 'dtypeof' and y[1] in s.isT: v = s.isT[y[1]]
        else: v = fresh_bool('pyis')
        return b_not(v) if neg else v
    def h_cast(s, e, st, a, n, d, r):
        T = targ(short(d), 'cast<'); sret = T not in ('bool', 'EigenIPC::DType', 'PyEigenIPC::DType', 'int')
        try: m = s.m(e, st, a[1] if sret else a[0])
        except ToolLimit: m = None
        if m == ('call', ('attr', ('server',), Str((b'getScalarType',)))): return s.dt
        if T == 'bool': return s.rv.get(m, fresh_bool('pybool'))
        if T == 'string': s.puts(st, a[0], Str((('py', 'text'),))); return None
        if T == 'int': return fresh_bv('pyint', 32)
        raise ToolLimit('cast<%s>' % T)
    def h_pycall(s, e, st, a, n, d, r):
        m = s.m(e, st, a[1]); args = a[2:]
        if m[0] != 'attr' or m[1] != ('server',): raise ToolLimit('Python call')
        nm = m[2].bytes().decode() if m[2].const() else '?'
        if not args: s.ret(e, st, a[0], ('call', m)); return
        O = lambda l, c: e.oblige(st, 'C21', l, c)
        if nm not in ('write', 'read'): raise ToolLimit('Python call of ' + nm)
        O('the wrapper calls %s' % s.op, nm == s.op)
        O('the wrapper passes on the array itself', s.safe_m(e, st, args[0]) == ('array',))
        rc = [e.load(st, x, 4, INT(32)) for x in args[1:3]] if len(args) >= 3 else []
        O('the wrapper passes on row and column', len(rc) == 2 and b_and(eqp(sx(rc[0]), sx(s.row)), eqp(sx(rc[1]), sx(s.col))))
        O('at most one transfer', b_not(st.g.get('ntr', False)))
        st.g['ntr'] = True
        ok = False
        for k, t in CPP.items(): ok = b_or(ok, b_and(nbool(to_bv(s.dt, 32) == s.dtv[k]), s.isT[t]))
        O('an array of another element type is not transferred (its copy would be)', ok)
        k = ('call', m, 'tr%d' % len(s.results)); v = fresh_bool('transferred'); s.results.append(v); s.rv[k] = v
        s.ret(e, st, a[0], k)
    def safe_m(s, e, st, p):
        try: return s.m(e, st, p)
        except ToolLimit: return None

def world(mod, deadline, ctx):
    w = PyWorld(); e = Engine(mod, w); e.deadline = deadline; w.ctx = ctx; w.results = []; w.rv = {}
    return w, e

def find_defs(mod, fn, deadline):
    w, e = world(mod, deadline, fn)
    st = State(); o = e.new_obj('module', 8, 'ext'); st.mem[o.id] = {}; st.own.add(o.id)
    x = e.call(st, fn, [Ptr(o.id, 0)])
    return w.defs

def exact_one(w, e, st, val, cond):
    """on the returning states: value and transfers agree"""
    O = lambda l, c: e.oblige(st, 'C21', l, c)
    n = st.g.get('ntr', False); n = n if isinstance(n, bool) or is_sym(n) else False
    v = nbool(zb(to_bool(val)))
    tr = False
    for r in w.results: tr = b_or(tr, nbool(v == r) if len(w.results) == 1 else r)
    O('true is returned only after a transfer', b_or(b_not(v), n))
    if len(w.results) == 1: O('the result of the transfer is returned', b_or(b_not(n), nbool(zb(v) == zb(w.results[0]))))
    elif w.results: O('true is returned only if a transfer succeeded', b_or(b_not(v), tr))
    O('a suitable array is transferred', b_or(b_not(cond), n))

def lambda_task(mod, T, who, op, deadline):
    cpp, sz, rm = INST[T]; limits = []
    w, e = world(mod, deadline, '%s<%s>.%s' % ({'S': 'Server', 'C': 'Client'}[who], T, op))
    try:
        defs = find_defs(mod, 'drv_py_bind%s_%s' % (who, T), deadline).get(op, [])
        e.oblige(State(), 'C21', 'a function is registered under the name %s' % op, bool(defs))
        for fn, islam, F in defs:
            if fn is None: raise ToolLimit('registered function not found: ' + F[-100:])
            w.setup(e, sz, T); w.T, w.op = T, op
            w.row, w.col = z3.BitVec('row', 32), z3.BitVec('col', 32)
            st = State(); st.g['ntr'] = False; o = e.new_obj('self', None, 'ext'); arr = e.new_obj('array', 8, 'ext'); py = e.new_obj('PyObject', 16, 'ext'); w.meta[py.id] = ('array',)
            lam = e.new_obj('lambda', 8, 'ext')
            for x in (o, arr, py, lam): st.mem[x.id] = {}; st.own.add(x.id)
            st.w(arr.id)[0] = (8, Ptr(py.id, 0))
            w.self = Ptr(o.id, 0)
            x = e.call(st, fn, ([Ptr(lam.id, 0)] if islam else []) + [w.self, Ptr(arr.id, 0), w.row, w.col])
            s0, s1 = w.std
            good = nbool(z3.And(w.nd == 2, z3.SRem(s0, bv64(sz)) == 0, z3.SRem(s1, bv64(sz)) == 0, s0 > 0, s1 > 0, s0 >= s1 if rm else s1 >= s0))
            if x.thr is not None and live(e, x.thr): e.oblige(x.thr, 'C21', 'a refused array is refused with false, not an exception', False)
            if x.ret is not None and live(e, x.ret): exact_one(w, e, x.ret, x.val, good)
            else: e.oblige(State(), 'C21', 'the call returns', False)
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx, ex))
    return result(e, limits)

def wrapper_task(mod, who, op, deadline):
    limits = []
    w, e = world(mod, deadline, '%sWrapper.%s' % ({'S': 'Server', 'C': 'Client'}[who], op))
    try:
        defs = find_defs(mod, 'drv_py_wrap' + who, deadline).get(op, [])
        e.oblige(State(), 'C21', 'a function is registered under the name %s' % op, bool(defs))
        for fn, islam, F in defs:
            if fn is None: raise ToolLimit('registered function not found: ' + F[-100:])
            w.setup(e, z3.BitVec('itemsize', 64), ''); w.op = op
            w.row, w.col = z3.BitVec('row', 32), z3.BitVec('col', 32); w.dt = z3.BitVec('dtype', 32)
            w.isT = {t: z3.Bool('is_' + t) for t in CPP.values()}
            L = list(w.isT.values()); w.axioms += [z3.Not(z3.And(L[i], L[j])) for i in range(4) for j in range(i)]
            w.dtv = {k: e.call(State(), 'drv_py_dtype_' + k, []).val for k in CPP}
            st = State(); st.g['ntr'] = False
            names = ('wrapper', 'object', 'srv', 'array', 'arr', 'lambda')
            ob = {n: e.new_obj(n, 16, 'ext') for n in names}
            for x in ob.values(): st.mem[x.id] = {}; st.own.add(x.id)
            w.meta[ob['srv'].id] = ('server',); w.meta[ob['arr'].id] = ('array',)
            P = lambda n: Ptr(ob[n].id, 0)
            st.w(ob['wrapper'].id)[0] = (8, P('object')); st.w(ob['object'].id)[0] = (8, P('srv')); st.w(ob['array'].id)[0] = (8, P('arr'))
            x = e.call(st, fn, ([P('lambda')] if islam else []) + [P('wrapper'), P('array'), w.row, w.col])
            ok = False
            for k, t in CPP.items(): ok = b_or(ok, b_and(nbool(w.dt == w.dtv[k]), w.isT[t]))
            if x.thr is not None and live(e, x.thr): e.oblige(x.thr, 'C21', 'an array of the right element type is not rejected', b_not(ok))
            if x.ret is not None and live(e, x.ret): exact_one(w, e, x.ret, x.val, ok)
            else: e.oblige(State(), 'C21', 'the call returns', False)
    except (ToolLimit, Unsupported) as ex: limits.append((w.ctx, ex))
    return result(e, limits)

FLAGS = ['-I%s/EigenIPC/bindings/PyEigenIPC/%s' % (runner.REPO, x) for x in ('include', 'src')] + ['-I/usr/include/python3.12']
def tasks(prop, d, tier, budget):
    import time
    mod = Module(runner.build_ir(d, 'drv_py', FLAGS)); dl = time.time() + budget
    T = []
    for who in 'SC':
        for op in ('write', 'read'):
            T.append(('%sWrapper.%s' % (who, op), lambda who=who, op=op: wrapper_task(mod, who, op, dl)))
            for k in INST: T.append(('%s<%s>.%s' % (who, k, op), lambda k=k, who=who, op=op: lambda_task(mod, k, who, op, dl)))
    mod.demangle('')
    return T

def native_exe(d, prop, script='native_py'):
    """the extension module, compiled from the current sources"""
    B = os.path.join(runner.REPO, 'EigenIPC/bindings/PyEigenIPC'); S = os.path.join(runner.REPO, 'EigenIPC/src')
    src = [os.path.join(B, 'PyEigenIPC.cpp')] + [os.path.join(x, f) for x in (B + '/src', S) for f in sorted(os.listdir(x)) if f.endswith('.cpp')]
    ps = [(f, subprocess.Popen(['g++', '-std=gnu++17', '-O0', '-w', '-fPIC', '-fvisibility=hidden', '-DNDEBUG', '-c', f, '-o', os.path.join(d, '%d.o' % i)] + runner.INC + FLAGS, stderr=subprocess.PIPE, text=True)) for i, f in enumerate(src)]
    for f, p in ps:
        er = p.communicate()[1]
        if p.returncode: raise runner.BuildError('g++ failed on %s:\n%s' % (f, er[-2000:]))
    r = subprocess.run(['g++', '-shared', '-o', os.path.join(d, 'PyEigenIPC.so')] + [os.path.join(d, '%d.o' % i) for i in range(len(src))] + ['-lrt', '-lpthread'], capture_output=True, text=True)
    if r.returncode: raise runner.BuildError('link failed:\n' + r.stderr[-2000:])
    with open(os.path.join(d, script + '.py'), 'w') as f: f.write(open(os.path.join(runner.VERIF, 'cxx/%s.py' % script)).read())
    x = os.path.join(d, script)
    open(x, 'w').write('#!/bin/sh\nexec /usr/bin/python3 -B %s/%s.py "$@"\n' % (d, script)); os.chmod(x, 0o755)
    return x

TRUSTED = [
    'clang 18 front end and mem2reg/loop-simplify/lcssa (the verified text is the LLVM IR of the unmodified sources compiled against the real pybind11 headers, re-generated on every run, -DNDEBUG)',
    'the verification-condition generator eipcv/symex.py and z3',
    'assumed contracts of pybind11: buffer::request describes the array (itemsize = element size, ndim strides and extents), class_::def registers the function under the name, attribute access, call and cast of Python objects, dtype identity, reference counts; array_t arguments of the right element type are passed without a copy',
    'assumed contract of Server/Client::write and read of a view (they are the subject of C01, C02, C05)',
    'array extents below 2^31; addresses are computed modulo 2^64',
]
