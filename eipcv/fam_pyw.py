"""C22: the Python wrappers (shared_data_view.py, shared_tensor_dict.py).  Their unmodified source is executed by eipcv/pyexec.py on symbolic
shapes, indexes, names and contents; numpy, torch, the extension module and the Journal by contract."""
import os, subprocess, time, z3
import runner
from pyexec import *
DIR = 'EigenIPC/bindings/PyEigenIPC/wrappers'
TAGS = {'int': {'int'}, 'bool': {'bool', 'int'}, 'float': {'float'}, 'numpy.float64': {'numpy.float64', 'float'}, 'numpy.float32': {'numpy.float32'}}

class W(PX):
    def __init__(s, root, prop='C22'):
        super().__init__(root); s.strict = False
    def reset(s, dec):
        super().reset(dec); s.grants = []; s.stopped = False; s.ltens = {}; s.shdt = {}; s.gpu = set(); s.ntr = 0; s.lem = set(); s.race = None; s.tau = 0; s.events = []; s.sure = False
    # ---- types
    def tags(s, v):
        if isinstance(v, Elem): return TAGS.get(v.tag, {v.tag})
        if isinstance(v, Sym): return TAGS.get(getattr(v, 'tag', ''), {getattr(v, 'tag', 'opaque')})
        if boo(v): return {'bool', 'int'}
        if num(v): return {'int'}
        if isinstance(v, float): return {'float'}
        if isinstance(v, Arr): return {'torch.Tensor' if v.st in s.gpu else 'numpy.ndarray'}
        if isinstance(v, (str, Txt)): return {'str'}
        if v is None: return {'NoneType'}
        if isinstance(v, Lst): return {'list'}
        if isinstance(v, Tup): return {'tuple', 'list'}
        raise ToolLimit('type of ' + type(v).__name__)
    def isinst(s, v, t):
        if isinstance(t, Tup): return any(s.isinst(v, x) for x in t.v)
        if isinstance(t, Ext):
            n = {'numpy.float_': 'numpy.float64', 'numpy.double': 'numpy.float64', 'numpy.single': 'numpy.float32', 'numbers.Number': 'float'}.get(t.name, t.name)
            return n in s.tags(v)
        raise ToolLimit('isinstance')
    def dt(s, v):
        if isinstance(v, Ext): return v.name[len('npdtype:'):] if v.name.startswith('npdtype:') else v.name
        raise ToolLimit('dtype')
    def grant(s): return True if s.sure else s.fresh('granted', z3.BoolSort())
    # ---- a client that runs while the server is still starting: before each of its operations the server may have made any number of steps
    def event(s, k):
        if s.race is None: s.events.append((k, s.sh[k]))
    def other(s, k):
        if s.race is None: return
        ev = [x for x, (q, _) in enumerate(s.events) if q == k]
        if not ev: s.sh.pop(k, None); return
        past = [x for x in ev if x <= s.tau]; later = [x for x in ev if x > s.tau]
        if past: opts = [past[-1]] + later
        else: opts = later                # waits until the memory exists
        for x in opts[:-1]:
            if s.branch(s.fresh('the other process waits', z3.BoolSort())): break
        else: x = opts[-1]
        s.tau = max(s.tau, x); s.sh[k] = s.events[x][1]
    def snapshot(s, fr): return dict(super().snapshot(fr), tau=s.tau)
    def covered(s, a, b): return a['tau'] == b['tau'] and super().covered(a, b)
    # ---- the shared tensor: contract of Server/Client (C01, C02, C05, C06)
    def fits(s, r, c, h, w, R, C): return And(simp(I(r) >= 0), simp(I(c) >= 0), simp(I(r) < I(R)), simp(I(c) < I(C)), simp(I(r) + I(h) <= I(R)), simp(I(c) + I(w) <= I(C)))
    def transfer(s, m, v, r, c, read):
        if not isinstance(v, Arr): raise PyRaise('TypeError', 'argument of a transfer')
        if not num(r) or not num(c): raise PyRaise('TypeError', 'index of a transfer')
        if v.ndim != 2 or s.stores[v.st].dt != s.shdt[m.key] or v.st in s.gpu: raise PyRaise('exception', 'array not accepted')
        if not m.server: s.other(m.key)
        g = s.grant(); ok = And(s.fits(r, c, v.nr, v.nc, m.R, m.C), g)
        s.grants.append(g); s.ntr += 1
        sh, lo = s.sh[m.key], s.stores[v.st]; sf, lf = sh.fn, lo.fn; z = zb(ok)
        if read: s.stores[v.st] = Store(lambda i, j: z3.If(z3.And(z, s.inside(v, i, j)), sf(I(i) - I(v.r0) + I(r), I(j) - I(v.c0) + I(c)), lf(i, j)), lo.R, lo.C, lo.dt, lo.order)
        else: s.sh[m.key] = Store(lambda i, j: z3.If(z3.And(z, I(i) >= I(r), I(i) < I(r) + I(v.nr), I(j) >= I(c), I(j) < I(c) + I(v.nc)), lf(I(i) - I(r) + I(v.r0), I(j) - I(c) + I(v.c0)), sf(i, j)), sh.R, sh.C, sh.dt, sh.order); s.event(m.key)
        return ok
    def cells(s, n): return s.fresh(n, None) if 0 else (lambda f: lambda i, j: f(I(i), I(j)))(z3.Function('%s!%d' % (n, s.tick(n)), z3.IntSort(), z3.IntSort(), Val))
    def tick(s, n):
        k = s.nf.get('fn ' + n, 0); s.nf['fn ' + n] = k + 1; return k
    def strs(s, n): return (lambda f: lambda i: f(I(i)))(z3.Function('%s!%d' % (n, s.tick(n)), z3.IntSort(), StrS))
    def shapearg(s, v):
        if isinstance(v, Tup) and len(v.v) == 2: return v.v
        raise ToolLimit('shape')
    def key(s, kw):
        b, n = kw.get('basename', ''), kw.get('namespace', kw.get('name_space', ''))
        f = lambda x: x if isinstance(x, str) else 'sym_' + x.name if isinstance(x, Sym) else None
        if f(b) is None or f(n) is None: raise ToolLimit('name')
        return (f(n), f(b))
    def args(s, a, kw, names):
        d = dict(zip(names, a)); d.update(kw); return d
    # ---- everything outside
    def world(s, f, nm, a, kw):
        o = f.o if isinstance(f, XMeth) else None
        nm = {'EigenIPC.Logger.log': 'EigenIPC.Journal.log'}.get(nm, nm)
        if nm == 'EigenIPC.Journal.log':
            d = s.args(a, kw, ['classname', 'methodname', 'message', 'log_type', 'throw_when_excep'])
            t = d.get('log_type')
            if isinstance(t, Ext) and t.name.endswith('.EXCEP') and d.get('throw_when_excep', False) is True: raise PyRaise('exception', 'Journal.log')
            return None
        if nm in ('EigenIPC.ServerFactory', 'EigenIPC.ClientFactory'):
            sv = nm.endswith('ServerFactory')
            if a: raise ToolLimit('positional arguments')
            k = s.key(kw); m = Shm(k, sv, kw.get('n_rows'), kw.get('n_cols')); m.dt = s.dtname(kw.get('dtype')); m.run = False
            if sv and not (num(m.R) and num(m.C)): raise PyRaise('TypeError', 'shape')
            if kw.get('layout', None) is not None and not (isinstance(kw['layout'], Ext) and kw['layout'].name.endswith('.RowMajor')): m.order = 'F'
            else: m.order = 'C'
            m.safe = kw.get('safe'); s.ltens.setdefault(k, []).append(m)
            return m
        if isinstance(o, Shm): return s.shm(o, nm, a, kw)
        if nm in ('EigenIPC.StringTensorServer', 'EigenIPC.StringTensorClient'):
            sv = nm.endswith('Server')
            if a: raise ToolLimit('positional arguments')
            return StrT(s.key(kw), sv, kw.get('length'))
        if isinstance(o, StrT): return s.strt(o, nm, a, kw)
        if nm == 'EigenIPC.toNumpyDType': return Ext('npdtype:' + s.dtname(a[0]))
        if nm in ('numpy.full', 'numpy.zeros', 'numpy.empty', 'numpy.ones'):
            d = s.args(a, kw, ['shape', 'fill_value', 'dtype', 'order'] if nm == 'numpy.full' else ['shape', 'dtype', 'order'])
            R, C = s.shapearg(d['shape']); dt = s.dt(d['dtype']) if d.get('dtype') is not None else 'numpy.float64'
            if nm == 'numpy.empty': fn = s.cells('uninitialised')
            else:
                x = s.scalar(d['fill_value'] if nm == 'numpy.full' else 1 if nm == 'numpy.ones' else 0, dt); fn = lambda i, j: x
            return s.newarr(fn, R, C, dt, d.get('order', 'C'))
        if nm in ('numpy.array', 'numpy.asarray'):
            d = s.args(a, kw, ['object', 'dtype']); x = d['object']
            if isinstance(x, Lst):
                ls = s.lists[x.id]
                if not ls.kind: raise ToolLimit('array of a list')
                return s.newarr(lambda i, j: toV(I(ls.fn(j))), 1, ls.n, s.dt(d['dtype']), 'C', 1)
            if isinstance(x, Arr) and 'dtype' not in d: return s.copy(x) if nm == 'numpy.array' else x
            raise ToolLimit('numpy.array')
        if nm == 'numpy.atleast_2d':
            x = a[0]
            if isinstance(x, Arr): return Arr(x.st, x.r0, x.nr, x.c0, x.nc, 2)
            if isinstance(x, (Elem, Sym, float)) or num(x): raise ToolLimit('atleast_2d of a scalar')
        if nm == 'numpy.copy': return s.copy(a[0])
        if nm == 'torch.from_numpy': return a[0]
        if nm == 'torch.cuda.is_available': return s.fresh('cuda', z3.BoolSort())
        if nm.startswith('array.'): return s.array(o, nm[6:], a, kw)
        if nm == 'Elem.item': return Elem(o.v, 'python')
        if nm.startswith('list.'):
            n = nm[5:]
            if n == 'index':
                q = s.lookup(o, a[0])
                if q is None: raise PyRaise('ValueError', 'not in list')
                return q
            if n == 'copy': x = Lst(s.newid()); s.lists[x.id] = s.lists[o.id]; return x
            if n == 'append' and 0: pass
        if nm == 'len':
            x = a[0]
            if isinstance(x, Lst): return s.lists[x.id].n
            if isinstance(x, Tup): return len(x.v)
            if isinstance(x, Arr): return x.nr if x.ndim == 2 else x.nc
            if x is None: raise PyRaise('TypeError', 'len')
        if nm == 'range':
            if len(a) == 1: return Range(0, a[0])
            if len(a) == 2: return Range(a[0], a[1])
        if nm == 'list' and len(a) == 1 and isinstance(a[0], Lst): x = Lst(s.newid()); s.lists[x.id] = s.lists[a[0].id]; return x
        if nm == 'isinstance': return s.isinst(a[0], a[1])
        if nm == 'slice' and 1 <= len(a) <= 2: return Slc(*([None] + a if len(a) == 1 else a))
        if nm == 'numpy.s_[]' : return NotImplemented
        if nm == 'getattr' and len(a) == 2 and isinstance(a[1], str): return s.attr(a[0], a[1], None)
        if nm == 'numpy.copyto' and isinstance(a[0], Arr): s.setblock(a[0], a[1]); return None
        if nm == 'numpy.ndim': return s.attr(a[0], 'ndim', None)
        if nm == 'numpy.shape': return s.attr(a[0], 'shape', None)
        if nm in ('tuple', 'list') and len(a) == 1 and isinstance(a[0], Tup): return a[0]
        if nm == 'abs' and len(a) == 1 and num(a[0]): return Ite(simp(I(a[0]) < 0), simp(-I(a[0])), a[0])
        if nm in ('all', 'any') and len(a) == 1 and isinstance(a[0], Tup): return (And if nm == 'all' else Or)(*[x if boo(x) else s.truth(x) for x in a[0].v])
        if nm == 'type': return Txt()
        if nm in ('str', 'print', 'object.__init__') or nm.startswith('str.'): return Txt()
        if nm == 'hasattr' and isinstance(a[0], Obj):
            return a[1] in s.heap[a[0].id] or s.find(a[0].cls, a[1]) is not None
        if nm == 'int' and len(a) == 1 and num(a[0]) and not boo(a[0]): return a[0]
        if nm == 'bool' and len(a) == 1: return s.truth(a[0])
        if nm == 'sum' and len(a) == 1 and isinstance(a[0], Lst):
            ls = s.lists[a[0].id]
            if ls.kind:
                p = prefix(ls.fn, ls.kind); s.facts.append(p(z3.IntVal(0)) == 0); return simp(p(I(ls.n)))
        if nm == 'min' and len(a) == 1 and isinstance(a[0], Lst) and s.lists[a[0].id].kind:
            ls = s.lists[a[0].id]
            if s.branch(simp(I(ls.n) < 1)): raise PyRaise('ValueError', 'min')
            q, x = s.fresh('least'), z3.Int('i?m'); s.facts += [q >= 0, q < I(ls.n), z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < I(ls.n)), ls.fn(q) <= ls.fn(x)))]
            return simp(I(ls.fn(q)))
        if nm in ('min', 'max') and len(a) == 2 and num(a[0]) and num(a[1]):
            c = simp(I(a[0]) <= I(a[1])); return Ite(c, a[0], a[1]) if nm == 'min' else Ite(c, a[1], a[0])
        if nm in ('Exception', 'ValueError', 'RuntimeError', 'IndexError', 'TypeError'): return Txt()
        return NotImplemented
    def dtname(s, v):
        if isinstance(v, Ext): return v.name
        if isinstance(v, Sym): return 'sym_' + v.name
        raise ToolLimit('dtype')
    def copy(s, x):
        lo = s.stores[x.st]; f, r0, c0 = lo.fn, x.r0, x.c0
        y = s.newarr(lambda i, j: f(I(i) + I(r0), I(j) + I(c0)), x.nr, x.nc, lo.dt, 'C', x.ndim)
        if x.st in s.gpu: s.gpu = s.gpu | {y.st}
        return y
    def array(s, o, n, a, kw):
        if n == 'copy' or n == 'clone': return s.copy(o)
        if n == 'requires_grad_' or n == 'detach' or n == 'numpy': return o
        if n in ('cpu', 'to', 'cuda'):
            d = 'cpu' if n == 'cpu' else 'cuda' if n == 'cuda' else a[0]
            if d not in ('cpu', 'cuda'): raise ToolLimit('device')
            if (d == 'cuda') == (o.st in s.gpu): return o
            nb = kw.get('non_blocking', False)
            y = s.copy(o); g = s.gpu - {y.st}; s.gpu = g | {y.st} if d == 'cuda' else g
            if d == 'cpu' and nb is not False:      # the copy may be read before it has been made
                if s.branch(nb if boo(nb) else True):
                    x = s.cells('unfinished'); st = s.stores[y.st]; s.stores[y.st] = Store(x, st.R, st.C, st.dt, st.order)
            return y
        if n in ('zero_', 'fill', 'fill_'):
            s.setblock(Arr(o.st, o.r0, o.nr, o.c0, o.nc), 0 if n == 'zero_' else a[0]); return o
        if n == 'flatten' or n == 'ravel' or n == 'squeeze':
            if n != 'flatten': raise ToolLimit('array.' + n)
            if o.ndim == 1: return s.copy(o)
            y = s.copy(o); f = s.stores[y.st].fn
            if s.branch(eq(o.nc, 1)): return s.newarr(lambda i, j: f(I(j), z3.IntVal(0)), 1, o.nr, s.stores[o.st].dt, 'C', 1)
            raise ToolLimit('flatten')
        if n == 'reshape':
            sh = a[0].v if len(a) == 1 and isinstance(a[0], Tup) else a
            lo = s.stores[o.st]; f = lo.fn
            if len(sh) == 2 and o.ndim == 1 and s.valid(eq(sh[1], 1)) if len(sh) == 2 else False:
                if not (isinstance(sh[0], int) and sh[0] == -1) and s.branch(Not(eq(sh[0], o.nc))): raise PyRaise('ValueError', 'reshape')
                return s.newarr(lambda i, j: f(I(o.r0), I(o.c0) + I(i)), o.nc, 1, lo.dt)
            raise ToolLimit('reshape')
        if n == 'tolist':
            if o.ndim != 1: raise ToolLimit('tolist')
            lo = s.stores[o.st]; f = lo.fn; fn = lambda k: fromV(f(I(o.r0), I(o.c0) + I(k)))
            kind = 'list%d' % s.tick('tolist'); i = z3.Int('i?')
            for ls in s.lists.values():
                if ls.kind and s.check(i >= 0, i < I(o.nc), Not(eq(fn(i), ls.fn(i))))[0] == 'unsat' and s.valid(simp(I(o.nc) <= I(ls.n))): kind = ls.kind; break
            c = None
            for v in (0, -1) if kind.startswith('list') else ():
                if s.check(i >= 0, i < I(o.nc), fn(i) != v)[0] == 'unsat': c = v
            if c is not None: p = prefix(fn, kind); s.facts.append(p(I(o.nc)) == c * I(o.nc))     # the sum of a constant
            x = Lst(s.newid()); s.lists[x.id] = LStore(o.nc, fn, kind); return x
        if n == 'item' and s.valid(And(eq(o.nr, 1), eq(o.nc, 1))): return Elem(s.stores[o.st].fn(I(o.r0), I(o.c0)), 'python')
        return NotImplemented
    def shm(s, m, nm, a, kw):
        n = nm[4:]
        if n == 'run' and m.server:
            s.sh[m.key] = Store((lambda i, j: toV(I(0))) if s.strict else s.cells('initial'), m.R, m.C, m.dt, m.order); s.shdt[m.key] = m.dt; m.run = True; s.event(m.key); return None
        if n == 'attach' and not m.server:
            s.other(m.key)
            if m.key not in s.sh:
                if s.strict: raise PyRaise('exception', 'attach: no such memory')
                s.preload(m.key, m.dt)
            t = s.sh[m.key]
            if t.dt != m.dt: raise PyRaise('exception', 'attach: other type')
            m.R, m.C, m.order, m.run = t.R, t.C, t.order, True; return None
        if n == 'getNRows' and (m.run or m.server): return m.R
        if n == 'getNCols' and (m.run or m.server): return m.C
        if n == 'getScalarType': return Ext(m.dt)
        if n == 'isRunning':
            v = s.fresh('running', z3.BoolSort())
            if not s.branch(v): s.stopped = True; return False
            return True
        if n in ('write', 'read'):
            d = s.args(a, kw, ['write' if n == 'write' else 'output', 'row', 'col']); v = list(d.values())
            if not m.run: return False
            return s.transfer(m, a[0] if a else v[0], d.get('row', 0), d.get('col', 0), n == 'read')
        if n == 'getNClients': return s.fresh('clients')
        if n in ('close', 'stop', 'detach', 'dataSemAcquire', 'dataSemRelease', 'dataSemAcquireDt'): return None
        return NotImplemented
    def preload(s, k, dt):
        R, C = s.fresh('rows'), s.fresh('cols'); s.facts += [R >= 1, C >= 1, R < 2 ** 31, C < 2 ** 31]
        s.sh[k] = Store(s.cells('initial'), R, C, dt, 'C'); s.shdt[k] = dt
    def strt(s, m, nm, a, kw):
        n = nm[5:]; k = ('names',) + m.key
        if n == 'run':
            if m.server: s.sh[k] = LStore(m.n, s.strs('initial'), ''); s.event(k)
            else:
                s.other(k)
                if k not in s.sh: raise PyRaise('exception', 'attach: no such memory')
                m.n = s.sh[k].n
            return None
        if n in ('length', 'getLength'): return m.n
        if n in ('write_vec', 'read_vec'):
            d = s.args(a, kw, ['str_list', 'index']); l, q = a[0], d.get('index', 0)
            if not isinstance(l, Lst): raise PyRaise('TypeError', 'list')
            if not m.server: s.other(k)
            ls, sh = s.lists[l.id], s.sh[k]; g = s.grant(); s.grants.append(g)
            ok = zb(And(simp(I(q) >= 0), simp(I(ls.n) > 0), simp(I(q) + I(ls.n) <= I(m.n)), g)); lf, sf = ls.fn, sh.fn
            if n == 'write_vec': s.sh[k] = LStore(sh.n, lambda i: z3.If(z3.And(ok, I(i) >= I(q), I(i) < I(q) + I(ls.n)), lf(I(i) - I(q)), sf(i)), ''); s.event(k)
            else: s.lists[l.id] = LStore(ls.n, lambda i: z3.If(ok, sf(I(i) + I(q)), lf(i)), '')
            return simp(ok)
        if n == 'close': return None
        return NotImplemented
    def unique(s, ls, q, v):
        i = z3.Int('i?u'); s.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(ls.n), ls.fn(i) == v), i == q)))
    def absent(s, ls, v):
        i = z3.Int('i?a'); s.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(ls.n)), ls.fn(i) != v)))

# ------------------------------------------------------------------------------------------------ the tensor view
i, j = z3.Int('cell_row'), z3.Int('cell_col')
class T:
    """one wrapper with arbitrary mirror and shared contents"""
    def __init__(t, w, server, fill, torch, gpu=False):
        t.w = w; t.server = server
        kw = dict(namespace=Sym('ns'), basename=Sym('base'), is_server=server, dtype=Ext('sym_M'), with_torch_view=torch, with_gpu_mirror=gpu)
        if server:
            t.R, t.C = w.fresh('R'), w.fresh('C'); w.facts += [t.R >= 1, t.C >= 1, t.R < 2 ** 31, t.C < 2 ** 31]; kw.update(n_rows=t.R, n_cols=t.C)
        if fill is not None: kw['fill_value'] = fill
        t.kw = kw; t.key = ('sym_ns', 'sym_base'); t.fill = fill
        if not server: w.preload(t.key, 'sym_M'); t.R, t.C = w.sh[t.key].R, w.sh[t.key].C
        w.facts += [i >= 0, i < t.R, j >= 0, j < t.C]
        t.sh0 = w.sh[t.key].fn if not server else None
        t.o = w.instantiate(w.module('shared_data_view')['SharedTWrapper'], [], kw)
        w.method(t.o, 'run')
    def check_run(t):
        w = t.w; v = t.view(); m = w.stores[v.st]
        w.oblige('run: the mirror has the shape of the shared tensor', And(eq(v.nr, t.R), eq(v.nc, t.C), eq(w.attr(t.o, 'n_rows', None), t.R), eq(w.attr(t.o, 'n_cols', None), t.C)))
        w.oblige('run: the mirror has the element type and the layout of the shared tensor', m.dt == w.shdt[t.key] == 'sym_M' and m.order == w.sh[t.key].order)
        w.oblige('run: the wrapper reports that it runs', eq(w.method(t.o, 'is_running'), True) if boo(w.method(t.o, 'is_running')) else False)
        x = w.scalar(t.fill, m.dt) if t.fill is not None else toV(I(0))
        w.oblige('run: the mirror holds the fill value (zero without one)', simp(t.mirror()(i, j) == x))
        if t.server:
            if t.fill is not None: w.oblige('run: the server writes the fill value to every cell of the shared tensor', simp(t.shared()(i, j) == x))
        else: w.oblige('run: a client leaves the shared tensor as it is', simp(t.shared()(i, j) == t.sh0(i, j)))
    def view(t):
        v = t.w.method(t.o, 'get_numpy_mirror')
        if not isinstance(v, Arr): raise ToolLimit('mirror')
        return v
    def mirror(t):
        v = t.view(); f = t.w.stores[v.st].fn
        return lambda a, b: f(I(a) + I(v.r0), I(b) + I(v.c0))
    def shared(t): return t.w.sh[t.key].fn
    def havoc(t):
        w = t.w; v = t.view(); st = w.stores[v.st]; w.stores[v.st] = Store(w.cells('mirror'), st.R, st.C, st.dt, st.order)
        x = w.sh[t.key]; w.sh[t.key] = Store(w.cells('shared'), x.R, x.C, x.dt, x.order)
        t.m, t.s = t.mirror(), t.shared(); w.grants = []; w.stopped = False; w.ntr = 0
    def same(t, what, f, g): t.w.oblige(what, simp(f(i, j) == g(i, j)))
    def inb(t, r, c, h, w): return z3.And(i >= I(r), i < I(r) + I(h), j >= I(c), j < I(c) + I(w))
    def fits(t, r, c, h, w): return And(simp(I(r) >= 0), simp(I(c) >= 0), simp(I(h) >= 0), simp(I(w) >= 0), simp(I(r) + I(h) <= t.R), simp(I(c) + I(w) <= t.C))

def outcome(w, f):
    try: return ('ret', f())
    except PyRaise as x: return ('raise', x)
def asbool(w, v):
    """what the caller sees: true or not"""
    if v is None: return False
    if boo(v): return v
    raise ToolLimit('result of type ' + type(v).__name__)
KINDS = ('int', 'bool', 'float', 'numpy.float32', 'numpy.float64')
def scalar_in(w, k):
    if k == 'int': return w.fresh('number')
    if k == 'bool': return w.fresh('flag', z3.BoolSort()) if 0 else w.branch(w.fresh('flag', z3.BoolSort()))
    if k == 'float': x = Sym('number'); x.tag = 'float'; return x
    return Elem(z3.Const('number_v', Val), k)
def array_in(w, nd=2, dt='sym_D'):
    h, n = w.fresh('h'), w.fresh('w'); w.facts += [h >= 0, n >= 0, h < 2 ** 31, n < 2 ** 31]
    return w.newarr(w.cells('data'), h if nd == 2 else 1, n, dt, 'C', nd)
def rc(w): return w.fresh('row'), w.fresh('col')
def done(w): return And(*w.grants) if w.grants else True

def t_write(w, t, kind, meth='write'):
    r, c = rc(w)
    if kind == 'array': d = array_in(w); h, n = d.nr, d.nc; f = w.stores[d.st].fn; want = lambda a, b: w.cast(f(I(a) - I(r), I(b) - I(c)), 'sym_M', 'sym_D')
    elif kind == 'row': d = array_in(w, 1)
    else: d = scalar_in(w, kind); h = n = 1; one = w.scalar(d, 'sym_M'); want = lambda a, b: one
    x = outcome(w, lambda: w.method(t.o, meth, data=d, row_index=r, col_index=c))
    if kind == 'row':
        ok = False
        if x[0] == 'ret': w.oblige('%s: an array that is not two-dimensional is refused' % meth, Not(asbool(w, x[1])))
        t.same('%s refused: the shared tensor is unchanged' % meth, t.shared(), t.s); t.same('%s refused: the mirror is unchanged' % meth, t.mirror(), t.m); return
    fit = t.fits(r, c, h, n); B = t.inb(r, c, h, n)
    ne = And(simp(I(h) >= 1), simp(I(n) >= 1))
    if x[0] == 'raise':
        w.oblige('%s: data that fits is not rejected' % meth, Not(And(fit, ne)))
        t.same('%s refused: the shared tensor is unchanged' % meth, t.shared(), t.s); t.same('%s refused: the mirror is unchanged' % meth, t.mirror(), t.m); return
    if meth == 'write':
        ok = asbool(w, x[1])
        w.oblige('write: reports success exactly when the data fits and the transfer is granted', simp(z3.Implies(zb(ne), zb(ok) == z3.And(zb(fit), zb(done(w))))))
        w.oblige('write: success is reported only after a transfer', simp(z3.Implies(z3.And(zb(ok), zb(ne)), z3.BoolVal(w.ntr > 0))))
    else: ok = True if not w.stopped else False
    mv, sv = t.mirror(), t.shared()
    w.oblige('%s: no cell of the mirror outside the requested block changes' % meth, simp(z3.Implies(z3.Not(z3.And(zb(fit), B)), mv(i, j) == t.m(i, j))))
    w.oblige('%s: no cell of the shared tensor outside the requested block changes' % meth, simp(z3.Implies(z3.Not(z3.And(zb(fit), B)), sv(i, j) == t.s(i, j))))
    if meth == 'write' or not w.stopped:
        w.oblige('%s: after success the requested block of the shared tensor and of the mirror holds the data' % meth, simp(z3.Implies(z3.And(zb(ok), B), z3.And(sv(i, j) == want(i, j), mv(i, j) == want(i, j)))))
    if meth == 'write': w.oblige('write: without success the shared tensor is unchanged', simp(z3.Implies(z3.Not(zb(ok)), sv(i, j) == t.s(i, j))))

def t_read(w, t, kind, meth='read'):
    r, c = rc(w); d = None; h = n = 1
    if kind == 'array': d = array_in(w); h, n = d.nr, d.nc
    elif kind == 'row': d = array_in(w, 1)
    f0 = w.stores[d.st].fn if d is not None else None
    x = outcome(w, lambda: w.method(t.o, meth, row_index=r, col_index=c, data=d))
    t.same('%s: the shared tensor is unchanged' % meth, t.shared(), t.s)
    fit = t.fits(r, c, h, n); B = t.inb(r, c, h, n); ne = And(simp(I(h) >= 1), simp(I(n) >= 1)); mv = t.mirror()
    f1 = w.stores[d.st].fn if d is not None else None
    same_d = lambda: w.oblige('%s refused: the array of the caller is unchanged' % meth, simp(f1(i - I(r), j - I(c)) == f0(i - I(r), j - I(c))))
    if kind == 'row':
        if x[0] == 'ret': w.oblige('%s: an array that is not two-dimensional is refused' % meth, Not(asbool(w, x[1].v[1])))
        t.same('%s refused: the mirror is unchanged' % meth, t.mirror(), t.m); return
    if x[0] == 'raise':
        w.oblige('%s: a request that fits is not rejected' % meth, Not(And(fit, ne)))
        t.same('%s refused: the mirror is unchanged' % meth, mv, t.m)
        if d is not None: same_d()
        return
    if x[1] is None:      # read_retry: the shared memory stopped
        w.oblige('%s: gives up only when the shared memory has stopped' % meth, w.stopped); t.same('%s given up: the mirror is unchanged' % meth, mv, t.m); return
    if not isinstance(x[1], Tup) or len(x[1].v) != 2: raise ToolLimit('result of read')
    v, ok = x[1].v; ok = asbool(w, ok)
    if meth == 'read': w.oblige('read: reports success exactly when the request fits and the transfer is granted', simp(z3.Implies(zb(ne), zb(ok) == z3.And(zb(fit), zb(done(w))))))
    else: w.oblige('read_retry: ends with success', ok)
    w.oblige('%s: success is reported only after a transfer' % meth, simp(z3.Implies(z3.And(zb(ok), zb(ne)), z3.BoolVal(w.ntr > 0))))
    w.oblige('%s: no cell of the mirror outside the requested block changes' % meth, simp(z3.Implies(z3.Not(z3.And(zb(fit), B)), mv(i, j) == t.m(i, j))))
    w.oblige('%s: after success the requested block of the mirror equals the shared tensor' % meth, simp(z3.Implies(z3.And(zb(ok), B), mv(i, j) == t.s(i, j))))
    if d is None: w.oblige('%s: the value returned with success is that of the requested cell' % meth, simp(z3.Implies(z3.And(zb(ok), B), v.v == t.s(i, j))) if isinstance(v, Elem) else False)
    else:
        w.oblige('%s: after success the array of the caller holds the requested block' % meth, simp(z3.Implies(z3.And(zb(ok), B), f1(i - I(r), j - I(c)) == w.cast(t.s(i, j), 'sym_D', 'sym_M'))))
        w.oblige('%s: without success the array of the caller is unchanged' % meth, simp(z3.Implies(z3.And(z3.Not(zb(ok)), B), f1(i - I(r), j - I(c)) == f0(i - I(r), j - I(c)))))

def t_synch(w, t, read, meth):
    if meth.startswith('synch_all'):
        r, c, h, n = 0, 0, t.R, t.C; retry = meth == 'synch_all retry'
        x = outcome(w, lambda: w.method(t.o, 'synch_all', read=read, retry=retry)); retry = retry
    else:
        r, c = rc(w); h, n = w.fresh('n_rows'), w.fresh('n_cols'); retry = meth == 'synch_retry'
        x = outcome(w, lambda: w.method(t.o, meth, row_index=r, col_index=c, n_rows=h, n_cols=n, read=read))
    fit = t.fits(r, c, h, n); B = t.inb(r, c, h, n); ne = And(simp(I(h) >= 1), simp(I(n) >= 1)); mv, sv = t.mirror(), t.shared()
    lab = '%s(%s): ' % (meth, 'read' if read else 'write')
    src, dst, src0, dst0 = (sv, mv, t.s, t.m) if read else (mv, sv, t.m, t.s)
    t.same(lab + 'the source is unchanged', src, src0)
    if x[0] == 'raise':
        w.oblige(lab + 'a block that fits is not rejected', Not(And(fit, ne))); t.same(lab + 'refused: nothing changes', dst, dst0); return
    if meth == 'synch_retry': ok = True
    else: ok = asbool(w, x[1])
    if not retry: w.oblige(lab + 'reports success exactly when the block fits and the transfer is granted', simp(z3.Implies(zb(Or(ne, simp(I(h) < 0), simp(I(n) < 0))), zb(ok) == z3.And(zb(fit), zb(done(w))))))
    else: w.oblige(lab + 'ends with success', ok)
    w.oblige(lab + 'success is reported only after a transfer', simp(z3.Implies(z3.And(zb(ok), zb(ne)), z3.BoolVal(w.ntr > 0))))
    w.oblige(lab + 'no cell outside the requested block changes', simp(z3.Implies(z3.Not(z3.And(zb(fit), B)), dst(i, j) == dst0(i, j))))
    w.oblige(lab + 'after success the requested block is that of the source', simp(z3.Implies(z3.And(zb(ok), B), dst(i, j) == src0(i, j))))
    w.oblige(lab + 'without success nothing changes', simp(z3.Implies(z3.Not(zb(ok)), dst(i, j) == dst0(i, j))))

def t_zero(w, t):
    g = w.heap[t.o.id].get('_gpu_mirror')
    w.method(t.o, 'to_zero')
    z = toV(I(0))
    w.oblige('to_zero: every cell of the mirror is zero', simp(t.mirror()(i, j) == z)); w.oblige('to_zero: every cell of the shared tensor is zero', simp(t.shared()(i, j) == z))
    if isinstance(g, Arr): w.oblige('to_zero: every cell of the GPU mirror is zero', simp(w.stores[g.st].fn(i, j) == z))
def t_mirrors(w, t):
    a = w.method(t.o, 'get_torch_mirror', gpu=False); v = t.view()
    w.oblige('the torch view and the numpy view are the same cells', w.samev(a, v))
def t_gpu(w, t, frm):
    if not isinstance(w.heap[t.o.id].get('_gpu_mirror'), Arr): return
    a = w.method(t.o, 'get_torch_mirror', gpu=True); st = w.stores[a.st]
    w.oblige('the GPU mirror has its own storage and the shape of the mirror', a.st != t.view().st and w.samev(a.nr, t.view().nr) and w.samev(a.nc, t.view().nc))
    w.stores[a.st] = Store(w.cells('gpu'), st.R, st.C, st.dt, st.order); g0 = w.stores[a.st].fn
    w.method(t.o, 'synch_mirror', from_gpu=frm, non_blocking=w.fresh('non_blocking', z3.BoolSort()))
    g1 = w.stores[a.st].fn
    t.same('synch_mirror: the shared tensor is unchanged', t.shared(), t.s)
    if frm:
        w.oblige('synch_mirror(from_gpu): the mirror equals the GPU mirror', simp(t.mirror()(i, j) == g0(i, j))); w.oblige('synch_mirror(from_gpu): the GPU mirror is unchanged', simp(g1(i, j) == g0(i, j)))
    else:
        w.oblige('synch_mirror(to gpu): the GPU mirror equals the mirror', simp(g1(i, j) == t.m(i, j))); t.same('synch_mirror(to gpu): the mirror is unchanged', t.mirror(), t.m)

# ------------------------------------------------------------------------------------------------ the dictionary
class D:
    def __init__(t, w):
        t.w = w; w.strict = True; t.up = False
        t.k = w.fresh('count'); w.facts += [t.k >= 1, t.k < 2 ** 31]
        dim = z3.Function('dim', z3.IntSort(), z3.IntSort()); nm = z3.Function('name', z3.IntSort(), StrS); t.dim, t.nm = (lambda q: dim(I(q))), (lambda q: nm(I(q)))
        t.P = prefix(t.dim, 'dims'); q, p = z3.Int('q?'), z3.Int('p?')
        w.facts += [z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t.k), dim(q) >= 1), patterns=[dim(q)])]
        t.names, t.dims = Lst(w.newid()), Lst(w.newid()); w.lists[t.names.id] = LStore(t.k, t.nm, ''); w.lists[t.dims.id] = LStore(t.k, t.dim, 'dims')
        t.N = w.fresh('nodes'); w.facts += [t.N >= 1, t.N < 2 ** 31, t.P(0) == 0, t.P(t.k) >= 1, t.P(t.k) < 2 ** 31]
        t.cls = w.module('shared_tensor_dict')['SharedTensorDict']
    def lemma(t, q):
        """instances of the lemma proved by induction in the task 'prefix sums'"""
        w = t.w; w.facts += [t.P(I(q)) >= 0, t.P(I(q) + 1) == t.P(I(q)) + t.dim(q), z3.Implies(z3.And(I(q) >= 0, I(q) < t.k), t.P(I(q) + 1) <= t.P(t.k))]
    def mk(t, server):
        kw = dict(namespace=Sym('ns'), is_server=server)
        if server: kw.update(names=t.names, dimensions=t.dims, n_nodes=t.N)
        o = t.w.instantiate(t.cls, [], kw)
        try: t.w.method(o, 'run')
        except PyRaise:
            t.w.oblige('run: raises only when a transfer is refused or there is no server', Not(And(done(t.w), server or t.up)))
            raise Covered()
        if t.w.stopped: raise Covered()      # the shared memory has been stopped meanwhile
        t.up = True; return o
    def data(t, o): return t.w.heap[o.id]['data']
def same_names(w, t, o, who):
    l = w.attr(o, 'names', None); x = w.lists[l.id]
    w.oblige('run: %s has as many names as the server' % who, eq(x.n, t.k)); q = w.fresh('any'); w.facts += [q >= 0, q < t.k]
    w.oblige('run: %s has every name at the position of the server' % who, eq(x.fn(q), t.nm(q)))
    d = w.attr(o, 'dimensions', None); y = w.lists[d.id]
    w.oblige('run: %s has as many dimensions as names' % who, eq(y.n, t.k)); w.oblige('run: %s has for every name the dimension of the server' % who, eq(y.fn(q), t.dim(q)))
    w.oblige('run: %s has the number of rows and columns of the data' % who, And(eq(w.attr(o, 'n_dims', None), t.P(t.k)), eq(w.attr(o, 'n_nodes', None), t.N)))

def dict_task(w, op, who, retry):
    t = D(w); w.sure = who.endswith('early'); sv = t.mk(True); w.sure = False       # a refused transfer is a step that changes nothing
    if op == 'run':
        keys = [(k, m.dt, m.safe) for k, ms in w.ltens.items() for m in ms]
        same_names(w, t, sv, 'the server')
        ks = list(w.sh); w.oblige('run: data, names and dimensions are in different shared tensors', len(ks) == 3 and len({x[-1] for x in ks}) == 3)
    o = sv
    if who != 'server':
        if who == 'client starting early': w.race = True
        x = outcome(w, lambda: t.mk(False))
        w.oblige('run: a client of a running dictionary attaches', x[0] == 'ret')
        if x[0] != 'ret': return
        o = x[1]
        if op == 'run': w.race = None; same_names(w, t, o, 'the ' + who); return
    if op == 'run': return
    dat = t.data(o); shm = w.heap[dat.id]['_shared_mem']; key = shm.key; v = w.method(dat, 'get_numpy_mirror')
    w.facts += [i >= 0, i < t.P(t.k), j >= 0, j < t.N]
    st = w.stores[v.st]; w.stores[v.st] = Store(w.cells('mirror'), st.R, st.C, st.dt, st.order); x = w.sh[key]; w.sh[key] = Store(w.cells('shared'), x.R, x.C, x.dt, x.order)
    m0, s0 = w.stores[v.st].fn, w.sh[key].fn; w.grants = []; w.stopped = False; w.ntr = 0; others = {k: z for k, z in w.sh.items() if k != key}
    name = z3.Const('the_name', StrS)
    p = w.fresh('slot'); w.facts += [p >= 0, p < t.k, t.nm(p) == name]; q = z3.Int('q?'); w.facts.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < t.k, t.nm(q) == name), q == p)))
    t.lemma(p); lo, dm = t.P(p), t.dim(p)
    w.facts += [t.P(p) + dm <= t.P(t.k)]
    mv = lambda a, b: w.stores[v.st].fn(a, b); sf = lambda a, b: w.sh[key].fn(a, b)
    lab = '%s of the %s: ' % (op, who)
    if op == 'get':
        x = outcome(w, lambda: w.method(o, 'get', name))
        w.oblige(lab + 'a name of the dictionary is found', x[0] == 'ret')
        w.oblige(lab + 'shared data and mirror are unchanged', simp(z3.And(mv(i, j) == m0(i, j), sf(i, j) == s0(i, j))))
        if x[0] != 'ret': return
        r = x[1]
        if not isinstance(r, Arr): raise ToolLimit('result of get')
        w.oblige(lab + 'the block has the rows of the name and all columns', And(eq(r.nr, dm), eq(r.nc, t.N)))
        f = w.stores[r.st].fn
        w.oblige(lab + 'the block is that of the name in the mirror', simp(z3.Implies(i < dm, f(I(r.r0) + i, I(r.c0) + j) == m0(lo + i, j))))
        w.oblige(lab + 'the block returned is a copy', r.st != v.st)
        return
    if op == 'synch':
        x = outcome(w, lambda: w.method(o, 'synch', retry=retry)); 
        w.oblige(lab + 'does not raise', x[0] == 'ret')
        if x[0] != 'ret': return
        ok = asbool(w, x[1])
        w.oblige(lab + ('ends with success' if retry else 'reports success exactly when the transfer is granted'), ok if retry else simp(zb(ok) == zb(done(w))))
        w.oblige(lab + 'after success the mirror equals the shared data', simp(z3.Implies(zb(ok), mv(i, j) == s0(i, j)))); w.oblige(lab + 'the shared data is unchanged', simp(sf(i, j) == s0(i, j))); return
    d = array_in(w, 1 if op == 'write row' else 2, 'sym_D'); f = w.stores[d.st].fn; h, n = (1, d.nc) if op == 'write row' else (d.nr, d.nc)
    x = outcome(w, lambda: w.method(o, 'write', d, name, retry=retry))
    fit = And(simp(I(h) <= dm), simp(I(n) <= t.N)); ne = And(simp(I(h) >= 1), simp(I(n) >= 1))
    B = z3.And(i >= lo, i < lo + I(h), j < I(n)); slot = z3.And(i >= lo, i < lo + dm)
    w.oblige(lab + 'names and dimensions are unchanged', all(w.sh[k] is z for k, z in others.items()))
    w.oblige(lab + 'no row of another name changes in the shared data', simp(z3.Implies(z3.Not(slot), sf(i, j) == s0(i, j))))
    w.oblige(lab + 'no row of another name changes in the mirror', simp(z3.Implies(z3.Not(slot), mv(i, j) == m0(i, j))))
    if x[0] == 'raise':
        w.oblige(lab + 'data that fits is not rejected', Not(And(fit, ne))); w.oblige(lab + 'refused: the shared data is unchanged', simp(sf(i, j) == s0(i, j))); return
    ok = asbool(w, x[1])
    if retry: ok = And(ok, not w.stopped)
    else: w.oblige(lab + 'reports success exactly when the data fits and the transfer is granted', simp(z3.Implies(zb(ne), zb(ok) == z3.And(zb(fit), zb(done(w))))))
    w.oblige(lab + 'success is reported only after a transfer', simp(z3.Implies(z3.And(zb(ok), zb(ne)), z3.BoolVal(w.ntr > 0))))
    w.oblige(lab + 'after success the block of the name holds the data', simp(z3.Implies(z3.And(zb(ok), B), sf(i, j) == w.cast(f(i - lo, j), w.shdt[key], 'sym_D'))))
    w.oblige(lab + 'no cell outside the block written changes', simp(z3.Implies(z3.Not(B), sf(i, j) == s0(i, j))))

def lemma_task(w):
    """sum of the first q dimensions: monotone, by induction on the second argument (dimensions at least 1)"""
    P = z3.Function('P', z3.IntSort(), z3.IntSort()); d = z3.Function('d', z3.IntSort(), z3.IntSort()); q, k = z3.Ints('q k')
    w.oblige('lemma: sums are not negative (step)', z3.Implies(z3.And(P(k) >= 0, P(k + 1) == P(k) + d(k), d(k) >= 1), P(k + 1) >= 0))
    w.oblige('lemma: sums increase (base)', z3.Implies(k == q + 1, P(q + 1) <= P(k)))
    w.oblige('lemma: sums increase (step)', z3.Implies(z3.And(P(q + 1) <= P(k), P(k + 1) == P(k) + d(k), d(k) >= 1), P(q + 1) <= P(k + 1)))

# ------------------------------------------------------------------------------------------------
def result(w, limits, **info):
    lim = [(str(a), str(b)) for a, b in limits]
    if not lim and not w.obl: lim.append(('', 'vacuous: no obligation was generated'))
    return dict(obl=w.obl, limits=lim, funcs={'EigenIPC::Python::' + k: v for k, v in w.funcs.items()}, contracts=w.contracts, bounded=sorted(w.bounded), nchecks=w.nchecks, tsolve=w.tsolve, ninstr=w.nsteps, loops=w.loops, info=info)
def run(name, body, deadline):
    w = W(os.path.join(runner.REPO, DIR)); w.ctx = name; w.deadline = deadline; limits = []; n = 0
    try: n = w.paths(lambda: body(w))
    except (ToolLimit, PyRaise) as x: limits.append((name, '%s: %s' % (type(x).__name__, x if isinstance(x, ToolLimit) else x.kind + ' ' + x.at)))
    return result(w, limits, paths=n)
def view_body(f, server, fill, torch, gpu=False):
    def body(w):
        try: t = T(w, server, fill, torch, gpu)
        except PyRaise as x:
            if gpu: return       # no GPU
            w.oblige('run: does not raise', False); return
        if f is None: t.check_run(); return
        t.havoc(); f(w, t)
    return body
def tasks(prop, d, tier, budget):
    dl = time.time() + budget; X = []
    def add(name, f, both=True, torch=(False,), fills=(None,), gpu=False):
        for sv in ((True, False) if both else (True,)):
            for to in torch:
                for fi in fills:
                    nm = 'SharedTWrapper.%s %s%s%s' % (name, 'server' if sv else 'client', ' torch' if to else '', ' filled' if fi is not None else '')
                    X.append((nm, lambda nm=nm, f=f, sv=sv, to=to, fi=fi: run(nm, view_body(f, sv, fi, to, gpu), dl)))
    F = Sym('fill')
    add('run', None, torch=(False, True), fills=(None, F))
    for k in KINDS: add('write(%s)' % k, lambda w, t, k=k: t_write(w, t, k), torch=(False, True) if k == 'int' else (False,))
    for k in ('array', 'row'):
        add('write(%s)' % k, lambda w, t, k=k: t_write(w, t, k), torch=(False, True)); add('read(%s)' % k, lambda w, t, k=k: t_read(w, t, k), torch=(False, True))
    add('read(scalar)', lambda w, t: t_read(w, t, 'scalar'), torch=(False, True))
    add('write_retry(array)', lambda w, t: t_write(w, t, 'array', 'write_retry')); add('write_retry(int)', lambda w, t: t_write(w, t, 'int', 'write_retry'))
    add('read_retry(array)', lambda w, t: t_read(w, t, 'array', 'read_retry')); add('read_retry(scalar)', lambda w, t: t_read(w, t, 'scalar', 'read_retry'))
    for rd in (True, False):
        for m in ('synch', 'synch_retry', 'synch_all', 'synch_all retry'): add('%s(%s)' % (m, 'read' if rd else 'write'), lambda w, t, m=m, rd=rd: t_synch(w, t, rd, m))
    add('to_zero', t_zero); add('views', t_mirrors, torch=(True,)); add('to_zero gpu', t_zero, torch=(True,), gpu=True)
    for g in (True, False): add('synch_mirror(%s)' % g, lambda w, t, g=g: t_gpu(w, t, g), torch=(True,), gpu=True)
    for who in ('server', 'client', 'client starting early'):
        for op, rt in ((('run', None),) if who.endswith('early') else (('run', None), ('get', None), ('synch', True), ('synch', False), ('write', True), ('write', False), ('write row', True), ('write row', False))):
            nm = 'SharedTensorDict.%s%s %s' % (op, '' if rt is None else ' retry' if rt else ' once', who)
            X.append((nm, lambda nm=nm, op=op, who=who, rt=rt: run(nm, lambda w: dict_task(w, op, who, rt), dl)))
    X.append(('prefix sums', lambda: run('prefix sums', lemma_task, dl)))
    return X

def native_exe(d, prop):
    import shutil
    for f in ('native_pyw.py',): shutil.copy(os.path.join(runner.VERIF, 'cxx', f), os.path.join(d, f))
    p = os.path.join(d, 'EigenIPC', 'PyEigenIPCExt', 'wrappers'); os.makedirs(p, exist_ok=True)
    for q in ('EigenIPC', 'EigenIPC/PyEigenIPCExt', 'EigenIPC/PyEigenIPCExt/wrappers'): open(os.path.join(d, q, '__init__.py'), 'w').close()
    for f in sorted(os.listdir(os.path.join(runner.REPO, DIR))):
        if f.endswith('.py'): shutil.copy(os.path.join(runner.REPO, DIR, f), os.path.join(p, f))
    shutil.copy(os.path.join(runner.VERIF, 'cxx', 'stub_pyeigenipc.py'), os.path.join(d, 'EigenIPC', 'PyEigenIPC.py')); shutil.copy(os.path.join(runner.VERIF, 'cxx', 'stub_torch.py'), os.path.join(d, 'torch.py'))
    x = os.path.join(d, 'native_pyw')
    open(x, 'w').write('#!/bin/sh\nexec /usr/bin/python3 -B %s/native_pyw.py "$@"\n' % d); os.chmod(x, 0o755)
    return x

TRUSTED = [
    'the verification-condition generator eipcv/pyexec.py (semantics of the Python subset it executes: unbounded integers, references, basic slicing; it stops at anything else) and z3',
    'assumed contracts of numpy and torch: full, zeros, array, atleast_2d, basic slicing as views, assignment with broadcasting, copy, flatten, tolist, reshape, from_numpy shares storage, to/cpu copy between devices (a non-blocking copy to the CPU may be read before it is complete)',
    'assumed contract of the extension module: Server/Client write and read of a view (subject of C01, C02, C05, C06, C21), attach delivers the shape of the server (C10, C11), StringTensor write_vec/read_vec (C14, C15), Journal.log raises exactly for EXCEP with throw_when_excep (C19)',
    'names of a dictionary are distinct (documented assumption), dimensions are at least 1 and their sum is below 2^31; termination of the retry loops is not claimed (they end when the transfer is granted)',
    'the extension module holds the interpreter lock; Python threads do not interleave inside a method',
]
