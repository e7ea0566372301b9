"""Verification-condition generator for the Python wrappers: executes the unmodified source (its AST, re-read on every run) on symbolic
arguments.  Integers are z3 Int (Python's integers are unbounded: nothing is approximated), arrays are views (storage, rows, columns) whose
contents are functions of the cell, lists have a symbolic length and content.  A path is executed again from the start for every feasible
sequence of decisions; loops are closed when a head state is covered by an earlier one."""
import ast, os, sys, time, z3
class ToolLimit(Exception): pass
class PyRaise(Exception):
    def __init__(s, kind, at=''): s.kind = kind; s.at = at
class Covered(Exception): pass
class Return(Exception):
    def __init__(s, v): s.v = v
class Break(Exception): pass
class Continue(Exception): pass
StrS = z3.DeclareSort('Str'); Opaque = z3.DeclareSort('Opaque')
_d = z3.Datatype('Val'); _d.declare('value', ('integer', z3.IntSort())); _d.declare('other', ('opaque', Opaque)); Val = _d.create()      # the content of a cell
toV, fromV = Val.value, Val.integer
Prefix = {}
def is_sym(x): return isinstance(x, z3.ExprRef)
def I(x): return x if is_sym(x) else z3.IntVal(int(x))
def simp(x):
    if not is_sym(x): return x
    x = z3.simplify(x)
    if z3.is_int_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def num(x): return isinstance(x, (int, bool)) or is_sym(x) and z3.is_int(x)
def boo(x): return isinstance(x, bool) or is_sym(x) and z3.is_bool(x)
def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    return simp(z3.And(*a)) if a else True
def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    return simp(z3.Or(*a)) if a else False
def Not(x): return (not x) if isinstance(x, bool) else simp(z3.Not(x))
def zb(x): return x if is_sym(x) else z3.BoolVal(bool(x))
def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    return simp(z3.If(c, I(a) if num(a) else a, I(b) if num(b) else b))
def eq(a, b):
    if not is_sym(a) and not is_sym(b): return a == b
    if num(a) and num(b): return simp(I(a) == I(b))
    return simp(a == b)
class Obj:
    def __init__(s, cls, i): s.cls = cls; s.id = i
class Cls:
    def __init__(s, node, mod, outer=None): s.node = node; s.mod = mod; s.name = node.name; s.outer = outer
class Fn:
    def __init__(s, node, mod, cls=None): s.node = node; s.mod = mod; s.cls = cls
class Meth:
    def __init__(s, o, f): s.o = o; s.f = f
class Super:
    def __init__(s, o, cls): s.o = o; s.cls = cls
class Ext:
    """something from outside, known by its name"""
    def __init__(s, name): s.name = name
    def __repr__(s): return s.name
class XMeth:
    def __init__(s, o, n): s.o = o; s.n = n
class Sym:
    """an opaque value (name of a tensor, a fill value, ...)"""
    def __init__(s, name): s.name = name
class Txt: pass                                  # a text nobody looks at
class Tup:
    def __init__(s, v): s.v = list(v)
class Arr:
    """a view: rows r0..r0+nr, columns c0..c0+nc of a storage"""
    def __init__(s, st, r0, nr, c0, nc, ndim=2): s.st, s.r0, s.nr, s.c0, s.nc, s.ndim = st, r0, nr, c0, nc, ndim
class Store:
    def __init__(s, fn, R, C, dt, order): s.fn, s.R, s.C, s.dt, s.order = fn, R, C, dt, order
class Elem:
    def __init__(s, v, tag='numpy scalar'): s.v = v; s.tag = tag
class Lst:
    def __init__(s, i): s.id = i
class LStore:
    def __init__(s, n, fn, kind): s.n, s.fn, s.kind = n, fn, kind
class Range:
    def __init__(s, a, b): s.a, s.b = a, b
class Slc:
    def __init__(s, a, b): s.a, s.b = a, b
class Shm:
    def __init__(s, key, server, R, C): s.key, s.server, s.R, s.C = key, server, R, C
class StrT:
    def __init__(s, key, server, n): s.key, s.server, s.n = key, server, n

def prefix(fn, key):
    if key not in Prefix: Prefix[key] = z3.Function('sum_%s' % key, z3.IntSort(), z3.IntSort())
    return Prefix[key]

class PX:
    def __init__(s, root):
        s.root = root; s.mods = {}; s.axioms = []; s.obl = []; s.ctx = ''; s.nchecks = 0; s.tsolve = 0; s.funcs = {}; s.contracts = {}; s.nsteps = 0; s.deadline = None; s.bounded = set(); s.loops = 0
        s.reset([])
    # ------------------------------------------------------------ solver
    def check(s, *fs, limit=20000):
        so = z3.Solver(); so.set('timeout', limit); so.add(*s.axioms); so.add(*s.pc); so.add(*s.facts); so.add(*[zb(f) for f in fs])
        t = time.time(); r = str(so.check()); s.nchecks += 1; s.tsolve += time.time() - t
        return r, so.model() if r == 'sat' else None
    def feasible(s, c): return c is not False and s.check(c, limit=3000)[0] != 'unsat'
    def valid(s, c):
        if c is True: return True
        return s.check(Not(c))[0] == 'unsat'
    def oblige(s, label, c):
        t = time.time(); how = 'simplifier'; model = ''
        c = simp(c) if is_sym(c) else c
        if c is True: status = 'discharged'
        else:
            r, m = s.check(Not(c)); how = 'z3'
            status = {'unsat': 'discharged', 'sat': 'failed'}.get(r, 'unknown')
            if m is not None: model = str([(d, m[d]) for d in m.decls() if m[d] is not None and d.arity() == 0])[:800]
        s.obl.append(dict(prop='C22', label=label, ctx=s.ctx, ok=status == 'discharged', status=status, how=how, t=time.time() - t, at=s.ctx if status != 'discharged' else '', model=model))
    # ------------------------------------------------------------ paths
    def reset(s, dec):
        s.dec = dec; s.pos = 0; s.pc = []; s.heap = {}; s.stores = {}; s.lists = {}; s.sh = {}; s.nf = {}; s.nid = 0; s.log = []; s.facts = []; s.stack = []; s.marks = []; s.exc = []
    def paths(s, run):
        """run() is executed on every feasible path"""
        todo = [[]]; n = 0; s.pend = []
        while todo:
            d = todo.pop(); s.reset(d); s.pend = []
            n += 1
            if n > 400: raise ToolLimit('paths')
            if s.deadline and time.time() > s.deadline: raise ToolLimit('time limit')
            try: run()
            except Covered: pass
            todo += s.pend
        return n
    def branch(s, c):
        c = simp(c) if is_sym(c) else bool(c)
        if isinstance(c, bool): return c
        if s.pos < len(s.dec): v = s.dec[s.pos]
        else:
            t = s.feasible(c); f = s.feasible(Not(c))
            if t and f: s.pend.append(s.dec[:s.pos] + [False])
            if not t and not f: raise Covered()
            v = t if t and f else (t, 'forced'); s.dec = s.dec[:s.pos] + [v]
        s.pos += 1
        if isinstance(v, tuple): return v[0]          # implied by the path condition
        s.pc.append(c if v else Not(c))
        return v
    def fresh(s, n, sort=None):
        k = s.nf.get(n, 0); s.nf[n] = k + 1
        nm = n if k == 0 else '%s#%d' % (n, k)
        return z3.Const(nm, sort if sort is not None else z3.IntSort())
    def newid(s): s.nid += 1; return s.nid
    # ------------------------------------------------------------ modules
    def module(s, name):
        if name in s.mods: return s.mods[name]
        p = os.path.join(s.root, name + '.py'); t = ast.parse(open(p).read())
        env = {}; s.mods[name] = env; env['__file__'] = p
        for n in t.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)): s.imp(n, env)
            elif isinstance(n, ast.ClassDef): env[n.name] = Cls(n, env)
            elif isinstance(n, ast.FunctionDef): env[n.name] = Fn(n, env)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                env[n.targets[0].id] = ('lazy', n.value)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): pass
            else: raise ToolLimit('module statement at line %d' % n.lineno)
        return env
    def imp(s, n, env):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            if isinstance(n, ast.Import): env[nm] = Ext(a.name if a.asname else a.name.split('.')[0])
            elif n.module and '.wrappers.' in '.' + n.module:
                env[nm] = s.module(n.module.split('.')[-1])[a.name]
            else: env[nm] = Ext('EigenIPC.' + a.name if n.module and n.module.startswith('EigenIPC') else '%s.%s' % (n.module, a.name))
    # ------------------------------------------------------------ calls
    def bases(s, c):
        out = []
        for b in c.node.bases:
            v = s.name_in(b, c)
            if isinstance(v, Cls): out.append(v)
            elif not (isinstance(v, Ext)): raise ToolLimit('base class')
        return out
    def name_in(s, b, c):
        if isinstance(b, ast.Name):
            if b.id == 'object': return Ext('object')
            x = c
            while x is not None and x.outer is not None:
                x = x.outer
                for n in x.node.body:
                    if isinstance(n, ast.ClassDef) and n.name == b.id: return Cls(n, c.mod, x)
            if b.id in c.mod: return c.mod[b.id]
        raise ToolLimit('base class')
    def find(s, c, name):
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return Fn(n, c.mod, c)
            if isinstance(n, ast.ClassDef) and n.name == name: return Cls(n, c.mod, c)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name: return ('lazy', n.value)
        for b in s.bases(c):
            r = s.find(b, name)
            if r is not None: return r
        return None
    def instantiate(s, c, args, kw):
        o = Obj(c, s.newid()); s.heap[o.id] = {}
        f = s.find(c, '__init__')
        if f is not None: s.invoke(f, [o] + args, kw)
        return o
    def invoke(s, f, args, kw):
        nm = '%s.%s' % (f.cls.name, f.node.name) if f.cls else f.node.name
        s.funcs[nm] = s.funcs.get(nm, 0) + 1
        if len(s.stack) > 60: raise ToolLimit('call depth')
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs: raise ToolLimit('argument list of ' + nm)
        names = [x.arg for x in a.args]; env = {}; kw = dict(kw)
        if len(args) > len(names): raise PyRaise('TypeError', nm)
        for n, v in zip(names, args): env[n] = v
        allow = names[len(args):] + [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k not in allow: raise PyRaise('TypeError', nm)
            env[k] = kw.pop(k)
        fr = dict(env=env, f=f, mod=f.mod, self=args[0] if f.cls and args else None)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env: env[n] = s.ev(d, dict(env={}, f=f, mod=f.mod, self=None))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None: env[x.arg] = s.ev(d, dict(env={}, f=f, mod=f.mod, self=None))
        if any(n not in env for n in names): raise PyRaise('TypeError', nm)
        s.stack.append(fr)
        try:
            s.block(f.node.body, fr); return None
        except Return as r: return r.v
        finally: s.stack.pop()
    def method(s, o, name, *args, **kw):
        f = s.find(o.cls, name)
        if f is None: raise ToolLimit('no method ' + name)
        return s.invoke(f, [o] + list(args), kw)
    def call(s, f, args, kw):
        if isinstance(f, Meth): return s.invoke(f.f, ([f.o] if f.o is not None else []) + args, kw)
        if isinstance(f, Fn): return s.invoke(f, args, kw)
        if isinstance(f, Cls): return s.instantiate(f, args, kw)
        if isinstance(f, tuple) and f[0] == 'lambda':
            n, fr = f[1], f[2]; e = dict(fr['env']); names = [x.arg for x in n.args.args]
            if len(args) != len(names) or kw: raise ToolLimit('lambda')
            e.update(zip(names, args)); return s.ev(n.body, dict(fr, env=e))
        if isinstance(f, tuple) and f[0] == 'closure':
            n, fr = f[1], f[2]; names = [x.arg for x in n.args.args]; e = dict(fr['env'])
            if n.args.vararg or n.args.kwarg or n.args.kwonlyargs or len(args) > len(names) or set(kw) - set(names[len(args):]): raise ToolLimit('nested function')
            for q, d in zip(names[len(names) - len(n.args.defaults):], n.args.defaults): e[q] = s.ev(d, fr)
            miss = set(names[:len(names) - len(n.args.defaults)]) - set(names[:len(args)]) - set(kw)
            if miss: raise PyRaise('TypeError', n.name)
            e.update(zip(names, args)); e.update(kw)
            if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(n)): raise ToolLimit('nonlocal')
            try: s.block(n.body, dict(fr, env=e)); return None
            except Return as r: return r.v
        nm = f.name if isinstance(f, Ext) else f.n if isinstance(f, XMeth) else None
        if nm is None: raise ToolLimit('call of %r' % (f,))
        return s.external(f, nm, args, kw)
    # ------------------------------------------------------------ statements
    def block(s, body, fr):
        for n in body: s.stmt(n, fr)
    def stmt(s, n, fr):
        s.nsteps += 1
        T = type(n)
        if T is ast.Expr: s.ev(n.value, fr)
        elif T is ast.Assign:
            v = s.ev(n.value, fr)
            for t in n.targets: s.assign(t, v, fr)
        elif T is ast.AnnAssign:
            if n.value is not None: s.assign(n.target, s.ev(n.value, fr), fr)
        elif T is ast.AugAssign:
            t = n.target
            if isinstance(t, ast.Subscript): raise ToolLimit('augmented assignment to elements')
            cur = s.ev(ast.Name(id=t.id, ctx=ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), fr)
            s.assign(t, s.binop(n.op, cur, s.ev(n.value, fr)), fr)
        elif T is ast.If: s.block(n.body if s.truth(s.ev(n.test, fr)) else n.orelse, fr)
        elif T is ast.Return: raise Return(None if n.value is None else s.ev(n.value, fr))
        elif T is ast.While: s.loop(n, fr)
        elif T is ast.For: s.forloop(n, fr)
        elif T is ast.Pass: pass
        elif T is ast.Break: raise Break()
        elif T is ast.Continue: raise Continue()
        elif T is ast.Raise and n.exc is None and s.exc: raise s.exc[-1]
        elif T is ast.Raise: raise PyRaise('exception', 'line %d' % n.lineno)
        elif T is ast.Assert:
            if not s.truth(s.ev(n.test, fr)): raise PyRaise('AssertionError', 'line %d' % n.lineno)
        elif T in (ast.Import, ast.ImportFrom): s.imp(n, fr['env'])
        elif T is ast.FunctionDef: fr['env'][n.name] = ('lambda', ast.Lambda(args=n.args, body=n.body[0].value), fr) if len(n.body) == 1 and isinstance(n.body[0], ast.Return) else ('closure', n, fr)
        elif T is ast.Try:
            try:
                try: s.block(n.body, fr)
                except PyRaise as x:
                    for h in n.handlers:
                        nm = None if h.type is None else getattr(s.ev(h.type, fr), 'name', '?') if not isinstance(h.type, ast.Tuple) else '?'
                        if nm in (None, 'Exception', 'BaseException') or nm == x.kind:
                            if h.name: fr['env'][h.name] = Txt()
                            s.exc.append(x)
                            try: s.block(h.body, fr)
                            finally: s.exc.pop()
                            break
                        if nm == '?' or x.kind == 'exception': raise ToolLimit('exception handler')
                    else: raise
                else: s.block(n.orelse, fr)
            finally:
                if n.finalbody and not isinstance(sys.exc_info()[1], (ToolLimit, Covered)): s.block(n.finalbody, fr)
        elif T is ast.Delete and all(isinstance(t, ast.Name) for t in n.targets):
            for t in n.targets: fr['env'].pop(t.id, None)
        elif T is ast.Delete: raise ToolLimit('del')
        else: raise ToolLimit('statement %s at line %d' % (T.__name__, n.lineno))
    def assign(s, t, v, fr):
        if isinstance(t, ast.Name): fr['env'][t.id] = v
        elif isinstance(t, ast.Attribute):
            o = s.ev(t.value, fr)
            if not isinstance(o, Obj): raise ToolLimit('attribute of ' + type(o).__name__)
            s.heap[o.id] = dict(s.heap[o.id]); s.heap[o.id][t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, Tup) or len(v.v) != len(t.elts): raise ToolLimit('unpacking')
            for a, b in zip(t.elts, v.v): s.assign(a, b, fr)
        elif isinstance(t, ast.Subscript):
            o = s.ev(t.value, fr)
            if not isinstance(o, Arr): raise ToolLimit('element assignment to ' + type(o).__name__)
            x = s.index(o, t.slice, fr)
            if isinstance(x, tuple): s.setelem(o, x[0], x[1], v)
            else: s.setblock(x, v)
        else: raise ToolLimit('assignment')
    def snapshot(s, fr): return dict(env=dict(fr['env']), heap={k: dict(v) for k, v in s.heap.items()}, stores=dict(s.stores), lists=dict(s.lists), sh=dict(s.sh), npc=len(s.pc), pc=list(s.pc), nlog=len(s.log))
    def samev(s, a, b):
        if a is b: return True
        if type(a) is not type(b): return is_sym(a) and num(b) and s.valid(eq(a, b)) if num(a) else False
        if isinstance(a, (int, bool, str, float)): return a == b
        if is_sym(a): return a.sort() == b.sort() and (a.eq(b) or s.valid(eq(a, b)))
        if isinstance(a, Arr): return a.st == b.st and a.ndim == b.ndim and all(s.samev(getattr(a, k), getattr(b, k)) for k in ('r0', 'nr', 'c0', 'nc'))
        if isinstance(a, Tup): return len(a.v) == len(b.v) and all(s.samev(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Lst):          # another list with the same content, as long as the references correspond
            if a.id == b.id: return True
            if s.lmap.get(a.id, b.id) != b.id or s.lback.get(b.id, a.id) != a.id: return False
            x, y, i = s.lold[a.id], s.lists[b.id], z3.Int('i?')
            if not (s.samev(x.n, y.n) and s.check(i >= 0, i < I(x.n), Not(eq(x.fn(i), y.fn(i))))[0] == 'unsat'): return False
            s.lmap[a.id] = b.id; s.lback[b.id] = a.id; return True
        if isinstance(a, Obj): return a.id == b.id
        if isinstance(a, Slc): return s.samev(a.a, b.a) and s.samev(a.b, b.b)
        if isinstance(a, (Txt, Ext, Sym)): return isinstance(a, Txt) or a.name == b.name
        if isinstance(a, Elem): return s.samev(a.v, b.v)
        if isinstance(a, (Shm, StrT)): return a.key == b.key
        return False
    def covered(s, a, b):
        """the head state b (now) is one of those represented by a"""
        s.lmap, s.lback, s.lold = {}, {}, a['lists']
        for x, y in ((a['env'], b['env']),):
            if set(x) - set(y): return False
            if not all(s.samev(x[k], y[k]) for k in x): return False
        for k in a['heap']:
            x, y = a['heap'][k], b['heap'].get(k)
            if y is None or set(x) != set(y) or not all(s.samev(x[q], y[q]) for q in x): return False
        i, j = z3.Int('i?'), z3.Int('j?')
        for d in ('stores', 'sh'):
            for k, x in a[d].items():
                y = b[d].get(k)
                if x is y: continue
                if not isinstance(x, Store) or not isinstance(y, Store) or x.dt != y.dt: return False
                if not (s.samev(x.R, y.R) and s.samev(x.C, y.C) and s.valid(eq(x.fn(i, j), y.fn(i, j)))): return False
        for k, x in a['lists'].items():
            y = b['lists'].get(k)
            if x is not y and not (s.samev(x.n, y.n) and s.valid(eq(x.fn(i), y.fn(i)))): return False
        return all(any(p is q or p.eq(q) for q in b['pc']) if True else 0 for p in a['pc'])
    def loop(s, n, fr):
        heads = []
        for it in range(8):
            b = s.snapshot(fr)
            if any(s.covered(a, b) for a in heads): s.loops += 1; raise Covered()
            heads.append(b)
            if not s.truth(s.ev(n.test, fr)):
                s.block(n.orelse, fr); return
            try: s.block(n.body, fr)
            except Break: return
            except Continue: pass
        raise ToolLimit('loop at line %d' % n.lineno)
    def forloop(s, n, fr):
        if n.orelse: raise ToolLimit('for-else')
        it = s.ev(n.iter, fr)
        if isinstance(it, Tup):
            for v in it.v:
                s.assign(n.target, v, fr)
                try: s.block(n.body, fr)
                except Break: return
                except Continue: pass
            return
        if isinstance(it, Lst):
            ls = s.lists[it.id]; it = Range(0, ls.n); elem = lambda k: ls.fn(k)
        elif isinstance(it, Range): elem = lambda k: k
        else: raise ToolLimit('iteration over ' + type(it).__name__)
        # accumulation: every variable changed is x += t(k), with t(k) an element of a list of integers
        if not s.branch(simp(I(it.a) < I(it.b))): return
        k = s.fresh('k'); s.facts += [k >= I(it.a), k < I(it.b)]
        before = s.snapshot(fr); sub = {}
        for v in [x.id for x in ast.walk(ast.Module(body=n.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]:
            if v in fr['env'] and num(fr['env'][v]) and not isinstance(fr['env'][v], bool): sub[v] = s.fresh('acc_' + v); fr['env'][v] = sub[v]
        s.assign(n.target, elem(k), fr)
        try: s.block(n.body, fr)
        except (Break, Continue): raise ToolLimit('jump in a for loop')
        after = s.snapshot(fr)
        if len(after['pc']) != len(before['pc']) or after['nlog'] != before['nlog'] or any(after[d].get(x) is not before[d][x] for d in ('stores', 'sh', 'lists') for x in before[d]) or any(after['heap'][o].get(q) is not v for o, x in before['heap'].items() for q, v in x.items()) or any(set(after['heap'][o]) != set(x) for o, x in before['heap'].items()):
            raise ToolLimit('for loop at line %d does more than adding up' % n.lineno)
        for v, a in sub.items():
            t = simp(fr['env'][v] - a)
            if v == getattr(n.target, 'id', None): continue
            if is_sym(t) and any(x.eq(a) for x in s.subterms(t)): raise ToolLimit('accumulation')
            f = None
            for ls in list(s.lists.values()):
                if f is None and ls.kind and is_sym(t) and s.valid(eq(t, ls.fn(k))): f = prefix(ls.fn, ls.kind)
            if f is None:
                if not is_sym(t): r = I(before['env'][v]) + (I(it.b) - I(it.a)) * t
                else: raise ToolLimit('accumulation at line %d' % n.lineno)
            else: r = I(before['env'][v]) + f(I(it.b)) - f(I(it.a)); s.facts.append(f(z3.IntVal(0)) == 0)
            fr['env'][v] = simp(r)
        s.loops += 1
        for v in list(fr['env']):
            if v not in before['env']: del fr['env'][v]
    def subterms(s, t):
        out = [t]
        for c in t.children(): out += s.subterms(c)
        return out
    # ------------------------------------------------------------ expressions
    def truth(s, v):
        if v is None: return False
        if boo(v): return s.branch(v)
        if num(v): return s.branch(simp(I(v) != 0))
        if isinstance(v, str): return bool(v)
        if isinstance(v, Lst): return s.branch(simp(I(s.lists[v.id].n) > 0))
        if isinstance(v, (Obj, Shm, StrT)): return True
        if isinstance(v, Arr): raise PyRaise('ValueError', 'truth value of an array')
        raise ToolLimit('truth of ' + type(v).__name__)
    def ev(s, n, fr):
        T = type(n)
        if T is ast.Constant: return n.value
        if T is ast.Name:
            if n.id in fr['env']: return fr['env'][n.id]
            if n.id in fr['mod']:
                v = fr['mod'][n.id]
                return s.ev(v[1], dict(env={}, f=None, mod=fr['mod'], self=None)) if isinstance(v, tuple) and v[0] == 'lazy' else v
            if n.id in ('int', 'float', 'bool', 'str', 'list', 'len', 'range', 'isinstance', 'min', 'max', 'sum', 'type', 'super', 'print', 'Exception', 'ValueError', 'tuple', 'abs', 'all', 'any', 'enumerate', 'zip', 'hasattr', 'complex', 'slice', 'Ellipsis', 'getattr', 'dict', 'set', 'callable', 'round', 'object', 'KeyError', 'AssertionError', 'AttributeError', 'RuntimeError', 'IndexError', 'TypeError', 'reversed'): return Ext(n.id)
            raise ToolLimit('name ' + n.id)
        if T is ast.Attribute: return s.attr(s.ev(n.value, fr), n.attr, fr)
        if T is ast.BoolOp:
            isand = isinstance(n.op, ast.And); v = None
            for x in n.values:
                v = s.ev(x, fr)
                if x is n.values[-1]: return v
                if s.truth(v) != isand: return v if not boo(v) else (not isand)
            return v
        if T is ast.UnaryOp:
            v = s.ev(n.operand, fr)
            if isinstance(n.op, ast.Not): return Not(v) if boo(v) else not s.truth(v)
            if isinstance(n.op, ast.USub) and num(v): return simp(-I(v))
            if isinstance(n.op, ast.USub) and isinstance(v, float): return -v
            raise ToolLimit('operator')
        if T is ast.BinOp: return s.binop(n.op, s.ev(n.left, fr), s.ev(n.right, fr))
        if T is ast.Compare:
            l = s.ev(n.left, fr); out = True
            for op, r in zip(n.ops, n.comparators):
                r = s.ev(r, fr); c = s.compare(op, l, r)
                if len(n.ops) == 1: return c
                if not s.truth(c): return False
                l = r
            return out
        if T is ast.Call:
            if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and 'super' not in fr['env']: return Super(fr['self'], fr['f'].cls)
            f = s.ev(n.func, fr)
            if any(k.arg is None for k in n.keywords): raise ToolLimit('starred call')
            av = []
            for a in n.args:
                v = s.ev(a.value if isinstance(a, ast.Starred) else a, fr)
                if isinstance(a, ast.Starred):
                    if not isinstance(v, Tup): raise ToolLimit('starred call')
                    av += v.v
                else: av.append(v)
            return s.call(f, av, {k.arg: s.ev(k.value, fr) for k in n.keywords})
        if T is ast.Subscript:
            o = s.ev(n.value, fr)
            if isinstance(o, Tup):
                i = s.ev(n.slice, fr)
                if not isinstance(i, int) or not -len(o.v) <= i < len(o.v): raise ToolLimit('tuple index')
                return o.v[i]
            if isinstance(o, Lst):
                ls = s.lists[o.id]
                if isinstance(n.slice, ast.Slice):
                    if n.slice.step is not None or n.slice.lower is not None: raise ToolLimit('list slice')
                    b = s.ev(n.slice.upper, fr) if n.slice.upper is not None else ls.n
                    if not s.valid(z3.And(I(b) >= 0, I(b) <= I(ls.n))): raise ToolLimit('list slice')
                    x = Lst(s.newid()); s.lists[x.id] = LStore(b, ls.fn, ls.kind); return x
                i = s.ev(n.slice, fr)
                if s.branch(simp(z3.Or(I(i) >= I(ls.n), I(i) < -I(ls.n)))): raise PyRaise('IndexError', 'line %d' % n.lineno)
                return ls.fn(simp(I(i) + I(ls.n)) if s.branch(simp(I(i) < 0)) else i)
            if isinstance(o, Arr):
                if o.ndim == 1: return s.index1(o, n.slice, fr)
                x = s.index(o, n.slice, fr)
                if isinstance(x, tuple): return Elem(s.stores[o.st].fn(simp(I(o.r0) + x[0]), simp(I(o.c0) + x[1])))
                return x
            if isinstance(o, Ext): return Ext(o.name + '[]')
            raise ToolLimit('subscript of ' + type(o).__name__)
        if T is ast.Tuple: return Tup([s.ev(x, fr) for x in n.elts])
        if T is ast.List:
            v = [s.ev(x, fr) for x in n.elts]
            if len(v) == 1 and isinstance(v[0], str):
                x = Lst(s.newid()); c = z3.Const('text_%s' % v[0], StrS); s.lists[x.id] = LStore(1, lambda i: c, ''); return x
            return Tup(v)
        if T is ast.IfExp: return s.ev(n.body if s.truth(s.ev(n.test, fr)) else n.orelse, fr)
        if T is ast.JoinedStr: return Txt()
        if T is ast.Lambda: return ('lambda', n, fr)
        if T is ast.NamedExpr:
            v = s.ev(n.value, fr); s.assign(n.target, v, fr); return v
        raise ToolLimit('expression %s at line %d' % (T.__name__, n.lineno))
    def binop(s, op, a, b):
        T = type(op)
        if isinstance(a, Tup) and isinstance(b, Tup) and T is ast.Add: return Tup(a.v + b.v)
        if isinstance(a, (str, Txt)) and is_sym(b) and b.sort() == StrS or isinstance(b, (str, Txt)) and is_sym(a) and a.sort() == StrS: return Txt()
        if isinstance(a, (str, Txt)) and isinstance(b, (str, Txt)): return a + b if isinstance(a, str) and isinstance(b, str) and T is ast.Add else Txt()
        if T is ast.Mult and isinstance(a, Lst) and num(b):
            ls = s.lists[a.id]
            if ls.n != 1: raise ToolLimit('list repetition')
            x = Lst(s.newid()); c = ls.fn(0); s.lists[x.id] = LStore(Ite(simp(I(b) < 0), 0, b), lambda i: c, ''); return x
        if num(a) and num(b):
            if T is ast.Add: return simp(I(a) + I(b))
            if T is ast.Sub: return simp(I(a) - I(b))
            if T is ast.Mult: return simp(I(a) * I(b))
        if boo(a) and boo(b) and T is ast.BitAnd: return And(a, b)
        if boo(a) and boo(b) and T is ast.BitOr: return Or(a, b)
        raise ToolLimit('operator on %s, %s' % (type(a).__name__, type(b).__name__))
    def compare(s, op, a, b):
        T = type(op)
        if T in (ast.Is, ast.IsNot):
            if b is None or a is None: r = a is None and b is None
            elif isinstance(b, bool) and boo(a): r = eq(a, b)
            elif isinstance(a, Obj) and isinstance(b, Obj): r = a.id == b.id
            else: raise ToolLimit('identity')
            return Not(r) if T is ast.IsNot else r
        if num(a) and num(b):
            a, b = I(a), I(b)
            return simp({ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[T])
        if T in (ast.Eq, ast.NotEq):
            if isinstance(a, Ext) and isinstance(b, Ext): r = a.name == b.name
            elif a is None or b is None: r = a is b
            elif isinstance(a, Tup) and isinstance(b, Tup): r = And(*[s.compare(ast.Eq(), x, y) for x, y in zip(a.v, b.v)]) if len(a.v) == len(b.v) else False
            elif isinstance(a, str) and isinstance(b, str): r = a == b
            elif is_sym(a) and is_sym(b) and a.sort() == b.sort(): r = eq(a, b)
            elif isinstance(a, Sym) and isinstance(b, Sym) and a is b: r = True
            elif boo(a) and boo(b): r = simp(zb(a) == zb(b))
            else: raise ToolLimit('comparison of %s, %s' % (type(a).__name__, type(b).__name__))
            return Not(r) if T is ast.NotEq else r
        if T in (ast.In, ast.NotIn) and isinstance(b, Lst):
            i = s.lookup(b, a); r = i is not None
            return r == (T is ast.In)
        if T in (ast.In, ast.NotIn) and isinstance(b, Tup):
            r = Or(*[s.compare(ast.Eq(), a, y) for y in b.v]); return Not(r) if T is ast.NotIn else r
        raise ToolLimit('comparison')
    def lookup(s, l, v):
        """position of v in a list without duplicates, or None"""
        ls = s.lists[l.id]
        if not is_sym(v): raise ToolLimit('search for ' + type(v).__name__)
        key = ('found', ls, v.get_id())
        for k, r in s.marks:
            if k == key: return r
        f = s.fresh('found', z3.BoolSort())
        if s.branch(f):
            q = s.fresh('position'); s.facts += [q >= 0, q < I(ls.n), ls.fn(q) == v]; s.unique(ls, q, v)
            r = q
        else: r = None; s.absent(ls, v)
        s.marks.append((key, r))
        return r
    def unique(s, ls, q, v): pass
    def absent(s, ls, v): pass
    def attr(s, o, a, fr):
        if isinstance(o, Obj):
            h = s.heap[o.id]
            if a in h: return h[a]
            if a == '__class__': return o.cls
            f = s.find(o.cls, a)
            if isinstance(f, Fn):
                ds = [d.id for d in f.node.decorator_list if isinstance(d, ast.Name)]
                if len(ds) != len(f.node.decorator_list): raise ToolLimit('decorator')
                if ds == ['property']: return s.invoke(f, [o], {})
                if ds == ['staticmethod']: return Meth(None, f)
                if ds: raise ToolLimit('decorator')
                return Meth(o, f)
            if isinstance(f, Cls): return f
            if isinstance(f, tuple): return s.ev(f[1], dict(env={}, f=None, mod=o.cls.mod, self=None))
            raise PyRaise('AttributeError', a)
        if isinstance(o, Super):
            for b in s.bases(o.cls):
                f = s.find(b, a)
                if isinstance(f, Fn): return Meth(o.o, f)
            if a == '__init__': return XMeth(o, 'object.__init__')
            raise PyRaise('AttributeError', a)
        if isinstance(o, Cls):
            if a == '__name__': return o.name
            f = s.find(o, a)
            if isinstance(f, Cls): return f
            if isinstance(f, Fn): return f
            if isinstance(f, tuple): return s.ev(f[1], dict(env={}, f=None, mod=o.mod, self=None))
            raise ToolLimit('class attribute ' + a)
        if isinstance(o, Arr):
            if a == 'shape': return Tup([o.nr, o.nc] if o.ndim == 2 else [o.nc])
            if a == 'ndim': return o.ndim
            if a == 'size': return simp(I(o.nr) * I(o.nc))
            if a == 'T': raise ToolLimit('transpose')
            if a == 'dtype': return Ext('dtype:' + s.stores[o.st].dt)
            return XMeth(o, 'array.' + a)
        if isinstance(o, Lst): return XMeth(o, 'list.' + a)
        if isinstance(o, (Elem, Shm, StrT, Tup)): return XMeth(o, type(o).__name__ + '.' + a)
        if isinstance(o, (str, Txt)): return XMeth(o, 'str.' + a)
        if isinstance(o, Ext): return Ext('%s.%s' % ({'np': 'numpy'}.get(o.name, o.name), a))
        if o is None: raise PyRaise('AttributeError', "'NoneType' object has no attribute '%s'" % a)
        raise ToolLimit('attribute %s of %s' % (a, type(o).__name__))
    # ------------------------------------------------------------ arrays
    def newarr(s, fn, R, C, dt, order='C', ndim=2):
        i = s.newid(); s.stores[i] = Store(fn, R, C, dt, order)
        return Arr(i, 0, R, 0, C, ndim)
    def slice(s, x, size):
        """-> (start, length)"""
        def lim(v, d):
            if v is None: return d
            if not num(v): raise ToolLimit('slice bound')
            return Ite(simp(I(v) < 0), Ite(simp(I(v) + I(size) < 0), 0, simp(I(v) + I(size))), Ite(simp(I(v) > I(size)), size, v))
        a, b = lim(x.a, 0), lim(x.b, size)
        return a, Ite(simp(I(b) > I(a)), simp(I(b) - I(a)), 0)
    def subscript(s, n, fr):
        """the subscript as a list of integers, slices and Ellipsis"""
        if isinstance(n, ast.Slice):
            st = None if n.step is None else s.ev(n.step, fr)
            if st is not None and st != 1: raise ToolLimit('slice with a step')
            return [Slc(*[None if x is None else s.ev(x, fr) for x in (n.lower, n.upper)])]
        if isinstance(n, ast.Tuple): return [y for x in n.elts for y in s.subscript(x, fr)]
        v = s.ev(n, fr)
        return list(v.v) if isinstance(v, Tup) else [v]
    def index(s, o, n, fr):
        el = s.subscript(n, fr)
        if o.ndim != 2: raise ToolLimit('index of a one-dimensional array')
        if Ellipsis in [x for x in el if x is Ellipsis]:
            p = [k for k, x in enumerate(el) if x is Ellipsis]
            if len(p) > 1 or len(el) > 3: raise ToolLimit('ellipsis')
            el = el[:p[0]] + [Slc(None, None)] * (3 - len(el)) + el[p[0] + 1:]
        if len(el) == 1: el = el + [Slc(None, None)]
        if len(el) != 2: raise ToolLimit('index')
        k = [isinstance(x, Slc) for x in el]
        d = []
        for v, size, sl in zip(el, (o.nr, o.nc), k):
            if sl: d.append(s.slice(v, size))
            else:
                if not num(v) or boo(v): raise ToolLimit('index')
                if s.branch(simp(z3.Or(I(v) >= I(size), I(v) < -I(size)))): raise PyRaise('IndexError')
                d.append((simp(I(v) + I(size)) if s.branch(simp(I(v) < 0)) else v, None))
        if k == [False, False]: return (I(d[0][0]), I(d[1][0]))
        if k != [True, True]: raise ToolLimit('row or column')
        return Arr(o.st, simp(I(o.r0) + I(d[0][0])), d[0][1], simp(I(o.c0) + I(d[1][0])), d[1][1])
    def index1(s, o, n, fr):
        el = s.subscript(n, fr)
        if len(el) != 1: raise ToolLimit('index of a one-dimensional array')
        v = el[0]
        if isinstance(v, Slc): a, l = s.slice(v, o.nc); return Arr(o.st, o.r0, o.nr, simp(I(o.c0) + I(a)), l, 1)
        if not num(v) or boo(v): raise ToolLimit('index')
        if s.branch(simp(z3.Or(I(v) >= I(o.nc), I(v) < -I(o.nc)))): raise PyRaise('IndexError')
        v = simp(I(v) + I(o.nc)) if s.branch(simp(I(v) < 0)) else v
        return Elem(s.stores[o.st].fn(I(o.r0), simp(I(o.c0) + I(v))))
    def cast(s, v, dt, src):
        """the value as an element of a storage of type dt"""
        if dt == src: return v
        return z3.Function('as_%s_from_%s' % (dt, src), Val, Val)(v)
    def scalar(s, v, dt):
        if isinstance(v, Elem): return s.cast(v.v, dt, v.tag)
        if num(v) and not isinstance(v, bool): return toV(I(v))
        if isinstance(v, bool): return toV(I(int(v)))
        if isinstance(v, Sym): return s.cast(z3.Const('sym_' + v.name, Val), dt, 'any')
        if isinstance(v, Ext) and v.name == 'numpy.nan': return z3.Const('nan', Val)
        if isinstance(v, float): return z3.Const('float_%s' % v, Val)
        raise ToolLimit('scalar')
    def setelem(s, o, r, c, v):
        st = s.stores[o.st]; old = st.fn; x = s.scalar(v, st.dt); R, C = simp(I(o.r0) + r), simp(I(o.c0) + c)
        s.stores[o.st] = Store(lambda i, j: z3.If(z3.And(I(i) == I(R), I(j) == I(C)), x, old(i, j)), st.R, st.C, st.dt, st.order)
    def inside(s, a, i, j): return z3.And(I(i) >= I(a.r0), I(i) < I(a.r0) + I(a.nr), I(j) >= I(a.c0), I(j) < I(a.c0) + I(a.nc))
    def setblock(s, t, v):
        st = s.stores[t.st]; old = st.fn
        if isinstance(v, Arr):
            if s.branch(Not(And(Or(eq(v.nr, t.nr), eq(v.nr, 1)), Or(eq(v.nc, t.nc), eq(v.nc, 1))))): raise PyRaise('ValueError', 'could not broadcast')
            src = s.stores[v.st]; sf = src.fn; one_r, one_c = And(eq(v.nr, 1), Not(eq(t.nr, 1))), And(eq(v.nc, 1), Not(eq(t.nc, 1)))
            val = lambda i, j: s.cast(sf(simp(I(v.r0) + I(Ite(one_r, 0, simp(I(i) - I(t.r0))))), simp(I(v.c0) + I(Ite(one_c, 0, simp(I(j) - I(t.c0)))))), st.dt, src.dt)
        else:
            x = s.scalar(v, st.dt); val = lambda i, j: x
        s.stores[t.st] = Store(lambda i, j: z3.If(s.inside(t, i, j), val(i, j), old(i, j)), st.R, st.C, st.dt, st.order)
    # ------------------------------------------------------------ contracts of what is outside
    def external(s, f, nm, a, kw):
        s.contracts[nm] = s.contracts.get(nm, 0) + 1
        r = s.world(f, nm, a, kw)
        if r is not NotImplemented: return r
        raise ToolLimit('no contract for ' + nm)
