"""Lazy reader of textual LLVM IR (as printed by clang/opt 18): types, layout, globals, functions.

Only the instruction set clang emits for this code base at -O0 (+mem2reg) is understood; anything
else raises Unsupported, which the checks report as a tool limit (never as a violation)."""
import re, subprocess

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'n', '_size', '_align', '_offs', 'name')
    def __init__(s, k, a=None, n=None, name=None):
        s.k, s.a, s.n, s.name = k, a, n, name
        s._size = s._align = s._offs = None
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k == 'named': return '%' + s.name
        if s.k in ('array', 'vector'): return '[%d x %r]' % (s.n, s.a)
        if s.k == 'struct': return '{' + ', '.join(map(repr, s.a)) + '}'
        return s.k

PTR = Ty('ptr'); VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double')
_INTS = {}
def INT(n):
    if n not in _INTS: _INTS[n] = Ty('int', n=n)
    return _INTS[n]

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"])*")
 | (?P<var>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?|-?[0-9]+(?![a-zA-Z_]))
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '': break
            raise Unsupported('tokenize: ' + s[i:i+60])
        out.append(m.group(m.lastgroup)); i = m.end()
    return out

def unq(name):
    """%"x y" -> x y ; %5 -> 5"""
    name = name[1:]
    if name.startswith('"'): name = name[1:-1]
    return name

class Const:
    """constant expression needing evaluation against a module"""
    __slots__ = ('k', 'a')
    def __init__(s, k, a): s.k, s.a = k, a
    def __repr__(s): return 'Const(%s,%r)' % (s.k, s.a)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')
    def __repr__(s): return s.text

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'writable', 'readonly', 'readnone',
  'returned', 'dead_on_unwind', 'immarg', 'inreg', 'writeonly', 'nofree', 'nest', 'swiftself', 'allocptr', 'noreturn', 'nounwind'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'tail', 'musttail', 'notail', 'samesign'}

class P:
    def __init__(s, toks, mod): s.t, s.i, s.m = toks, 0, mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def acc(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def exp(s, x):
        if not s.acc(x): raise Unsupported('parse: expected %s at %r' % (x, s.t[s.i:s.i+8]))
    def type(s):
        t = s.next()
        if t == 'ptr':
            if s.acc('addrspace'): s.exp('('); s.next(); s.exp(')')
            r = PTR
        elif t == 'void': r = VOID
        elif t == 'float': r = FLOAT
        elif t == 'double': r = DOUBLE
        elif t == 'x86_fp80': r = Ty('fp80')
        elif t in ('metadata', 'label', 'token'): r = Ty(t)
        elif t[0] == 'i' and t[1:].isdigit(): r = INT(int(t[1:]))
        elif t == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']'); r = Ty('array', e, n)
        elif t == '<':
            if s.peek() == '{':
                s.next(); el = []
                while not s.acc('}'):
                    el.append(s.type()); s.acc(',')
                s.exp('>'); r = Ty('struct', el); r.name = 'packed'
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>'); r = Ty('vector', e, n)
        elif t == '{':
            el = []
            while not s.acc('}'):
                el.append(s.type()); s.acc(',')
            r = Ty('struct', el)
        elif t[0] == '%': r = s.m.named(unq(t))
        else: raise Unsupported('type %r' % t)
        while s.peek() == '(' and r.k in ('void', 'ptr', 'int', 'float', 'double', 'struct', 'named') and s.fnty_ahead():
            # function type: skip parameter list
            d = 0
            while True:
                x = s.next()
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            # used only for call function types 'ret (params)'
        return r
    def fnty_ahead(s):
        # a '(' right after a type means a function type in the contexts we parse (call with varargs)
        return True
    def attrs(s):
        d = {}
        while True:
            t = s.peek()
            if t in PARAM_ATTRS: d[t] = True; s.i += 1
            elif t == 'align':
                s.i += 1
                if s.acc('('): s.next(); s.exp(')')
                else: s.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'allocalign', 'captures', 'memory', 'inalloca', 'preallocated', 'range', 'nofpclass'):
                s.i += 1; st = s.i; dpt = 0
                s.exp('('); dpt = 1
                while dpt:
                    x = s.next()
                    if x == '(': dpt += 1
                    if x == ')': dpt -= 1
                d[t] = P(s.t[st+1:s.i-1], s.m).type() if t in ('sret', 'byval') else True
            else: break
        return d
    def value(s, ty):
        t = s.next()
        if t[0] == '%': return ('v', unq(t))
        if t[0] == '@': return ('g', unq(t))
        if t == 'true': return ('c', 1)
        if t == 'false': return ('c', 0)
        if t in ('null',): return ('c', None)
        if t in ('undef', 'poison'): return ('u', ty)
        if t == 'zeroinitializer': return ('z', ty)
        if t == 'none': return ('c', None)
        if re.match(r'-?[0-9]+$', t): return ('c', int(t))
        if t.startswith('0x') or t.startswith('-0x') or re.match(r'-?[0-9]+\.', t): return ('f', (ty, t))
        if t[:2] == 'c"': return ('s', t[2:-1])
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]; packed = False
            if t == '<' and s.peek() == '{': s.next(); packed = True; close = '}'
            el = []
            while not s.acc(close):
                et = s.type(); el.append((et, s.value(et))); s.acc(',')
            if packed: s.exp('>')
            return ('agg', el)
        if t in ('getelementptr',):
            while s.peek() in FLAGS or s.peek() == 'inrange': s.next()
            s.exp('('); bt = s.type(); s.exp(','); ops = []
            while not s.acc(')'):
                if s.acc('inrange'): pass
                et = s.type(); ops.append((et, s.value(et))); s.acc(',')
            return ('gep', bt, ops)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            s.exp('('); et = s.type(); v = s.value(et); s.exp('to'); tt = s.type(); s.exp(')')
            return ('cast', t, et, v, tt)
        if t in ('sub', 'add', 'mul'):
            while s.peek() in FLAGS: s.next()
            s.exp('('); et = s.type(); a = s.value(et); s.exp(','); et2 = s.type(); b = s.value(et2); s.exp(')')
            return ('bin', t, et, a, b)
        if t in ('asm',): return ('asm', None)
        raise Unsupported('value %r' % t)
    def tv(s):
        ty = s.type(); s.attrs(); return ty, s.value(ty)

class Block:
    __slots__ = ('name', 'ins', 'succs')
    def __init__(s, n): s.name = n; s.ins = []; s.succs = []

class Function:
    def __init__(s, name, params, rty): s.name, s.params, s.rty = name, params, rty; s.blocks = {}; s.order = []; s.demangled = name

class Module:
    def __init__(s, path):
        s.path = path
        txt = open(path).read()
        s.types = {}; s.typedefs = {}; s.gtext = {}; s.ftext = {}; s.decl = {}; s.fcache = {}; s.dbgtext = {}
        s.alias = {}
        lines = txt.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l: i += 1; continue
            c = l[0]
            if c == '%':
                m = re.match(r'%("[^"]*"|[-\w$.]+) = type (.*)$', l)
                s.typedefs[m.group(1).strip('"')] = m.group(2)
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
                if re.search(r'\balias\b', m.group(2)[:120]): s.alias[m.group(1).strip('"')] = unq(re.search(r'(@[-\w$."]+)\s*$', m.group(2).split(', !')[0]).group(1))
                else: s.gtext[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('define'):
                st = i
                while lines[i] != '}': i += 1
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                s.ftext[m.group(1).strip('"')] = (st, i)
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                s.decl[m.group(1).strip('"')] = l
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: s.dbgtext[m.group(1)] = m.group(2)
            i += 1
        s.lines = lines
        s._dem = None
        s.gcache = {}
    def demangle(s, name):
        if s._dem is None:
            names = list(s.ftext) + list(s.decl)
            # strip .N suffixes of internal symbols
            out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
            s._dem = dict(zip(names, out))
        return s._dem.get(name, name)
    def find(s, pred):
        s.demangle('')
        return [n for n, d in s._dem.items() if n in s.ftext and pred(d)]
    def named(s, n):
        t = s.types.get(n)
        if t is None:
            t = s.types[n] = Ty('named', name=n)
        return t
    def body(s, t):
        """resolve named struct"""
        if t.k == 'named':
            if t.a is None:
                d = s.typedefs[t.name]
                if d == 'opaque': raise Unsupported('opaque type ' + t.name)
                t.a = P(tokenize(d), s).type()
            return t.a
        return t
    def size(s, t):
        if t._size is None: s._layout(t)
        return t._size
    def align(s, t):
        if t._align is None: s._layout(t)
        return t._align
    def offsets(s, t):
        b = s.body(t)
        if b._size is None: s._layout(b)
        return b._offs
    def _layout(s, t):
        if t.k == 'int':
            by = (t.n + 7) // 8
            p = 1
            while p < by: p *= 2
            t._align = min(p, 16); t._size = p if t.n <= 64 else (by + 15) // 16 * 16
        elif t.k == 'ptr' or t.k == 'double': t._size = t._align = 8
        elif t.k == 'float': t._size = t._align = 4
        elif t.k == 'fp80': t._size = t._align = 16
        elif t.k == 'array': t._size = s.size(t.a) * t.n; t._align = s.align(t.a)
        elif t.k == 'vector': t._size = s.size(t.a) * t.n; t._align = t._size
        elif t.k == 'named':
            b = s.body(t); t._size = s.size(b); t._align = s.align(b); t._offs = b._offs
        elif t.k == 'struct':
            o = 0; al = 1; offs = []
            packed = t.name == 'packed'
            for e in t.a:
                ea = 1 if packed else s.align(e); al = max(al, ea)
                o = (o + ea - 1) // ea * ea; offs.append(o); o += s.size(e)
            t._offs = offs; t._align = al; t._size = (o + al - 1) // al * al
        elif t.k == 'void': t._size = 0; t._align = 1
        else: raise Unsupported('layout %r' % t)
    # ------------------------------------------------------------ globals
    def ginit(s, name):
        """-> (type, value-or-None, is_const)"""
        if name in s.gcache: return s.gcache[name]
        txt = s.gtext[name]
        toks = tokenize(txt); p = P(toks, s)
        const = None; ext = False
        while True:
            t = p.next()
            if t in ('global', 'constant'): const = (t == 'constant'); break
            if t == 'external' or t == 'extern_weak': ext = True
            if t in ('thread_local',) and p.peek() == '(':
                while p.next() != ')': pass
        ty = p.type(); val = None
        if not ext: val = p.value(ty)
        s.gcache[name] = (ty, val, const)
        return s.gcache[name]
    # ------------------------------------------------------------ functions
    def func(s, name):
        name = s.alias.get(name, name)
        f = s.fcache.get(name)
        if f is None and name in s.ftext:
            f = s.fcache[name] = s._parse_fn(name)
            f.demangled = s.demangle(name)
        return f
    def line_of(s, dbg):
        if not dbg: return None
        d = s.dbgtext.get(dbg)
        if not d: return None
        m = re.search(r'line: (\d+)', d)
        return int(m.group(1)) if m else None
    def file_of(s, dbg):
        d = s.dbgtext.get(dbg or '')
        for _ in range(20):
            if not d: return None
            m = re.search(r'file: !(\d+)', d)
            if m:
                fd = s.dbgtext.get(m.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', fd)
                return mm.group(1) if mm else None
            m = re.search(r'scope: !(\d+)', d)
            d = s.dbgtext.get(m.group(1)) if m else None
        return None
    def _parse_fn(s, name):
        st, en = s.ftext[name]
        hdr = s.lines[st]
        # parameters
        i = hdr.index('@' + name + '(') if ('@' + name + '(') in hdr else hdr.index('@"' + name + '"(')
        j = hdr.index('(', i); d = 0; k = j
        while True:
            if hdr[k] == '(': d += 1
            elif hdr[k] == ')':
                d -= 1
                if d == 0: break
            elif hdr[k] == '"': k = hdr.index('"', k+1)
            k += 1
        p = P(tokenize(hdr[j+1:k]), s); params = []; idx = 0
        while p.peek() is not None:
            if p.acc('...'): break
            ty = p.type(); at = p.attrs(); t = p.peek()
            if t and t[0] == '%': nm = unq(p.next())
            else: nm = str(idx)
            params.append((nm, ty, at)); idx += 1; p.acc(',')
        # return type: last type token sequence before @name
        rtoks = tokenize(hdr[len('define'):i]); rp = P(rtoks, s)
        rty = None
        skip = {'weak_odr', 'linkonce_odr', 'internal', 'private', 'dso_local', 'hidden', 'weak', 'unnamed_addr', 'local_unnamed_addr', 'linkonce', 'external', 'protected', 'available_externally', 'fastcc', 'ccc'}
        while rp.peek() in skip: rp.next()
        rp.attrs(); rty = rp.type()
        f = Function(name, params, rty)
        f.noreturn = False
        # entry label number = number of unnamed params
        cur = None; i = st + 1
        first = True
        while i < en:
            l = s.lines[i]; i += 1
            if not l.strip(): continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
            if m:
                cur = Block(m.group(1).strip('"')); f.blocks[cur.name] = cur; f.order.append(cur.name); first = False; continue
            if first:
                # implicit entry label
                cur = Block('entry%'); f.blocks[cur.name] = cur; f.order.append(cur.name); first = False
                f.implicit_entry = str(len([1 for p_ in params]))
            full = l
            # multi-line: landingpad clauses, switch, invoke (2 lines)
            while i < en and (full.rstrip().endswith('[') or (re.match(r'\s*(%[^=]* = )?invoke ', full) and ' unwind label' not in full) or
                    (s.lines[i].startswith('          ') and (re.match(r'\s*%[^=]* = landingpad ', full))) or (full.lstrip().startswith('switch ') and full.count('[') > full.count(']'))):
                full += ' ' + s.lines[i].strip(); i += 1
            cur.ins.append(full)
        # implicit entry label is the number following params
        if 'entry%' in f.blocks:
            b = f.blocks['entry%']
            nm = f.implicit_entry
            b.name = nm; f.blocks = {(nm if k_ == 'entry%' else k_): v for k_, v in f.blocks.items()}; f.order[0] = nm
        for b in f.blocks.values():
            b.ins = [s._parse_ins(x) for x in b.ins]
            t = b.ins[-1]
            if t.op == 'br': b.succs = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': b.succs = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke': b.succs = [t.a[-2], t.a[-1]]
            else: b.succs = []
        f.entry = f.order[0]
        return f
    def _parse_ins(s, text):
        I = Instr(); I.text = text.strip(); I.dbg = None; I.res = None; I.ty = None
        m = re.search(r', !dbg !(\d+)', text)
        if m: I.dbg = m.group(1)
        body = re.sub(r',? ![a-zA-Z][\w.]* !\{?[^,\n]*', '', text)
        toks = tokenize(body); p = P(toks, s)
        if p.peek(1) == '=' and p.peek()[0] == '%':
            I.res = unq(p.next()); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        I.op = op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in FLAGS: p.next()
            ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            I.ty = ty; I.a = (a, b)
        elif op == 'fneg':
            while p.peek() in FLAGS: p.next()
            ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            c = p.next(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            I.ty = ty; I.a = (c, a, b)
        elif op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in FLAGS: p.next()
            ty = p.type(); a = p.value(ty); p.exp('to'); tt = p.type()
            I.ty = tt; I.a = (ty, a)
        elif op == 'load':
            while p.peek() in FLAGS or p.peek() == 'atomic': p.next()
            ty = p.type(); p.exp(','); pt = p.type(); a = p.value(pt); I.ty = ty; I.a = (a,)
        elif op == 'store':
            while p.peek() in FLAGS or p.peek() == 'atomic': p.next()
            ty = p.type(); v = p.value(ty); p.exp(','); pt = p.type(); a = p.value(pt); I.ty = ty; I.a = (v, a)
        elif op == 'alloca':
            ty = p.type(); n = ('c', 1); nt = INT(32)
            if p.acc(',') and p.peek() != 'align':
                nt = p.type(); n = p.value(nt)
            I.ty = ty; I.a = (nt, n)
        elif op == 'getelementptr':
            while p.peek() in FLAGS: p.next()
            bt = p.type(); p.exp(','); ops = []
            while True:
                et = p.type(); ops.append((et, p.value(et)))
                if not p.acc(','): break
            I.ty = bt; I.a = ops
        elif op == 'br':
            if p.acc('label'): I.a = (unq(p.next()),)
            else:
                ty = p.type(); c = p.value(ty); p.exp(','); p.exp('label'); x = unq(p.next()); p.exp(','); p.exp('label'); y = unq(p.next())
                I.a = (c, x, y)
        elif op == 'switch':
            ty = p.type(); v = p.value(ty); p.exp(','); p.exp('label'); d = unq(p.next()); p.exp('['); cs = []
            while not p.acc(']'):
                t2 = p.type(); c = p.value(t2); p.exp(','); p.exp('label'); cs.append((c, unq(p.next())))
            I.ty = ty; I.a = (v, d, cs)
        elif op == 'ret':
            ty = p.type(); I.ty = ty; I.a = (p.value(ty),) if ty.k != 'void' else ()
        elif op == 'phi':
            while p.peek() in FLAGS: p.next()
            ty = p.type(); inc = []
            while True:
                p.exp('['); v = p.value(ty); p.exp(','); b = unq(p.next()); p.exp(']'); inc.append((v, b))
                if not p.acc(','): break
            I.ty = ty; I.a = inc
        elif op == 'select':
            while p.peek() in FLAGS: p.next()
            ct = p.type(); c = p.value(ct); p.exp(','); ty = p.type(); a = p.value(ty); p.exp(','); p.type(); b = p.value(ty)
            I.ty = ty; I.a = (c, a, b)
        elif op in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in ('ccc', 'fastcc', 'coldcc'): p.next()
            p.attrs()
            # return type / function type
            rty = p.type()
            callee = p.value(PTR) if p.peek() != 'asm' else ('asm', None)
            if callee[0] == 'asm': I.a = (callee, []); I.ty = rty; return I
            p.exp('('); args = []
            while not p.acc(')'):
                ty = p.type(); at = p.attrs()
                if ty.k == 'metadata':
                    while p.peek() not in (',', ')'): p.next()
                    args.append((ty, ('c', 0), at))
                else: args.append((ty, p.value(ty), at))
                p.acc(',')
            I.ty = rty
            if op == 'call': I.a = (callee, args)
            else:
                while p.peek() != 'to': p.next()
                p.exp('to'); p.exp('label'); x = unq(p.next()); p.exp('unwind'); p.exp('label'); y = unq(p.next())
                I.a = (callee, args, x, y)
        elif op == 'extractvalue':
            ty = p.type(); v = p.value(ty); idx = []
            while p.acc(','): idx.append(int(p.next()))
            I.ty = ty; I.a = (v, idx)
        elif op == 'insertvalue':
            ty = p.type(); v = p.value(ty); p.exp(','); t2 = p.type(); v2 = p.value(t2); idx = []
            while p.acc(','): idx.append(int(p.next()))
            I.ty = ty; I.a = (v, v2, idx)
        elif op == 'landingpad':
            ty = p.type(); cl = False; clauses = []
            while p.peek() is not None:
                t = p.next()
                if t == 'cleanup': cl = True
                elif t in ('catch', 'filter'):
                    ct = p.type(); clauses.append((t, p.value(ct)))
            I.ty = ty; I.a = (cl, clauses)
        elif op == 'resume':
            ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
        elif op == 'unreachable': I.a = ()
        elif op in ('extractelement',):
            ty = p.type(); v = p.value(ty); p.exp(','); t2 = p.type(); I.ty = ty; I.a = (v, p.value(t2))
        elif op in ('insertelement',):
            ty = p.type(); v = p.value(ty); p.exp(','); t2 = p.type(); v2 = p.value(t2); p.exp(','); t3 = p.type(); I.ty = ty; I.a = (v, v2, p.value(t3))
        elif op == 'freeze':
            ty = p.type(); I.ty = ty; I.a = (p.value(ty),)
        elif op in ('atomicrmw', 'cmpxchg', 'fence', 'shufflevector', 'va_arg'):
            I.a = ()   # reported as unsupported only if executed
        else:
            raise Unsupported('instruction ' + op + ': ' + text)
        return I
