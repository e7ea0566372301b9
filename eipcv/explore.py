"""Contracts of the public operations of Server and Client, checked for every state an object can be in.

The set of states is the least set closed under all public operations, computed symbolically: after every
operation the result is abstracted (control fields, handles and lock tokens kept, everything else made
arbitrary) and becomes a new start state, until no new one appears.  That set is the class invariant; every
obligation is discharged by z3 for all values of everything else."""
import sys, time, z3
import symex
from symex import *
from llir import Module, Unsupported, INT, PTR
from world import bv64, short, THREW, U32
from shmworld import *
from poly import poly_eq

INST = {'dR': ('double', 8, 1, 1), 'dC': ('double', 8, 0, 1), 'fR': ('float', 4, 1, 0), 'fC': ('float', 4, 0, 0),
        'iR': ('int', 4, 1, 2), 'iC': ('int', 4, 0, 2), 'bR': ('bool', 1, 1, 3), 'bC': ('bool', 1, 0, 3)}
# element type -> published code is read from the code; only agreement and distinctness are required

def eqp(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a - b) % (1 << 64) == 0
    if poly_eq(a if isinstance(a, int) else a, b if isinstance(b, int) else b): return True
    return nbool(bv64(a) == bv64(b))

def sx(v): return (v if v < 1 << 31 else v - (1 << 32)) % (1 << 64) if isinstance(v, int) else z3.SignExt(32, v)

def Resolver(must):
    """decide the conditionals of a value that the path condition decides"""
    rcache = {}
    def rsv(v):
        i = v.get_id()
        if i in rcache: return rcache[i][1]
        r = v
        if z3.is_app_of(v, z3.Z3_OP_ITE) and not z3.is_bool(v):
            c, x, y = v.children()
            if must(c): r = rsv(x)
            elif must(b_not(c)): r = rsv(y)
            else:
                x2, y2 = rsv(x), rsv(y)
                if x2 is not x or y2 is not y: r = z3.If(c, x2, y2)
        elif z3.is_app(v) and not z3.is_bool(v) and v.num_args():
            sub = [(a, b) for a, b in ((c, rsv(c)) for c in v.children() if not z3.is_bool(c)) if a is not b]
            if sub: r = z3.substitute(v, *sub)
        rcache[i] = (v, r)
        return r
    return lambda v: norm(rsv(v)) if is_sym(v) else v

class AState:
    __slots__ = ('cells', 'g', 'key', 'id', 'how', 'ctl', 'hav', 'alts', 'hg')

class Explorer:
    def __init__(s, mod, endpoint, inst, props, force=False, other=False, may_fail_post=False, deadline=None, assume=None, coarse=True, failfast=False):
        s.failfast = failfast
        s.coarse = coarse; s.hvax = set()
        s.endpoint, s.inst = endpoint, inst
        s.cpp, s.sz, s.rowmajor, _ = INST[inst]
        s.force = force
        w = s.w = ShmWorld(props, endpoint, s.sz)
        w.harness = s; w.may_fail_post = may_fail_post
        e = s.e = Engine(mod, w)
        e.deadline = deadline
        s.props = set(props)
        s.states = {}; s.done = []; s.wide = {}; s.nid = 0; s.todo = []; s.notes = []; s.limits = []
        s.canon = {}
        s.other = other
        s.nops = 0
        # strings
        st = State()
        s.base = e.new_obj('base', 32, 'ext'); s.ns = e.new_obj('ns', 32, 'ext')
        st.w(s.base.id)[0] = (32, Str((('a', 'name'),))); st.w(s.ns.id)[0] = (32, Str((('a', 'namespace'),)))
        s.init = st
        w.mute = True
        cfg = e.new_obj('cfg', None, 'ext'); st.mem[cfg.id] = {}
        r = e.call(st, 'drv_cfg', [Ptr(cfg.id, 0), Ptr(s.base.id, 0), Ptr(s.ns.id, 0)], PTR)
        s.items = []
        for i, role in enumerate(ROLES):
            r2 = e.call(r.ret, 'drv_cfg_item', [Ptr(cfg.id, 0), i], PTR)
            p = w.gets(r2.ret, r2.val); s.items.append(p)
            w.paths.setdefault(p, role)
            r.ret = r2.ret
        w.mute = False
        # rigid parameters
        s.rows = z3.BitVec('n_rows', 32); s.cols = z3.BitVec('n_cols', 32)
        s.verbose = z3.Bool('verbose'); s.vl = z3.BitVec('vlevel', 32); s.safe = z3.Bool('safe')
        w.axioms += [s.rows >= 0, s.cols >= 0, z3.ULE(s.vl, 3)]
        s.rigid = {str(x) for x in (s.rows, s.cols, s.verbose, s.vl, s.safe)}
        s.pubs = {}
        for r_ in ('nrows', 'ncols', 'dtype', 'layout'):
            s.pubs[r_] = z3.BitVec('pub_' + r_, 32)
        w.axioms += [s.pubs['nrows'] >= 0, s.pubs['ncols'] >= 0]
        # user tensor parameters
        s.ur, s.uc, s.uo, s.ui = [z3.BitVec(n, 64) for n in ('blk_rows', 'blk_cols', 'outer', 'inner')]
        s.row = z3.BitVec('row', 32); s.col = z3.BitVec('col', 32)
        lim = 1 << 40
        w.axioms += [z3.And(x > -lim, x < lim) for x in (s.ur, s.uc, s.uo, s.ui)] + [s.uo != 0]
        s.rigid |= {str(x) for x in (s.ur, s.uc, s.uo, s.ui, s.row, s.col)}
        s.user = e.new_obj('user', None, 'user')
        s.copied = []
    def fn(s, op): return 'drv_%s_%s_%s' % (s.endpoint, op, s.inst)
    # ---------------------------------------------------------------- running operations
    def fresh_state(s, a):
        st = s.init.clone()
        if a is not None:
            st.mem[s.this.id] = dict(a.cells); st.g = dict(a.g); st.g.update(a.hg)
        s.w.reset_call(st)
        if s.endpoint == 'clt':
            for r in s.pubs: st.g[('pub', r)] = s.pubs[r]
        return st
    def call(s, st, op, args):
        w = s.w
        w.op = op
        s.nops += 1
        return s.e.call(st, s.fn(op), args, None)
    def start(s):
        e, w = s.e, s.w
        r = e.call(s.init.clone(), 'drv_%s_sizeof_%s' % (s.endpoint, s.inst), [])
        s.this = e.new_obj('this', r.val, 'ext')
        w.other = s.other == 'ctor'
        st = s.fresh_state(None); st.mem[s.this.id] = {}; st.own.add(s.this.id)
        w.ctx = 'construct'
        this = Ptr(s.this.id, 0)
        if s.endpoint == 'srv':
            r = s.call(st, 'ctor', [this, s.rows, s.cols, Ptr(s.base.id, 0), Ptr(s.ns.id, 0), s.verbose, s.vl, int(s.force), s.safe])
        else:
            r = s.call(st, 'ctor', [this, Ptr(s.base.id, 0), Ptr(s.ns.id, 0), s.verbose, s.vl, s.safe])
        s.post('ctor', None, r)
    def explore(s, maxstates=80):
        s.start()
        if s.failfast and any(not o['ok'] for o in s.e.obl): return
        while s.todo:
            a = s.todo.pop(0)
            s.done.append(a)
            for op in s.ops(a):
                if a.key not in s.states: break      # covered by a newer state, which is checked instead
                k = len(s.e.obl); s.step(a, op)
                if s.failfast and any(not o['ok'] for o in s.e.obl[k:]): return
                if s.e.deadline and time.time() > s.e.deadline: raise ToolLimit('time limit')
            if len(s.states) > maxstates: raise ToolLimit('more than %d object states' % maxstates)
    def ops(s, a):
        if a.g.get('sp_dead'): return []
        if s.endpoint == 'srv':
            l = ['run', 'stop', 'close', 'nclients', 'acq', 'rel', 'isrunning', 'nrows', 'ncols', 'dtype', 'layout', 'dtor']
        else:
            l = ['attach', 'detach', 'close', 'acq', 'rel', 'isattached', 'nrows', 'ncols', 'dtype', 'layout', 'dtor']
        return l + list(RW)
    def step(s, a, op):
        w = s.w
        st = s.fresh_state(a)
        this = Ptr(s.this.id, 0)
        args = [this]
        if op in RW:
            args += [Ptr(s.user.id, 0), s.ur, s.uc, s.uo] + ([s.ui] if op.endswith('view') else []) + [s.row, s.col]
        w.ctx = 'state %d (%s) -> %s' % (a.id, a.how, op)
        w.assume_rel = op == 'rel'
        # precondition of a manual unlock: the caller took the lock (else only an endpoint without lock handles is left)
        if w.assume_rel and a.g.get('sp_init') and not a.g.get('sp_user'): w.assume_rel = 'never'
        w.other = s.other == 'run' and op == 'run'
        s.cur = a
        if op in RW: s.shape(a)
        try:
            r = s.call(st, op, args)
        except (ToolLimit, Unsupported) as x:
            s.limits.append((w.ctx, str(x)))
            return
        finally:
            w.assume_rel = False
        s.post(op, a, r)
    def observe(s, st, op, rty=None):
        """value a getter would return in this state (no effect)"""
        w = s.w
        m, o, c = w.mute, w.op, w.ctx
        w.mute = True
        try:
            r = s.e.call(st.clone(), s.fn(op), [Ptr(s.this.id, 0)])
            if r.ret is None or r.thr is not None: raise ToolLimit('getter does not return')
            return r.val
        finally: w.mute = m; w.op = o; w.ctx = c
    def shape(s, a):
        """row and column counts of the shared tensor, as the specification sees them"""
        if s.endpoint == 'srv': s.M, s.N = s.rows, s.cols
        else:
            st = s.fresh_state(a)
            s.M = s.observe(st, 'nrows'); s.N = s.observe(st, 'ncols')
    # ---------------------------------------------------------------- copies (reads and writes)
    def fits(s):
        M, N = sx(s.M), sx(s.N); r, c = sx(s.row), sx(s.col)
        M, N = bv64(M), bv64(N)
        return nbool(z3.And(r >= 0, c >= 0, s.ur >= 0, s.uc >= 0, r + s.ur <= M, c + s.uc <= N))
    def strict(s):
        M, N = bv64(sx(s.M)), bv64(sx(s.N))
        return b_and(s.fits(), nbool(z3.And(sx(s.row) < M, sx(s.col) < N)))
    def on_copy(s, e, st, db, dv, sb, sv):
        w = s.w
        op = w.op
        inc(st.g, 'n_touch')
        write = op.startswith('write'); view = op.endswith('view')
        ctl = s.cur
        live = ctl.g.get('sp_run') if s.endpoint == 'srv' else ctl.g.get('sp_att')
        live = False if live is None else live
        e.oblige(st, 'C04', 'data is touched only while running / attached', live)
        e.oblige(st, 'C03', 'safe mode: data is touched only after this call acquired the data lock',
                 b_or(b_not(s.safe), b_and(w.holding(st), nbool(st.g['n_acq'] == 1) if is_sym(st.g['n_acq']) else st.g['n_acq'] == 1)))
        shb, shv, usb, usv = (db, dv, sb, sv) if write else (sb, sv, db, dv)
        okb = True; oku = False; size_ok = True
        M, N = sx(s.M), sx(s.N)
        rs, cs = (N, 1) if s.rowmajor else (1, M)
        want = bv64(s.sz) * (bv64(sx(s.row)) * bv64(rs) + bv64(sx(s.col)) * bv64(cs))
        bad = False
        for c, p in alts_of(shb):
            if isinstance(p, Ptr) and e.objs[p.o].kind == 'region' and e.objs[p.o].x['role'] == 'data':
                x = e.objs[p.o].x
                okb = b_and(okb, b_or(b_not(c), eqp(p.off, want)))
                total = bv64(s.sz) * bv64(M) * bv64(N)
                szk = eqp(x['size'], total)
                fsz = eqp(x['fsize'], total) if x['fsize'] is not None else False
                size_ok = b_and(size_ok, b_or(b_not(c), b_and(szk, fsz, x['shared'])))
            else: bad = b_or(bad, c)
        for c, p in alts_of(usb):
            if isinstance(p, Ptr) and p.o == s.user.id: oku = b_or(oku, b_and(c, eqp(p.off, 0)))
        dims = b_and(eqp(dv[0], s.ur), eqp(dv[1], s.uc), eqp(sv[0], s.ur), eqp(sv[1], s.uc), dv[4] == s.sz, sv[4] == s.sz)
        def stride(v, want, n): return b_or(eqp(v, want), nbool(n <= 1)) if not eqp(v, want) is True else True
        sst = b_and(stride(shv[2], rs, s.ur), stride(shv[3], cs, s.uc))
        if view: uo, ui = s.uo, s.ui
        else: uo, ui = s.uo, 1
        ust = b_and(stride(usv[2], uo if s.rowmajor else ui, s.ur), stride(usv[3], ui if s.rowmajor else uo, s.uc))
        L = 'write' if write else 'read'
        e.oblige(st, 'C01', L + ' addresses the shared tensor data', b_not(bad))
        e.oblige(st, 'C13', L + ' uses the memory named as the data of the tensor', b_not(bad))
        e.oblige(st, 'C01', L + ': shared block starts at element (row, col)', okb)
        e.oblige(st, 'C01', L + ': shared block uses the strides of the shared tensor', sst)
        e.oblige(st, 'C01', L + ": caller's tensor addressed from its first element", oku)
        e.oblige(st, 'C01', L + ": caller's tensor addressed with its own strides", ust)
        e.oblige(st, 'C01', L + ': exactly the requested rows and columns are transferred', dims)
        e.oblige(st, 'C02', L + ': the transferred block lies inside the shared tensor', s.fits())
        e.oblige(st, 'C02', L + ': the shared tensor is mapped with its full size', size_ok)
        e.oblige(st, 'C02', L + ': shared and caller blocks are addressed inside their tensors', b_and(b_not(bad), okb, sst, oku, ust, dims))
        e.oblige(st, 'C12', L + ': data memory is mapped, of the right size', b_and(b_not(bad), size_ok))
        inc(st.g, 'n_good', b_and(b_not(bad), okb, sst, oku, ust, dims))
        s.copied.append(w.ctx)
    # ---------------------------------------------------------------- monitors
    def on_sem_unlink(s, e, st, role):
        if w_op(s) in ('ctor', 'run') and not s.force:
            e.oblige(st, 'C06', 'without forced reconnection the existing lock is left alone', False)
        if w_op(s) not in ('ctor', 'run', 'close', 'dtor'):
            e.oblige(st, 'C11', 'names are removed only by close or forced reconnection', False)
    def on_meta_store(s, e, st, role, v, c):
        w = s.w
        if s.endpoint != 'srv': return
        if role == 'isrunning':
            is1 = nbool(to_bv(v, 8) != 0)
            need = b_and(c, is1)
            if need is False: return
            tk = w.tok(st, 'server_sem')
            e.oblige(st, 'C07', 'the running flag is set only while holding the server lock', b_or(b_not(need), nbool(tk == 1) if is_sym(tk) else tk == 1))
            e.oblige(st, 'C08', 'the running flag is set only while holding the server lock', b_or(b_not(need), nbool(tk == 1) if is_sym(tk) else tk == 1))
            for r, want in (('nrows', s.rows), ('ncols', s.cols), ('dtype', s.own_dtype), ('layout', s.own_layout)):
                m = st.g.get(('meta', r), UNDEF)
                ok = False if m is None or isinstance(m, (Undef, GV)) else eq32(m, want)
                e.oblige(st, 'C07', 'when the running flag is set, %s is published with its right value' % r, b_or(b_not(need), ok))
                e.oblige(st, 'C13', 'the server keeps %s in the memory named so' % r, b_or(b_not(need), ok))
            if w.op == 'run' and s.cur is not None and s.cur.g.get('sp_init'):
                m = st.g.get(('meta', 'clients'), UNDEF)
                e.oblige(st, 'C07', 'when the running flag is first set, the client counter is zero', b_or(b_not(need), eq32(m, 0) if not isinstance(m, (Undef, GV)) else False))
    # ---------------------------------------------------------------- postconditions
    def post(s, op, a, r):
        e, w = s.e, s.w
        for kind, st in (('ret', r.ret), ('thr', r.thr)):
            if st is None or st.dead(): continue
            if not e.feasible(st.pc): continue
            threw = kind == 'thr'
            s.post1(op, a, st, r.val if not threw else None, threw)
    def post1(s, op, a, st, val, threw):
        e, w = s.e, s.w; g = st.g
        O = lambda p, label, c: e.oblige(st, p, '%s: %s' % (op, label), c)
        I = lambda c, d: b_or(b_not(c), d)
        eq = lambda v, k: v == k if not is_sym(v) else nbool(v == k)
        ag = a.g if a is not None else {}
        srv = s.endpoint == 'srv'
        # -- spec flags
        if srv:
            init, user, run, closed = [ag.get(k, False) for k in ('sp_init', 'sp_user', 'sp_run', 'sp_closed')]
            if op == 'ctor': init = True
            if op == 'run' and not threw: init = False; run = True
            if op == 'stop' and not threw: run = False
            if op in ('close', 'dtor') and not threw: run = False; closed = True
            att = False
        else:
            init = False; run = False
            user, att, closed = [ag.get(k, False) for k in ('sp_user', 'sp_att', 'sp_closed')]
            if op == 'attach': closed = False; att = att or not threw
            if op == 'detach' and not threw: att = False
            if op in ('close', 'dtor') and not threw: att = False; closed = True
        if op == 'acq' and not threw: user = True
        if op == 'rel' and not threw: user = False
        td = w.tok(st, 'data_sem'); ts = w.tok(st, 'server_sem')
        failed_ctor = op == 'ctor' and threw
        live = not (failed_ctor or op == 'dtor')
        # -- C03 / C04
        if op in RW:
            ret = to_bool(val) if not threw else False
            fits = s.fits(); strict = s.strict()
            alive = run if srv else att
            ntouch, ngood = g['n_touch'], g['n_good']
            if not threw:
                O('C01', 'success means exactly the addressed block was transferred, once', I(ret, b_and(eq(ngood, 1), eq(ntouch, 1))))
                O('C02', 'a request not inside the tensor is refused', I(b_not(fits), b_not(ret)))
                O('C02', 'a request not inside the tensor has no effect', I(b_not(fits), eq(ntouch, 0)))
                O('C02', 'a refused request has no effect', b_or(ret, eq(ntouch, 0)))
                got = b_or(b_not(s.safe), eq(g['n_acq'], 1))
                if alive: O('C02', 'a request inside the tensor is not refused', I(b_and(strict, got), ret))
                if alive:
                    O('C02', 'a request inside the tensor is refused only when the lock could not be had', I(b_and(strict, b_not(ret)), g['acq_fail']))
                    O('C06', 'a transfer that fits fails only if the system refused the lock', I(b_and(strict, b_not(ret)), g['acq_fail']))
                O('C03', 'a call that could not acquire the lock returns false', I(g['try_fail'], b_not(ret)))
                O('C03', 'safe mode: success only with the lock', I(b_and(s.safe, ret), eq(g['n_acq'], 1)))
                O('C06', 'a failed one-shot acquisition is reported as false', I(g['acq_fail'], b_not(ret)))
                O('C06', 'a failed release is reported as an exception', b_not(g['post_fail']))
                if not alive: O('C04', 'a call on an endpoint that is not running / attached returns false', b_not(ret))
            O('C03', 'a call that could not acquire the lock touches nothing', I(g['try_fail'], eq(ntouch, 0)))
            O('C03', 'the lock is given back exactly as often as it was acquired', nbool(bv8(g['n_postatt']) == bv8(g['n_acq'])))
            O('C03', 'safe mode: at most one acquisition', nbool(z3.ULE(bv8(g['n_acq']), 1)))
            O('C04', 'no blocking or timed lock wait and no sleep', b_and(eq(g['n_block'], 0), eq(g['n_timed'], 0), eq(g['n_sleep'], 0)))
            O('C04', 'at most one attempt at the lock and at most one release', b_and(nbool(z3.ULE(bv8(g['n_try']), 1)), nbool(z3.ULE(bv8(g['n_postatt']), 1))))
            O('C04', 'unsafe mode does not touch the lock', I(b_not(s.safe), b_and(eq(g['n_try'], 0), eq(g['n_postatt'], 0))))
            O('C04', 'no shared object is created, resized or removed', b_and(eq(g['n_semopen'], 0), eq(g['n_trunc'], 0), eq(g['n_unl'], 0)))
            if not alive:
                O('C04', 'a call on an endpoint that is not running / attached touches neither lock nor data', b_and(eq(g['n_try'], 0), eq(g['n_postatt'], 0), eq(ntouch, 0)))
            if threw:
                O('C06', 'a read or write throws only to report a failed release', g['post_fail'])
                O('C02', 'a refused request returns false instead of throwing', g['post_fail'])
        else:
            O('C01', 'no other operation transfers data', eq(g['n_touch'], 0))
        # -- C05
        exp = int(bool(init)) + int(bool(user))
        pf = g['post_fail']
        if live and not closed: O('C05', 'afterwards the endpoint holds the data lock exactly if it is a server not yet run or the user took it (%d)' % exp, b_or(pf, eq(td, exp)))
        elif closed and live: O('C05', 'a closed endpoint holds the lock at most if it was held by the user or never run', b_or(pf, nbool(z3.ULE(bv8(td), int(exp)))))
        if failed_ctor:
            O('C05', 'a failed construction does not keep the data lock', b_or(pf, eq(td, 0)))
            O('C12', 'a failed construction gives back the data lock', b_or(pf, eq(td, 0)))
            O('C08', 'a failed construction does not keep the server lock', b_or(pf, eq(ts, 0)))
        # -- C06
        if op not in RW and not threw:
            for role in ('data_sem', 'server_sem'):
                la = g.get(('la', role), 0)
                la = 0 if isinstance(la, Undef) else la
                O('C06', 'a failed acquisition of the %s is reported' % role, nbool(la != 2) if is_sym(la) else la != 2)
            if op not in ('stop', 'close', 'dtor'): O('C06', 'a failed release is reported as an exception', b_not(g['post_fail']))
        if op == 'acq':
            if not threw: O('C06', 'the manual lock reports success only if granted', b_and(eq(g['n_acq'], 1), eq(td, 1)))
            else: O('C06', 'the manual lock reports failure only if not granted', eq(g['n_acq'], 0))
        if op == 'rel' and not threw: O('C06', 'the manual unlock reports success only if the lock was given back', eq(g['n_post'], 1))
        if threw and op in ('acq', 'rel') and not closed and (srv or att):
            O('C06', 'a lock operation fails only if the system refused it', g['os_fail'] if op == 'acq' else g['post_fail'])
        if srv and op in ('ctor', 'run') and threw and s.force and op == 'ctor':
            O('C06', 'with forced reconnection a lock that is not granted in time does not make construction fail', g['os_fail'] if not is_false(g.get('os_fail')) else False)
        if threw and op in ('ctor', 'run', 'stop', 'close', 'detach', 'nclients', 'isrunning') and not ag.get('sp_closed'):
            refused = b_or(g['os_fail'], g['acq_fail'], g['post_fail'])
            O('C12', '%s fails only if the system refused something' % ('construction' if op == 'ctor' else op), refused)
            if srv and op in ('ctor', 'run'): O('C07', '%s fails only if the system refused something' % ('construction' if op == 'ctor' else op), refused)
        # -- C07 / C08
        if srv and live:
            fl = w.flag_clear(st)
            if op == 'ctor': O('C07', 'construction leaves the running flag cleared', b_and(fl, ('meta', 'isrunning') in g and not isinstance(g[('meta', 'isrunning')], Undef)))
            if op in ('stop', 'close') and not threw: O('C07', 'the running flag is cleared', fl)
            if op == 'run' and threw and not run:
                O('C08', 'a failed run leaves the running flag cleared', fl)
                O('C08', 'a failed run leaves the server lock not held', b_or(pf, eq(ts, 0)))
            if op == 'run' and not threw: O('C07', 'run sets the running flag', b_not(fl)); O('C13', 'the server keeps the running flag in the memory named so', b_not(fl))
            isr = to_bool(s.observe(st, 'isrunning'))
            O('C08', 'the server reports running only while it holds the server lock', I(isr, eq(ts, 1)))
            if op == 'run' and threw: O('C08', 'a failed run leaves the server not running' if not run else 'still running', b_not(isr) if not run else True)
            if op in ('stop', 'close') and not threw: O('C08', 'after stop the server lock is not held and the server does not report running', b_and(b_not(isr), b_or(pf, eq(ts, 0))))
            if op == 'run' and not threw: O('C08', 'after run the server reports running and holds the server lock', b_and(isr, eq(ts, 1)))
            O('C08', 'the server lock is held exactly by a running server', b_or(pf, eq(ts, int(bool(run)))))
        if s.w.other and op in ('ctor', 'run') and not (run and op == 'run'):
            if not threw: O('C08', '%s fails while another server is running' % op, False)
        # -- C07 values the accessors report
        if srv and op in ('nrows', 'ncols'):
            O('C07', 'the accessor reports the constructed shape', eq32(val, s.rows if op == 'nrows' else s.cols)) if not threw else O('C07', 'accessor returns', False)
        # -- C09 / C10
        if not srv:
            isa = to_bool(s.observe(st, 'isattached')) if live else False
            if op == 'attach':
                was = ag.get('sp_att', False)
                if not threw and not was:
                    O('C09', 'attaching returns only after the running flag was seen set', g['seen'])
                    O('C09', 'attaching returns only if the element types match', eq32(s.pubs['dtype'], s.own_dtype))
                    O('C09', 'attaching returns only if the memory layouts match', eq32(s.pubs['layout'], s.own_layout))
                    O('C09', "the client adopts the server's shape", b_and(eq32(s.observe(st, 'nrows'), s.pubs['nrows']), eq32(s.observe(st, 'ncols'), s.pubs['ncols'])))
                    O('C09', 'the client reports being attached', isa)
                    O('C13', 'the client finds the running flag in the memory named so', g['seen'])
                    O('C13', 'the client finds the row count in the memory named so', eq32(s.observe(st, 'nrows'), s.pubs['nrows']))
                    O('C13', 'the client finds the column count in the memory named so', eq32(s.observe(st, 'ncols'), s.pubs['ncols']))
                    O('C13', 'the client finds the element type in the memory named so', eq32(s.pubs['dtype'], s.own_dtype))
                    O('C13', 'the client finds the layout in the memory named so', eq32(s.pubs['layout'], s.own_layout))
                    O('C13', 'the client counts itself in the memory named as client counter', eq32(g['d_total'], 1))
                    tot = bv64(s.sz) * bv64(sx(s.pubs['nrows'])) * bv64(sx(s.pubs['ncols']))
                    O('C09', "the data is mapped with the server's shape", s.has_region(st, tot))
                    O('C10', 'a successful attach adds exactly one client', eq32(g['d_total'], 1))
                elif not threw: O('C10', 'attaching an attached client does not change the counter', b_and(eq32(g['d_total'], 0), eq(g['n_clstore'], 0)))
                else:
                    O('C10', 'a failed attach does not change the counter', b_or(pf, eq32(g['d_total'], 0)))
                    O('C09', 'a failed attach leaves the client detached', b_or(b_not(isa), pf, ag.get('sp_att', False)))
                    O('C09', 'a failed attach does not change the counter', b_or(eq32(g['d_total'], 0), pf))
                    O('C09', 'a failed attach does not keep the data lock', b_or(eq(td, int(bool(user))), pf))
                if threw:
                    O('C09', 'attaching to a compatible running server fails only if a system call failed or its data does not match', b_or(g['os_fail'], b_not(eq32(s.pubs['dtype'], s.own_dtype)), b_not(eq32(s.pubs['layout'], s.own_layout)), False if closed_like(a) else False))
            elif op in ('detach', 'close', 'dtor'):
                was = ag.get('sp_att', False)
                if not threw: O('C10', 'detaching removes exactly one client' if was else 'detaching a detached client does not change the counter', eq32(g['d_total'], U32 if was else 0))
                else: O('C10', 'a failed detach changes the counter only if the client is no longer attached', b_or(pf, b_and(eq32(g['d_total'], 0), isa) if was else eq32(g['d_total'], 0)))
                if live and not threw: O('C10', 'a detached client does not report being attached', b_not(isa))
            else:
                O('C10', 'the counter is changed by attach, detach and close only', eq(g['n_clstore'], 0))
            if live and op not in ('attach', 'detach', 'close'): O('C09', 'attached exactly after a successful attach', b_or(pf, nbool(zb(isa) == z3.BoolVal(bool(att)))))
        else:
            if op == 'nclients' and not threw: O('C13', 'the server finds the client counter in the memory named so', eq32(val, g.get('ncl', UNDEF)) if not isinstance(g.get('ncl', UNDEF), Undef) else False)
            if op == 'nclients' and not threw: O('C10', "the server's client count is the current value of the counter", eq32(val, g.get('ncl', UNDEF)) if not isinstance(g.get('ncl', UNDEF), Undef) else False)
            if op != 'ctor': O('C10', 'the server does not change the counter after construction', eq(g['n_clstore'], 0))
            elif not threw: O('C10', 'construction resets the counter', b_and(eq32(g.get(('meta', 'clients'), 1), 0) if not isinstance(g.get(('meta', 'clients'), 1), (Undef, GV)) else False))
        # -- C12
        if op in ('ctor', 'attach') and not threw: O('C12', 'every shared object was opened, sized and mapped and every lock opened, or it throws', b_not(g['res_fail']))
        # -- C11
        cells = st.mem.get(s.this.id, {}) if live else {}
        refs = {}
        for off, cv in cells.items():
            v = cv[1]
            lv = alts_of(v) if isinstance(v, (Ptr, GV)) else (leaves(v) if (is_sym(v) and cv[0] == 4) or (isinstance(v, int) and cv[0] == 4) else None)
            for c, x in lv or []:
                k = ('so', x.o) if isinstance(x, Ptr) and e.objs[x.o].kind == 'sem' else ('fd', x) if isinstance(x, int) and x in w.fdinfo else None
                if k: refs[k] = b_or(refs.get(k, False), c)
        for k, v in list(g.items()):
            if isinstance(k, tuple) and k[0] in ('fd', 'so') and v is not False:
                name = w.fdinfo[k[1]][0] if k[0] == 'fd' else e.objs[k[1]].name
                what = ('descriptor of ' if k[0] == 'fd' else 'handle ') + name
                if closed or not live: O('C11', '%s is closed by the end of %s' % (what, 'close' if live else 'destruction' if op == 'dtor' else 'failed construction'), b_not(v))
                else: O('C11', 'open %s is still referenced' % what, I(v, refs.get(k, False)))
        if srv and op in ('close', 'dtor') and not threw and not ag.get('sp_closed'):
            O('C11', 'close removes the names of the data memory and the locks', b_and(g['unl_data'], g['unl_data_sem'], g['unl_server_sem']))
        if ag.get('sp_closed') and op in ('close', 'dtor', 'stop', 'detach') and not threw:
            O('C11', 'closing again is harmless', b_and(eq(g['n_unl'], 0), eq(g['n_postatt'], 0), eq(g['n_block'], 0), eq(g['n_touch'], 0)))
        if ag.get('sp_closed') and op in ('close', 'dtor', 'stop', 'detach') and threw: O('C11', 'closing again is harmless (does not throw)', False)
        # -- next states
        if not live: return
        if op in ('nrows', 'ncols', 'dtype', 'layout', 'isrunning', 'isattached') and not threw and a is not None and st.mem.get(s.this.id) is not None and same_cells(st.mem[s.this.id], a.cells): return
        g2 = dict(g)
        st.g = g2
        if srv: g2.update(sp_init=init, sp_user=user, sp_run=run, sp_closed=closed)
        else: g2.update(sp_user=user, sp_att=att, sp_closed=closed)
        st.assume(b_not(g['post_fail']))
        if not e.feasible(st.pc): return
        try:
            for b in s.abstract(st): s.add(b, op + (' fails' if threw else ''))
        except (ToolLimit, Unsupported) as x:
            s.limits.append((w.ctx, 'abstraction: ' + str(x)))
    def has_region(s, st, total):
        """the tensor view of the object points to the data memory, mapped and sized to total"""
        e = s.e; ok = False
        so = z3.Solver(); so.set('timeout', e.solver_timeout); so.add(*s.w.axioms); so.add(*st.pc)
        rs = Resolver(lambda c: c if isinstance(c, bool) else so.check(z3.Not(c)) == z3.unsat)
        total = rs(total)
        for off, cv in st.mem[s.this.id].items():
            for c, p in alts_of(cv[1]) if isinstance(cv[1], (Ptr, GV)) else []:
                if isinstance(p, Ptr) and e.objs[p.o].kind == 'region' and e.objs[p.o].x['role'] == 'data':
                    x = e.objs[p.o].x
                    ok = b_or(ok, b_and(c, eqp(rs(x['size']), total), eqp(rs(x['fsize']), total) if x['fsize'] is not None else False, x['shared']))
        return ok
    # ---------------------------------------------------------------- abstraction
    def plain(s, n, v):
        """a field that is neither control state nor a handle"""
        if n == 1 and s.coarse and (v in (0, 1) if isinstance(v, int) else is_sym(v) and all(x in (0, 1) for c, x in leaves(v) or [(True, 2)])): return True
        if n < 4 or isinstance(v, (Str, Ptr, GV, Undef)): return False
        if isinstance(v, int): return not (n == 4 and (v in s.w.fdinfo or v == U32))
        if n == 4:
            return not any(isinstance(x, int) and x in s.w.fdinfo for c, x in leaves(v) or [])
        return True
    def build(s, a, off):
        """the value of a field that may be any of its alternatives, and which handles are open then"""
        n = a.cells[off][0]; d = a.alts[off]; gl = sorted(d)
        rest = True; alts = []
        for j, key in enumerate(gl):
            x, newk, opn = d[key]
            if j == len(gl) - 1: b = rest
            else:
                q = z3.Bool('b%d_%d' % (off, j)); b = b_and(rest, q); rest = b_and(rest, b_not(q))
            if newk: a.hg[newk] = b if opn else False
            alts.append((b, x))
        if all(isinstance(x, Ptr) for _, x in alts): v = mkgv(alts)
        elif len(alts) == 1: v = alts[0][1]
        else:
            v = alts[-1][1]
            for b, x in reversed(alts[:-1]): v = z3.If(zb(b), to_bv(x, 8 * n), to_bv(v, 8 * n))
        a.cells[off] = (n, v)
    def handles(s, a, o): return o in a.alts and any(k[0] != '1' for k in a.alts[o])
    def covers(s, b, a, o):
        n, v = b.cells[o]
        if o in b.hav: return s.plain2(a.cells[o])
        if o in b.alts and o in a.alts:
            return all(k in b.alts[o] or (k[0] == 'reg' and ('reg', k[1], '*', 'True', '*', k[5]) in b.alts[o]) for k in a.alts[o])
        return repr_v(v) == repr_v(a.cells[o][1])
    def subsumes(s, b, a):
        """every concrete state of a is one of b"""
        if b.ctl != a.ctl or b.cells.keys() != a.cells.keys(): return False
        return all(s.covers(b, a, o) for o in b.cells)
    def plain2(s, c): return s.plain(*c) or (c[0] >= 4 and isinstance(c[1], int)) or (c[0] == 1 and is_sym(c[1]) and str(c[1]).startswith('hv_'))
    def havoc_cell(s, a, o):
        n = a.cells[o][0]; h = z3.BitVec('hv_%d' % o, 8 * n)
        a.cells[o] = (n, h); a.hav.add(o); a.alts.pop(o, None)
        if n == 1 and o not in s.hvax: s.hvax.add(o); s.w.axioms.append(z3.ULE(h, 1))
    def collapse(s, d, off):
        """mapped regions of the same item but different size become one of unknown size"""
        by = {}
        for k in d:
            if k[0] == 'reg': by.setdefault((k[1], k[5]), []).append(k)
        for (role, po), ks in by.items():
            if len({k[2:5] for k in ks}) < 2: continue
            if len({k[2] for k in ks}) < 2 and '*' not in ks[0][2]: continue
            ck = ('reg', off, role, '*')
            if ck not in s.canon:
                s.canon[ck] = s.e.new_obj('map:' + role, None, 'region', dict(role=role, size=z3.BitVec('hvsz_%d' % off, 64), fsize=None, ftr=None, shared=z3.Bool('hvsh_%d' % off)))
            for k in ks: del d[k]
            d[('reg', role, '*', 'True', '*', po)] = (Ptr(s.canon[ck].id, po), None, None)
    def setkey(s, a): a.key = (tuple((o, n, repr_v(v)) for o, (n, v) in sorted(a.cells.items())), a.ctl)
    def join(s, b, a):
        """the state that covers both, or None"""
        if b.ctl != a.ctl or b.cells.keys() != a.cells.keys(): return None
        c = AState(); c.cells = dict(a.cells); c.g = a.g; c.hg = {}; c.hav = set(a.hav); c.ctl = a.ctl
        c.alts = {o: dict(d) for o, d in a.alts.items()}
        for o in a.cells:
            if s.covers(a, b, o): continue
            if o in a.alts and o in b.alts and (s.handles(a, o) or s.handles(b, o)):
                if not s.coarse: return None
                c.alts[o].update(b.alts[o]); s.collapse(c.alts[o], o)
            elif s.plain2(a.cells[o]) and s.plain2(b.cells[o]) and (s.plain(*a.cells[o]) or s.plain(*b.cells[o]) or o in a.hav or o in b.hav): s.havoc_cell(c, o)
            else: return None
        for o in c.alts: s.build(c, o)
        s.setkey(c)
        return c
    def spkey(s, a): return tuple(sorted((k, bool(v)) for k, v in a.g.items() if isinstance(k, str) and k.startswith('sp_')))
    def add(s, a, how):
        a.hav = {o for o, (n, v) in a.cells.items() if is_sym(v) and z3.is_const(v) and str(v) == 'hv_%d' % o}
        a.ctl = tuple(sorted((str(k), str(v).replace('\n', '')) for k, v in a.g.items()))
        if any(s.subsumes(b, a) for b in s.states.values()): return
        for b in list(s.states.values()):
            c = s.join(b, a)
            if c is not None:
                # the older state is covered: drop it
                del s.states[b.key]
                if b in s.todo: s.todo.remove(b)
                a = c
        s.setkey(a)
        a.id = s.nid; s.nid += 1; a.how = how + (' after state %s' % s.cur.id if getattr(s, 'cur', None) is not None else '')
        s.states[a.key] = a; s.todo.append(a)
    def nonrigid(s, e):
        out = []; seen = set(); stk = [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if str(x) not in s.rigid: out.append(x)
            stk.extend(reversed(x.children()))
        return out
    def abstract(s, st):
        e, w = s.e, s.w
        cells = st.mem[s.this.id]
        # control terms
        ctl = []
        old = s.cur.cells if getattr(s, 'cur', None) is not None else {}
        cells = dict(cells); so = None
        for off in sorted(cells):
            n, v = cells[off]
            if n == 1 and is_sym(v) and s.nonrigid(v):
                if so is None: so = z3.Solver(); so.set('timeout', e.solver_timeout); so.add(*w.axioms); so.add(*st.pc)
                for cand in [old[off][1]] * (off in old) + [z3.If(s.safe, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), z3.If(s.safe, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))]:
                    if isinstance(cand, (Undef, Ptr, GV, Str)): continue
                    e.nchecks += 1
                    if so.check(to_bv(v, 8) != to_bv(cand, 8)) == z3.unsat: cells[off] = (n, cand); break
                else: ctl.append((('cell', off), v))
        for k, v in st.g.items():
            if isinstance(k, tuple) and k[0] in ('tok', 'ep') and is_sym(v): ctl.append((('g', k), v))
        ctl.sort(key=lambda x: str(x[0]))
        cases = []
        if ctl:
            so = z3.Solver(); so.set('timeout', e.solver_timeout); so.add(*w.axioms); so.add(*[c for c in st.pc])
            while True:
                e.nchecks += 1
                r = so.check()
                if r == z3.unknown: raise ToolLimit('control state enumeration')
                if r == z3.unsat: break
                m = so.model(); asg = []; con = []
                for k, v in ctl:
                    x = m.eval(v, model_completion=True); x2 = norm(x)
                    asg.append((k, x2)); con.append(v == x if not z3.is_bool(v) else (v if x2 else z3.Not(v)))
                cases.append((dict(asg), con)); so.add(z3.Not(z3.And(*con)))
                if len(cases) > 24: raise ToolLimit('control state enumeration: too many')
        else: cases = [({}, [])]
        out = []
        for asg, con in cases:
            out.append(s.abstract1(st, cells, asg, con))
        return out
    def abstract1(s, st, cells, asg, con):
        e, w = s.e, s.w
        so = z3.Solver(); so.set('timeout', e.solver_timeout); so.add(*w.axioms); so.add(*st.pc); so.add(*con)
        memo = {}; models = []
        def poss(c):
            if isinstance(c, bool): return c
            i = c.get_id()
            if i in memo: return memo[i][1]
            for m in models:
                if z3.is_true(m.eval(c, model_completion=True)): memo[i] = (c, True); return True
            e.nchecks += 1
            t0 = time.time(); r = so.check(c); e.tsolve += time.time() - t0
            if r == z3.unknown: raise ToolLimit('abstraction query')
            if r == z3.sat and len(models) < 12: models.append(so.model())
            memo[i] = (c, r == z3.sat)
            return r == z3.sat
        def must(c): return not poss(b_not(c))
        resolve = Resolver(must)
        g = {}
        for k in ('sp_init', 'sp_user', 'sp_run', 'sp_closed', 'sp_att'):
            if k in st.g: g[k] = st.g[k]
        ep = {r: asg.get(('g', ('ep', r)), st.g.get(('ep', r), 0)) for r in ROLES[7:]}
        def epn(role, v): return 0 if v == ep.get(role, 0) else -1
        used_ep = set()
        res = {}
        ren = {}; at = [0]; halts = {}
        def rename(x):
            if not is_sym(x): return x
            for y in s.nonrigid(x):
                if y.get_id() not in ren:
                    nm = 'k%s_%s' % (at[0], 'b' if z3.is_bool(y) else y.size())
                    i = 0
                    while any(str(q[1]) == nm for q in ren.values()): i += 1; nm = 'k%s.%d_%s' % (at[0], i, 'b' if z3.is_bool(y) else y.size())
                    ren[y.get_id()] = (y, z3.Bool(nm) if z3.is_bool(y) else z3.BitVec(nm, y.size()))
            return z3.substitute(x, *ren.values()) if ren else x
        def canon(kind, key, mk):
            k = (kind,) + key
            if k not in s.canon: s.canon[k] = mk()
            return s.canon[k]
        for off in sorted(cells):
            n, v = cells[off]; at[0] = off
            if is_sym(v) and z3.is_const(v) and str(v) == 'hv_%d' % off: res[off] = (n, v); continue
            if is_sym(v) and not s.nonrigid(v): res[off] = (n, v); continue
            if is_sym(v): v = resolve(v)
            if ('cell', off) in asg: res[off] = (n, asg[('cell', off)]); continue
            if isinstance(v, Str): res[off] = (n, v); continue
            if isinstance(v, Undef): res[off] = (n, UNDEF); continue
            lv = None
            if isinstance(v, (Ptr, GV)): lv = [(c, x) for c, x in alts_of(v)]
            elif isinstance(v, int): lv = [(True, v)]
            elif is_sym(v): lv = leaves(v)
            if lv is None:
                nr = s.nonrigid(v)
                big = v.sexpr() if nr else ''
                if not nr or (len(big) < 400 and '(ite' not in big): res[off] = (n, rename(v))
                else:
                    h = z3.BitVec('hv_%d' % off, 8 * n); res[off] = (n, h)
                continue
            if len(lv) > 1: lv = [(c, x) for c, x in lv if poss(c)]
            if len(lv) == 1: lv = [(True, lv[0][1])]
            # group the alternatives by what they are (not by which call produced them)
            groups = {}; hs = False
            def put(key, c, mk, opn=None):
                if key in groups: groups[key][0] = b_or(groups[key][0], c)
                else: groups[key] = [c, mk, opn]
            for i, (c, x) in enumerate(lv):
                if isinstance(x, Ptr):
                    o = e.objs[x.o]
                    if o.kind == 'sem' or (o.kind == 'region'):
                        if not isinstance(x.off, int): raise ToolLimit('pointer into region')
                    if o.kind == 'sem':
                        role, ev = o.x; ee = epn(role, ev); used_ep.add((role, ev)); hs = True
                        op = st.g.get(('so', x.o), False)
                        for b, cc in ((True, b_and(c, op)), (False, b_and(c, b_not(op)))):
                            if not poss(cc): continue
                            def mk(role=role, ee=ee, b=b): return canon('sem', (off, role, ee, b), lambda: e.new_obj('sem:' + role, None, 'sem', (role, ee)))
                            put(('sem', role, ee, not b), cc, lambda mk=mk, xo=x.off: (Ptr(mk().id, xo), ('so', mk().id)), b)
                    elif o.kind == 'region':
                        xx = dict(o.x)
                        for k in ('size', 'fsize'):
                            if is_sym(xx[k]): xx[k] = rename(resolve(xx[k]))
                        xx['ftr'] = None
                        if xx['fsize'] is not None and eqp(xx['fsize'], xx['size']) is not True: xx['fsize'] = None
                        rk = (xx['role'], repr_v(xx['size']), str(xx['fsize'] is None), repr_v(xx['shared']))
                        def mk(o=o, xx=xx, rk=rk): return canon('reg', (off,) + rk, lambda: e.new_obj(o.name, None, 'region', xx))
                        put(('reg',) + rk + (x.off,), c, lambda mk=mk, xo=x.off: (Ptr(mk().id, xo), None))
                    elif o.kind in ('heapx', 'heap'):
                        put(('heap',), c, lambda: (Ptr(canon('heap', (off,), lambda: e.new_obj('heap', None, 'heapx')).id, 0), None))
                    elif o.kind in ('null', 'ext', 'global', 'cstr', 'func'): put(('0', repr(x)), c, lambda x=x: (x, None))
                    else: raise ToolLimit('field points to %s' % o.kind)
                elif n == 4 and x in w.fdinfo:
                    inf = w.fdinfo[x]; hs = True
                    op = st.g.get(('fd', x), False)
                    for b, cc in ((True, b_and(c, op)), (False, b_and(c, b_not(op)))):
                        if not poss(cc): continue
                        def mk(inf=inf, b=b):
                            def mkfd():
                                k = 1000 + len([1 for q in s.canon if q[0] == 'fd']); w.fdinfo[k] = inf; return k
                            return canon('fd', (off, inf, b), mkfd)
                        put(('fd', str(inf), not b), cc, lambda mk=mk: (mk(), ('fd', mk())), b)
                else: put(('1', repr_v(x) if is_sym(x) else str(x)), c, lambda x=x: (x, None))
            anyp = any(k[0] in ('sem', 'reg', 'heap', '0') for k in groups)
            if len(groups) > 1 and not hs and not anyp:
                res[off] = (n, z3.BitVec('hv_%d' % off, 8 * n)) if n > 1 else (n, v)
                continue
            halts[off] = {k: q[1]() + (q[2],) for k, q in groups.items()}
            res[off] = (n, None)
        for k, v in st.g.items():
            if isinstance(k, tuple) and k[0] == 'tok':
                val = asg.get(('g', k), v)
                cur = epn(k[1], k[2]) == 0
                if not cur and (k[1], k[2]) not in used_ep: continue
                if val != 0: g[('tok', k[1], epn(k[1], k[2]))] = val
            if isinstance(k, tuple) and k[0] == 'meta' and s.endpoint == 'srv' and not isinstance(v, (Undef, GV)):
                if isinstance(v, int): g[k] = v
                elif not s.nonrigid(v): g[k] = v
                else:
                    lv = leaves(v); one = [(c, x) for c, x in lv or [] if poss(c)]
                    if len(one) == 1: g[k] = one[0][1]
        a = AState(); a.cells = res; a.g = g; a.alts = halts; a.hg = {}
        for off in halts: s.build(a, off)
        return a

def repr_v(v): return v.sexpr() if is_sym(v) else repr(v)
def w_op(s): return s.w.op
def closed_like(a): return False
def is_false(x): return x is False
def eq32(a, b):
    if isinstance(a, (Undef, GV)) or isinstance(b, (Undef, GV)): return False
    if isinstance(a, int) and isinstance(b, int): return (a - b) % (1 << 32) == 0
    w = a.size() if is_sym(a) and z3.is_bv(a) else b.size()
    return nbool(to_bv(a, w) == to_bv(b % (1 << w) if isinstance(b, int) else b, w))
def same_cells(a, b):
    if a is b: return True
    if a.keys() != b.keys(): return False
    return all(a[k][0] == b[k][0] and same(a[k][1], b[k][1]) for k in a)

def run1(mod, endpoint, inst, props, **kw):
    t0 = time.time()
    x = Explorer(mod, endpoint, inst, props, **kw)
    try:
        # the codes this type and layout publish
        st = x.init.clone(); x.w.mute = True
        th = x.e.new_obj('anythis', None, 'ext'); st.mem[th.id] = {}
        x.own_dtype = x.e.call(st, 'drv_srv_dtype_' + inst, [Ptr(th.id, 0)]).val
        x.own_layout = x.e.call(st, 'drv_srv_layout_' + inst, [Ptr(th.id, 0)]).val
        x.w.mute = False; x.cur = None
        x.explore()
    except (ToolLimit, Unsupported) as ex:
        x.limits.append((x.w.ctx, str(ex)))
    x.time = time.time() - t0
    return x

NOREFINE = ('element-wise', 'no contract', 'external function', 'memcpy', 'memset', 'no body', 'call depth', 'store at symbolic', 'load at symbolic', 'time limit', 'indirect call')

def run(ll, endpoint, inst, props, deadline=None, **kw):
    """coarse invariant first (flags that carry no lock or handle state are forgotten); the precise one if it is too weak"""
    mod = ll if isinstance(ll, Module) else Module(ll)
    x = run1(mod, endpoint, inst, props, deadline=deadline, failfast=True, **kw)
    x.refined = False
    bad = any(not o['ok'] for o in x.e.obl)
    if x.limits and not bad and all(any(t in str(l[1]) for t in NOREFINE) for l in x.limits): return x    # a construct without contract: refining cannot help
    if x.limits or bad:
        y = run1(mod, endpoint, inst, props, deadline=deadline, failfast=True, **dict(kw, coarse=False))
        y.time += x.time; y.e.nchecks += x.e.nchecks; y.e.tsolve += x.e.tsolve; y.refined = True; y.coarse_run = x
        return y
    return x

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('ll'); ap.add_argument('ep'); ap.add_argument('inst'); ap.add_argument('props'); ap.add_argument('--force', action='store_true'); ap.add_argument('--other', default=False); ap.add_argument('--fp', action='store_true'); ap.add_argument('--coarse', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    x = (run1 if a.coarse else run)(Module(a.ll), a.ep, a.inst, a.props.split(','), force=a.force, other=a.other, may_fail_post=a.fp)
    print('states', len(x.states), 'ops', x.nops, 'time %.1f' % x.time, 'instr', x.e.ninstr, 'solver calls', x.e.nchecks, 'solver %.1f' % x.e.tsolve)
    for st in x.states.values(): print(' ', st.id, st.how, {k: v for k, v in st.g.items() if isinstance(k, str) or k[0] == 'tok'})
    bad = [o for o in x.e.obl if not o['ok']]
    print('obligations', len(x.e.obl), 'failed', len(bad))
    seen = set()
    for o in bad:
        k = (o['prop'], o['label'], o['ctx'])
        if k in seen: continue
        seen.add(k)
        print(' FAIL', o['prop'], o['label'], '|', o['ctx'], '|', o['status'], '|', o['at'] if a.v else '')
    for l in x.limits: print(' LIMIT', l)
