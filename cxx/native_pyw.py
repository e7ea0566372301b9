# Bounded execution of the Python wrappers of /repo (their unmodified files) against a reference model; the extension module is replaced by stub_pyeigenipc.py.
import sys, os, time, random
prop, secs, level = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import EigenIPC.PyEigenIPC as E
from EigenIPC.PyEigenIPCExt.wrappers.shared_data_view import SharedTWrapper
from EigenIPC.PyEigenIPCExt.wrappers.shared_tensor_dict import SharedTensorDict
end = time.time() + secs; runs = 0; viol = 0; rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
hist = []
def V(msg):
    global viol
    viol += 1
    if viol < 20: print('VIOL C22 %s; history: %s' % (msg, ' ; '.join(hist[-12:])))
DT = [(E.dtype.Float, np.float32), (E.dtype.Double, np.float64), (E.dtype.Int, np.int32), (E.dtype.Bool, np.bool_)]
last = [True]
_g = E.granted
def granted():
    last[0] = _g(); return last[0]
E.granted = granted
def rnd(shape, dt): return (np.array([rng.randrange(1, 100) for _ in range(int(np.prod(shape)))]).reshape(shape)).astype(dt) if dt != np.bool_ else np.array([rng.random() < .5 for _ in range(int(np.prod(shape)))]).reshape(shape)
def same(a, b): return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
def call(f):
    last[0] = True
    try: return 'ret', f()
    except Exception as x: return 'raise', repr(x)
def wrappers():
    R, C = rng.randrange(1, 6), rng.randrange(1, 6); dt, nd = rng.choice(DT); fill = rng.choice([None, 1]); torch = rng.random() < .5; gpu = torch and rng.random() < .3
    hist.clear(); hist.append('tensor %dx%d %s fill=%s torch=%s' % (R, C, dt, fill, torch))
    kw = dict(namespace='n', basename='b%d' % runs, dtype=dt, with_torch_view=torch, with_gpu_mirror=gpu, fill_value=fill)
    s = SharedTWrapper(is_server=True, n_rows=R, n_cols=C, **kw); x = call(s.run)
    if x[0] != 'ret': return V('server run: ' + x[1])
    mem = E.MEM[('n', 'b%d' % runs)]
    if fill is not None and not same(mem, np.full((R, C), fill, nd)): V('run: fill value not in the shared tensor')
    mem[...] = rnd((R, C), nd); m0 = mem.copy()
    c = SharedTWrapper(is_server=False, **kw); x = call(c.run)
    if x[0] != 'ret': return V('client run: ' + x[1])
    if not same(mem, m0): V('run of a client changes the shared tensor')
    for w in (s, c):
        v = w.get_numpy_mirror()
        if v.shape != (R, C) or v.dtype != nd: return V('run: mirror of the wrong shape or type')
        if (w.n_rows, w.n_cols) != (R, C): V('run: wrong n_rows, n_cols')
    if not same(c.get_numpy_mirror(), np.full((R, C), fill or 0, nd)): V('run: the mirror does not hold the fill value')
    for _ in range(25):
        w = rng.choice((s, c)); v = w.get_numpy_mirror(); v[...] = rnd((R, C), nd); mem[...] = rnd((R, C), nd); v0, m0 = v.copy(), mem.copy()
        h, n = rng.randrange(1, 4), rng.randrange(1, 4); r, q = rng.randrange(-R - 1, R + 1), rng.randrange(-C - 1, C + 1)
        if rng.random() < .6 and h <= R and n <= C: r, q = rng.randrange(R - h + 1), rng.randrange(C - n + 1)
        op = rng.choice(('ws', 'wa', 'rs', 'ra', 'sr', 'sw', 'ar', 'aw', 'z', 'w1', 'r1', 'wr', 'rr', 'srr', 'gpu', 'neg'))
        hist.append('%s %s (%d,%d) %dx%d' % ('server' if w is s else 'client', op, r, q, h, n))
        def fit(h, n): return 0 <= r and 0 <= q and r + h <= R and q + n <= C
        def chk(ok, okm, em, es, what):
            if ok is not None and bool(ok) != okm: V('%s: reports %s, expected %s' % (what, ok, okm))
            if em is not None and not same(v, em): V('%s: wrong mirror' % what)
            if es is not None and not same(mem, es): V('%s: wrong shared tensor' % what)
        if op in ('ws', 'wa', 'wr', 'w1'):
            if op == 'ws': d = rng.choice((3, 2.5, True, np.float32(4), np.float64(5))); hh = nn = 1; x = call(lambda: w.write(d, r, q))
            elif op == 'w1': d = rnd((n,), nd); hh = nn = 0; x = call(lambda: w.write(d, r, q))
            else:
                d = rnd((h, n), rng.choice((nd, np.float64))); hh, nn = h, n
                if op == 'wr' and not fit(h, n): continue
                x = call(lambda: (w.write_retry if op == 'wr' else w.write)(d, r, q))
            f = hh > 0 and fit(hh, nn)
            if x[0] == 'raise' and f: V('write: fitting data rejected ' + x[1]); continue
            if not f: chk(x[1] if x[0] == 'ret' else None, False, v0, m0, 'write that does not fit'); continue
            ok = last[0]; ev, es = v0.copy(), m0.copy(); ev[r:r + hh, q:q + nn] = d
            if ok: es[r:r + hh, q:q + nn] = ev[r:r + hh, q:q + nn]
            chk(x[1] if op != 'wr' else None, ok, ev if ok else None, es, 'write')
            if not ok:
                b = v.copy(); b[r:r + hh, q:q + nn] = v0[r:r + hh, q:q + nn]
                if not same(b, v0): V('write: mirror changed outside the block')
        elif op in ('rs', 'ra', 'rr', 'r1'):
            d = None if op == 'rs' else rnd((n,), nd) if op == 'r1' else rnd((h, n), nd); d0 = None if d is None else d.copy(); hh, nn = (1, 1) if d is None else (h, n) if op != 'r1' else (0, 0)
            f = hh > 0 and fit(hh, nn)
            if op == 'rr' and not f: continue
            x = call(lambda: (w.read_retry if op == 'rr' else w.read)(r, q, d))
            if x[0] == 'raise' and f: V('read: fitting request rejected ' + x[1]); continue
            ok = f and last[0]; ev = v0.copy()
            if ok: ev[r:r + hh, q:q + nn] = m0[r:r + hh, q:q + nn]
            if x[0] == 'ret' and not (isinstance(x[1], tuple) and len(x[1]) == 2): V('read: no result'); continue
            chk(x[1][1] if x[0] == 'ret' else None, ok, ev, m0, 'read')
            if d is None and ok and x[1][0] != m0[r, q]: V('read: wrong value')
            if d is not None and not same(d, m0[r:r + hh, q:q + nn] if ok else d0): V('read: wrong data for the caller')
        elif op in ('sr', 'sw', 'srr', 'neg', 'ar', 'aw'):
            rd = op in ('sr', 'ar', 'srr') or op == 'neg' and rng.random() < .5
            if op == 'neg': h = -rng.randrange(1, 3); r, q = max(r, 0), max(q, 0)
            if op in ('ar', 'aw'):
                r, q, h, n = 0, 0, R, C; rt = rng.random() < .5; x = call(lambda: w.synch_all(read=rd, retry=rt))
            else:
                if op == 'srr' and not fit(h, n): continue
                x = call(lambda: (w.synch_retry if op == 'srr' else w.synch)(r, q, h, n, rd))
            f = h > 0 and fit(h, n); ok = f and last[0]
            if x[0] == 'raise' and f: V('synch: fitting request rejected ' + x[1]); continue
            ev, es = v0.copy(), m0.copy()
            if ok and rd: ev[r:r + h, q:q + n] = m0[r:r + h, q:q + n]
            if ok and not rd: es[r:r + h, q:q + n] = v0[r:r + h, q:q + n]
            chk(x[1] if x[0] == 'ret' and op != 'srr' else None, ok, ev, es, 'synch ' + op)
        elif op == 'z':
            w.to_zero(); chk(None, True, v0 * 0, m0 * 0, 'to_zero')
            if gpu and not same(np.array(w.get_torch_mirror(True)), v0 * 0): V('to_zero: gpu')
        elif op == 'gpu' and gpu:
            g = w.get_torch_mirror(True); g[...] = rnd((R, C), nd); g0 = np.array(g); fr = rng.random() < .5
            w.synch_mirror(fr, True)
            if fr: chk(None, True, g0, m0, 'synch_mirror')
            elif not same(np.array(g), v0) or not same(v, v0): V('synch_mirror to the GPU')
        if torch and not np.shares_memory(w.get_torch_mirror(), v): V('torch view is not the mirror')
def dicts():
    k = rng.randrange(1, 5); N = rng.randrange(1, 4); names = ['name%d' % x for x in rng.sample(range(20), k)]; dims = [rng.randrange(1, 4) for _ in names]; ns = 'd%d_' % runs
    hist.clear(); hist.append('dict %s x%d' % (list(zip(names, dims)), N))
    s = SharedTensorDict(names=names, dimensions=dims, n_nodes=N, namespace=ns, is_server=True)
    r = E.refuse; E.refuse = 0; x = call(s.run); E.refuse = r
    if x[0] != 'ret': return V('dict run: ' + x[1])
    c = SharedTensorDict(namespace=ns); x = call(c.run)
    if x[0] != 'ret': return V('dict client run: ' + x[1])
    for o, who in ((s, 'server'), (c, 'client')):
        if list(o.names) != names or list(o.dimensions) != dims or o.n_dims != sum(dims) or o.n_nodes != N: V('%s: names, dimensions not those of the server' % who)
    mem = s.data.get_shared_mem(); mem = E.MEM[mem.key]
    if mem.shape != (sum(dims), N): return V('data of the wrong shape')
    for _ in range(20):
        o, who = rng.choice(((s, 'server'), (c, 'client'))); v = o.data.get_numpy_mirror(); v[...] = rnd(v.shape, v.dtype); mem[...] = rnd(mem.shape, mem.dtype); v0, m0 = v.copy(), mem.copy()
        q = rng.randrange(k); lo = sum(dims[:q]); op = rng.choice(('write', 'get', 'synch', 'write1', 'none')); rt = rng.random() < .5; h, n = rng.randrange(1, 5), rng.randrange(1, N + 2)
        hist.append('%s %s %s %dx%d retry=%s' % (who, op, names[q], h, n, rt))
        if op == 'get':
            x = call(lambda: o.get(names[q]))
            if x[0] != 'ret' or not same(x[1], v0[lo:lo + dims[q], :]) or np.shares_memory(x[1], v): V('get: not the block of the name')
            if not same(mem, m0) or not same(v, v0): V('get changes data')
        elif op == 'none':
            if call(lambda: o.get('nobody'))[0] != 'raise': V('get of an unknown name')
        elif op == 'synch':
            x = call(lambda: o.synch(retry=rt)); ok = last[0]
            if x[0] != 'ret' or bool(x[1]) != ok or not same(v, m0 if ok else v0) or not same(mem, m0): V('synch')
        else:
            d = rnd((h, n), np.float64) if op == 'write' else rnd((n,), np.float64); hh = h if op == 'write' else 1
            f = hh <= dims[q] and n <= N
            if not f and rt and 0: continue
            x = call(lambda: o.write(d, names[q], retry=rt)); ok = f and last[0]
            if x[0] == 'raise' and f: V('write: fitting data rejected ' + x[1])
            es = m0.copy()
            if ok: es[lo:lo + hh, :n] = d
            if not same(mem, es): V('write: wrong shared data')
            b = v.copy(); b[lo:lo + dims[q]] = v0[lo:lo + dims[q]]
            if not same(b, v0): V('write: the mirror changes in rows of another name')
            if x[0] == 'ret' and not rt and bool(x[1]) != ok: V('write: wrong report')
while time.time() < end and viol == 0 and runs < (100000 if level == 1 else 10 ** 7):
    runs += 1
    (wrappers if rng.random() < .6 else dicts)()
    E.MEM.clear()
print('RUNS %d' % runs)
sys.stdout.flush(); os._exit(1 if viol else 0)
