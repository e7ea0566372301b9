# Bounded execution of the Python bindings, compiled from the current sources: numpy arrays against servers and clients.
import sys, os, time, random, itertools
prop, secs, level = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import PyEigenIPC as E
end = time.time() + secs; runs = 0; viol = 0
rng = random.Random(1); ns = 'eipcvpy%d_' % os.getpid()
def V(msg):
    global viol
    viol += 1; print('VIOL C21 ' + msg)
DT = [(E.dtype.Float, np.float32), (E.dtype.Double, np.float64), (E.dtype.Int, np.int32), (E.dtype.Bool, np.bool_)]
def fill(a, k):
    n = a.size; v = (np.arange(n) * 7 + k) % 101
    a[...] = (v % 2 == 0).reshape(a.shape) if a.dtype == np.bool_ else v.reshape(a.shape).astype(a.dtype)
def variants(r, c, dt, order):
    """arrays of shape (r, c) with all kinds of strides; (array, must be accepted)"""
    rm = order == 'C'
    yield np.zeros((r, c), dt, order), True
    b = np.zeros((3 * r + 2, 3 * c + 2), dt, order)
    yield b[1:1 + r, 1:1 + c], True
    yield b[:2 * r:2, :3 * c:3], r > 0 and c > 0
    yield b[1:1 + r, 1:1 + c][::-1, :], None
    yield b[1:1 + r, 1:1 + c][:, ::-1], None
    yield b[1:1 + r, 1:1 + c][::-1, ::-1], None
    t = np.zeros((c, r), dt, 'F' if rm else 'C').T
    yield t, True
    if r > 1 and c > 1:
        yield np.zeros((r, c), dt, 'F' if rm else 'C'), False
        s = np.zeros((r, c), np.dtype([('x', dt), ('y', np.int8)]), order)['x']
        if s.strides[0] % s.itemsize or s.strides[1] % s.itemsize: yield s, False
        k = np.dtype(dt).itemsize
        for e0, e1 in ((0, 1), (1, 0), (k // 2, 0), (0, k // 2)):      # strides (outer, inner) off by a part of an element
            if k == 1 or e0 + e1 == 0: continue
            st = [(c + 3) * 2 * k + e0, 2 * k + e1] if rm else [2 * k + e0, (r + 3) * 2 * k + e1]
            if not rm and e0: st[1] += 2 * r
            if rm and e1: st[0] += 0
            raw = np.zeros(st[0] * r + st[1] * c + 8 * k, np.uint8)
            yield np.lib.stride_tricks.as_strided(raw[:len(raw) // k * k].view(dt), (r, c), st), False
    yield np.zeros(r * c, dt), False
    yield np.zeros((1, r, c), dt), False
    yield np.zeros((), dt), False
def base(r, c, dt, order): return np.zeros((r + 1, c + 1), dt, order)[:r, :c]   # not contiguous: numpy keeps its strides
def call(f, *a):
    try: return bool(f(*a))
    except Exception as x: return type(x).__name__
def one(ed, dt, lay, order, r, c):
    global runs
    s = E.ServerFactory(r, c, 'b', ns, False, E.VLevel.V0, False, True, ed, lay); s.run()
    k = E.ClientFactory('b', ns, False, E.VLevel.V0, False, ed, lay); k.attach()
    full = base(r, c, dt, order)
    for who, o in (('server', s), ('client', k)):
        for rr, cc in {(r, c), (1, c), (r, 1), (max(1, r - 1), max(1, c - 1))}:
            row, col = r - rr, c - cc
            for i, (a, must) in enumerate(variants(rr, cc, dt, order)):
                if viol > 3: return
                if must and (rr == 1 or cc == 1): must = None      # numpy describes such arrays with strides of either order
                ctx = '%s %s %s %dx%d array variant %d shape %s strides %s at (%d,%d)' % (who, np.dtype(dt).name, order, r, c, i, a.shape, a.strides, row, col)
                fill(full, i); s.write(full, 0, 0)
                g = base(r, c, dt, order)
                if a.ndim: fill(a, i + 3)
                w = call(o.write, a, row, col); runs += 1
                s.read(g, 0, 0)
                exp = full.copy()
                if w is True:
                    if a.ndim != 2: V(ctx + ': write accepted'); continue
                    exp[row:row + rr, col:col + cc] = a
                if not np.array_equal(g, exp): V(ctx + ': write (result %s) left wrong elements' % w); continue
                if must is not None and w is not must: V(ctx + ': write returned %s' % w); continue
                if a.ndim: fill(a, i + 5)
                old = a.copy()
                x = call(o.read, a, row, col)
                exp2 = g[row:row + rr, col:col + cc] if x is True and a.ndim == 2 else old
                if not np.array_equal(a, exp2): V(ctx + ': read (result %s) gave wrong elements' % x); continue
                if must is not None and x is not must: V(ctx + ': read returned %s' % x); continue
            for other in (np.float32, np.float64, np.int32, np.bool_, np.int64, np.int16, np.int8, np.uint32, np.uint8, np.float16, np.complex64, np.dtype(np.float64).newbyteorder(), np.dtype(np.int32).newbyteorder()):
                if np.dtype(other) == np.dtype(dt): continue
                a = np.zeros((rr, cc), other, order); fill(a, 1); old = a.copy(); s.read(full, 0, 0); g = full.copy(); runs += 1
                if call(o.write, a, row, col) is True or call(o.read, a, row, col) is True: V('%s of %s took an array of %s' % (who, np.dtype(dt).name, np.dtype(other).name))
                s.read(full, 0, 0)
                if not np.array_equal(full, g) or not np.array_equal(a, old): V('%s of %s transferred an array of %s' % (who, np.dtype(dt).name, np.dtype(other).name))
    k.close(); s.close()
for (r, c) in [(2, 3), (3, 3), (1, 1), (1, 4), (4, 1), (5, 2), (7, 6)]:
    for (ed, dt), (lay, order) in itertools.product(DT, ((E.RowMajor, 'C'), (E.ColMajor, 'F'))):
        if time.time() < end and viol < 4: one(ed, dt, lay, order, r, c)
print('RUNS %d' % runs)
sys.stdout.flush(); os._exit(1 if viol else 0)
