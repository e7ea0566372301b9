# Bounded execution of the Python entry points, compiled from the current sources.
import sys, os, time, itertools
prop, secs, level = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import PyEigenIPC as E
end = time.time() + secs; runs = 0; viol = 0; ns = 'eipcvbn%d_' % os.getpid()
def V(msg):
    global viol
    viol += 1; print('VIOL C23 ' + msg)
DT = [(E.dtype.Float, np.float32), (E.dtype.Double, np.float64), (E.dtype.Int, np.int32), (E.dtype.Bool, np.bool_)]
def eq(what, got, exp):
    global runs
    runs += 1
    if got != exp: V('%s: %r instead of %r' % (what, got, exp))
def attempt(f, *a, **k):
    try: return f(*a, **k)
    except Exception as x: return type(x).__name__
def endpoints():
    for (dt, npt), lay, safe, force, r, c in itertools.product(DT, (E.RowMajor, E.ColMajor), (True, False), (True, False), (2, 5), (3, 4)):
        if time.time() > end or viol > 3: return
        ctx = '%s %s safe=%s force=%s %dx%d ' % (dt, lay, safe, force, r, c); order = 'C' if lay == E.RowMajor else 'F'
        eq(ctx + 'toNumpyDType', np.dtype(E.toNumpyDType(dt)), np.dtype(npt))
        s = E.ServerFactory(n_rows=r, n_cols=c, basename='b', namespace=ns, verbose=False, vlevel=E.VLevel.V0, safe=safe, force_reconnection=force, dtype=dt, layout=lay)
        eq(ctx + 'isRunning before run', s.isRunning(), False)
        s.run()
        eq(ctx + 'server', (s.isRunning(), s.getNRows(), s.getNCols(), s.getScalarType(), s.getBasename(), s.getNamespace(), s.getNClients()), (True, r, c, dt, 'b', ns, 0))
        k = E.ClientFactory(basename='b', namespace=ns, verbose=False, vlevel=E.VLevel.V0, safe=safe, dtype=dt, layout=lay)
        eq(ctx + 'client before attach', k.isRunning(), False)
        k.attach()
        eq(ctx + 'client', (k.isRunning(), k.getNRows(), k.getNCols(), k.getScalarType(), k.getBasename(), k.getNamespace()), (True, r, c, dt, 'b', ns)); eq(ctx + 'getNClients', s.getNClients(), 1)
        a = np.zeros((r, c), npt, order); a[...] = (np.arange(r * c).reshape(r, c) * 7 % 5).astype(npt); g = np.zeros((r, c), npt, order)
        if k.write(a, 0, 0) is True and s.read(g, 0, 0) is True: eq(ctx + 'transfer', g.tolist(), a.tolist())
        else: V(ctx + 'transfer failed')
        if safe:
            s.dataSemAcquire(); eq(ctx + 'write while the data semaphore is held', k.write(a, 0, 0), False); s.dataSemRelease(); eq(ctx + 'write after its release', k.write(a, 0, 0), True)
            k.dataSemAcquire(); eq(ctx + 'write while the data semaphore is held by the client', s.write(a, 0, 0), False); k.dataSemRelease(); eq(ctx + 'write after its release', s.write(a, 0, 0), True)
        else:
            s.dataSemAcquire(); eq(ctx + 'unsafe write while the data semaphore is held', (k.write(a, 0, 0), s.write(a, 0, 0)), (True, True)); s.dataSemRelease()
        k.detach(); eq(ctx + 'client after detach', k.isRunning(), False); k.close()
        s.stop(); eq(ctx + 'server after stop', s.isRunning(), False); s.close()
    for bad in (-1, 7):
        eq('layout %d' % bad, isinstance(attempt(E.ServerFactory, 2, 2, 'b', ns, False, E.VLevel.V0, True, False, E.dtype.Int, bad), str), True)
        eq('layout %d' % bad, isinstance(attempt(E.ClientFactory, 'b', ns, False, E.VLevel.V0, True, E.dtype.Int, bad), str), True)
def strings():
    for n in (1, 2, 5):
        if time.time() > end or viol > 3: return
        s = E.StringTensorServer(length=n, basename='s', name_space=ns, verbose=False, vlevel=E.VLevel.V0, force_reconnection=True, safe=True); s.run()
        k = E.StringTensorClient(basename='s', name_space=ns, verbose=False, vlevel=E.VLevel.V0, safe=True); k.run()
        for o in (s, k):
            eq('string tensor', (o.isRunning(), o.length(), o.getBasename(), o.getNamespace()), (True, n, 's', ns + 'StringTensor' if o.getNamespace() != ns else ns))
        for w, o in ((s, k), (k, s)):
            for m in range(1, n + 1):
                for i in range(n - m + 1):
                    L = ['w%d_%d_%d' % (m, i, j) for j in range(m)]
                    eq('write_vec', w.write_vec(L, i), True); G = ['x'] * m; eq('read_vec', o.read_vec(G, i), True); eq('the strings of read_vec', G, L)
                    for j in range(m): eq('read_str', tuple(o.read_str(i + j)), (L[j], True))
            for i in range(n): eq('write_str', w.write_str('only%d' % i, i), True); eq('read_str', tuple(o.read_str(i)), ('only%d' % i, True))
            G = []; eq('read_vec of an empty list', o.read_vec(G, 0), False); eq('an empty list', G, [])
        k.close(); eq('after close', k.isRunning(), False); s.close(); eq('after close', s.isRunning(), False)
def sync():      # in two processes: the calls do not release the interpreter lock
    p = E.Producer('p', ns, False, E.VLevel.V0, True); p.run()
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        c = E.Consumer('p', ns, False, E.VLevel.V0); c.run(); res = [c.wait(1) is False]
        for i in range(3):
            os.write(w, b'r'); res.append(c.wait(5000) is True and c.ack() is not False)
        c.close(); os._exit(0 if all(res) else 1)
    eq('wait_ack_from with no consumer at work', p.wait_ack_from(1, 1), False)
    for i in range(3): os.read(r, 1); time.sleep(.2); p.trigger(); eq('wait_ack_from', p.wait_ack_from(1, 5000), True)
    eq('result of the consumer', os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]), 0); p.close()
endpoints(); strings()
if hasattr(E, 'Producer') and not viol: sync()
for f in os.listdir("/dev/shm"):
    if ns in f:
        try: os.unlink("/dev/shm/" + f)
        except OSError: pass
print('RUNS %d' % runs)
sys.stdout.flush(); os._exit(1 if viol else 0)
