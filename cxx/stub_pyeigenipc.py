# Stand-in for the extension module: shared tensors and names inside this process, transfers refused at random (contract of C01-C15).
import enum, random
import numpy as np
rng = random.Random(7); refuse = 0.2; MEM = {}; RUNNING = {}
class VLevel(enum.IntEnum): V0 = 0; V1 = 1; V2 = 2; V3 = 3
class dtype(enum.IntEnum): Bool = 0; Int = 1; Float = 2; Double = 3
class LogType(enum.IntEnum): STAT = 0; INFO = 1; WARN = 2; EXCEP = 3
RowMajor, ColMajor = 1, 0
def toNumpyDType(t): return {dtype.Bool: np.bool_, dtype.Int: np.int32, dtype.Float: np.float32, dtype.Double: np.float64}[t]
class Refused(Exception): pass
class Journal:
    @staticmethod
    def log(classname, methodname, message, log_type, throw_when_excep=False):
        if log_type == LogType.EXCEP and throw_when_excep: raise Refused(message)
def granted(): return rng.random() >= refuse
class Shm:
    def __init__(s, key, server, R, C, dt): s.key, s.server, s.R, s.C, s.dt, s.on = key, server, R, C, dt, False
    def run(s):
        MEM[s.key] = np.zeros((s.R, s.C), toNumpyDType(s.dt)); s.on = True
    def attach(s):
        m = MEM[s.key]
        if m.dtype != toNumpyDType(s.dt): raise Refused('type')
        s.R, s.C = m.shape; s.on = True
    def getNRows(s): return s.R
    def getNCols(s): return s.C
    def getScalarType(s): return s.dt
    def isRunning(s): return s.on
    def getNClients(s): return 1
    def fits(s, v, r, c):
        if v.ndim != 2 or v.dtype != MEM[s.key].dtype: raise Refused('array')
        m = MEM[s.key]; return 0 <= r < m.shape[0] and 0 <= c < m.shape[1] and r + v.shape[0] <= m.shape[0] and c + v.shape[1] <= m.shape[1]
    def write(s, v, row, col):
        if not s.fits(v, row, col) or not granted(): return False
        MEM[s.key][row:row + v.shape[0], col:col + v.shape[1]] = v; return True
    def read(s, v, row, col):
        if not s.fits(v, row, col) or not granted(): return False
        v[:, :] = MEM[s.key][row:row + v.shape[0], col:col + v.shape[1]]; return True
    def close(s): s.on = False
    def dataSemAcquire(s): pass
    def dataSemRelease(s): pass
    def dataSemAcquireDt(s, t): pass
def ServerFactory(n_rows, n_cols, basename='', namespace='', verbose=False, vlevel=VLevel.V0, force_reconnection=False, dtype=dtype.Float, layout=RowMajor, safe=True):
    return Shm((namespace, basename), True, n_rows, n_cols, dtype)
def ClientFactory(basename='', namespace='', verbose=False, vlevel=VLevel.V0, dtype=dtype.Float, layout=RowMajor, safe=True):
    return Shm((namespace, basename), False, None, None, dtype)
class Str:
    def __init__(s, basename='', name_space='', length=None, **k): s.key = ('names', name_space, basename); s.n = length
    def length(s): return s.n
    def close(s): pass
    def isRunning(s): return True
    def write_vec(s, l, index=0):
        m = MEM[s.key]
        if index < 0 or not l or index + len(l) > len(m) or not granted(): return False
        m[index:index + len(l)] = list(l); return True
    def read_vec(s, l, index=0):
        m = MEM[s.key]
        if index < 0 or not l or index + len(l) > len(m) or not granted(): return False
        l[:] = m[index:index + len(l)]; return True
class StringTensorServer(Str):
    def run(s): MEM[s.key] = [''] * s.n
class StringTensorClient(Str):
    def run(s): s.n = len(MEM[s.key])
