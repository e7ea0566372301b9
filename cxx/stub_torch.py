# Stand-in for torch: tensors are numpy arrays; 'cuda' is a separate storage.
import numpy as np
class Tensor(np.ndarray):
    dev = 'cpu'
    def requires_grad_(s, f=True): return s
    def to(s, d, non_blocking=False):
        if d == s.dev: return s
        x = np.array(s).view(Tensor); x.dev = d
        if d == 'cpu' and non_blocking: x[...] = x.dtype.type(1)      # not there yet
        return x
    def cpu(s): return s.to('cpu')
    def zero_(s): s[...] = 0; return s
    def clone(s): return np.array(s).view(Tensor)
def from_numpy(a): return a.view(Tensor)
class cuda:
    @staticmethod
    def is_available(): return True
