"""Equality of 64-bit address terms by polynomial normal form modulo 2^64 (exact), with z3 for the rest."""
import random, z3

def poly(t, memo=None):
    """BV64 term (or int) -> {sorted tuple of atom keys: coefficient}; atoms dict kept alongside"""
    atoms = {}
    def key(x):
        k = z3.simplify(x, elim_sign_ext=False).sexpr(); atoms[k] = x; return k
    cache = {}
    def go(x):
        if isinstance(x, int): return {(): x % (1 << 64)} if x % (1 << 64) else {}
        i = x.get_id()
        if i in cache: return cache[i]
        k = x.decl().kind()
        if z3.is_bv_value(x): r = {(): x.as_long()} if x.as_long() else {}
        elif k == z3.Z3_OP_BADD:
            r = {}
            for c in x.children(): r = add(r, go(c))
        elif k == z3.Z3_OP_BSUB:
            ch = x.children(); r = go(ch[0])
            for c in ch[1:]: r = add(r, go(c), -1)
        elif k == z3.Z3_OP_BNEG: r = add({}, go(x.children()[0]), -1)
        elif k == z3.Z3_OP_BMUL:
            r = {(): 1}
            for c in x.children(): r = mul(r, go(c))
        elif k == z3.Z3_OP_BSHL and z3.is_bv_value(x.children()[1]):
            r = mul(go(x.children()[0]), {(): 1 << x.children()[1].as_long()})
        elif k == z3.Z3_OP_BNOT:
            r = add({(): (1 << 64) - 1}, go(x.children()[0]), -1)
        elif k == z3.Z3_OP_CONCAT and len(x.children()) == 2 and z3.is_bv_value(x.children()[1]) and x.children()[1].as_long() == 0 and z3.is_app_of(x.children()[0], z3.Z3_OP_EXTRACT) and x.children()[0].params()[1] == 0 and x.children()[0].children()[0].size() == 64:
            # (low bits of y) << n
            r = mul(go(x.children()[0].children()[0]), {(): 1 << x.children()[1].size()})
        else: r = {(key(x),): 1}
        cache[i] = r
        return r
    return go(t), atoms

def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + s * c) % (1 << 64)
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); v = (r.get(k, 0) + c * d) % (1 << 64)
            if v: r[k] = v
            else: r.pop(k, None)
    return r

def poly_eq(a, b):
    pa, _ = poly(a); pb, _ = poly(b)
    return pa == pb
