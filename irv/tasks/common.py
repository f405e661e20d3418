"""Shared specification vocabulary: compressed matrices, dot-product prefixes, ..."""
import z3
from ..sym import *
BIG = 1 << 31     # dimensions fit the index type; number of entries below 2^40
NNZ = 1 << 40

class Comp:
    """A valid compressed matrix given as symbolic arrays: `nmaj` compressed rows/columns, `nmin` minor size."""
    def __init__(s, ex, st, pre, nmaj, nmin, ind="i32", sorted_=False, writable=False, check_ind=True, vc=1, facts=True):
        s.pre = pre; s.nmaj, s.nmin = nmaj, nmin
        s.ptr = ex.region(st, pre + "ptr", "i64", nmaj + 1 if isz(nmaj) or True else 0, writable)
        s.nnz = z3.Int(pre + "nnz"); st.assume(z3.And(s.nnz >= 0, s.nnz < NNZ)); st.nn.add(s.nnz.get_id())
        s.ind = ex.region(st, pre + "ind", ind, s.nnz, writable)
        s.val = ex.region(st, pre + "val", "double", vc * s.nnz, writable)
        s.P, s.Ix, s.V = s.ptr.content, s.ind.content, s.val.content
        i, j = z3.Int("i"), z3.Int("j")
        P, Ix = s.P, s.Ix
        st.assume(P[0] == 0); st.assume(P[nmaj] == s.nnz)
        if not facts: return
        st.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= nmaj), P[i] <= P[j]), [(P[i], P[j])]))
        st.assume(forall([i], z3.Implies(z3.And(0 <= i, i <= nmaj), z3.And(P[i] >= 0, P[i] <= s.nnz)), [P[i]]))
        if check_ind: st.assume(forall([i], z3.Implies(z3.And(0 <= i, i < s.nnz), z3.And(Ix[i] >= 0, Ix[i] < nmin)), [Ix[i]]))
    def sorted_facts(s, st, strict=True):
        """indices strictly increasing inside every compressed row/column"""
        i, k, l = z3.Int("i"), z3.Int("k"), z3.Int("l"); P, Ix = s.P, s.Ix
        c = Ix[k] < Ix[l] if strict else Ix[k] <= Ix[l]
        st.assume(forall([i, k, l], z3.Implies(z3.And(0 <= i, i < s.nmaj, P[i] <= k, k < l, l < P[i + 1]), c), [(P[i + 1], Ix[k], Ix[l])]))

def conj(x): return x

def T(name, holes, fn, when=None, **kw): return Template(name, holes, fn, when, **kw)
