"""P18: the pieces of the factorization driver that no other property covers: compression of the factors after deferrals and the
reported counts of one level.  The kernels the driver composes are proved under P04, P07, P14, P16, P17, P19."""
from .common import *
BIGD = (1 << 31) - 1
i_, j_, k_ = z3.Ints("i j k")
class Tails(Task):
    """indices behind the start positions of the first k rows / columns move down by the number of deferrals, all others stay"""
    name = "exact_tails"; driver = "exact.cpp"; fn = "drv_tails"; must_cover = (1,); two = True
    def setup(s, ex, st):
        m = s.m = ex.int_(st, "m", 0, BIGD); n = s.n = ex.int_(st, "n", 0, BIGD); k = s.k = ex.int_(st, "k", 0, BIGD); d = s.d = ex.int_(st, "dfrs", 0, BIGD); st.assume(z3.And(k <= m, d <= n))
        s.M = []
        for nm in ("ul" if s.two else "l"):
            M = Comp(ex, st, nm, m, n); P, Ix = M.P, M.Ix; r = ex.region(st, nm + "start", "i64", m, False); S = r.content
            M.ind = ex.region(st, nm + "idx", "i32", M.nnz); M.Ix = Ix = M.ind.content; row = z3.Function("row" + nm, I, I)
            st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < M.nnz), z3.And(0 <= Ix[i_], Ix[i_] < n)), [Ix[i_]]))
            st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < m), z3.And(P[i_] <= S[i_], S[i_] <= P[i_ + 1])), [S[i_]]))
            st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < m, S[i_] <= j_, j_ < P[i_ + 1]), Ix[j_] >= d), [(S[i_], Ix[j_])]))      # tail entries are shifted by the deferrals
            st.assume(forall(j_, z3.Implies(z3.And(0 <= j_, j_ < M.nnz), z3.And(0 <= row(j_), row(j_) < m, P[row(j_)] <= j_, j_ < P[row(j_) + 1])), [row(j_)]))
            st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < m, P[i_] <= j_, j_ < P[i_ + 1]), row(j_) == i_), [(P[i_], row(j_))]))
            s.M.append((M, S, row, nm + "idx", r))
        s.templates = []
        for M, S, row, nm, r in s.M:
            P, Ix = M.P, M.Ix; tail = lambda j, S=S, row=row: j >= S[row(j)]
            new = lambda j, b, Ix=Ix: Ix[j] - z3.If(b, d, 0)
            inb = lambda j, M=M: z3.And(0 <= j, j < M.nnz)
            s.templates += [T("dn" + nm, "kJ", lambda v, k, f, row=row, tail=tail, new=new, inb=inb: forall(j_, z3.Implies(inb(j_), f.content[j_] == new(j_, z3.And(row(j_) < k, tail(j_)))), [f.content[j_]]), only=(nm,)),
                            T("in" + nm, "koJ", lambda v, k, o, f, row=row, tail=tail, new=new, inb=inb: forall(j_, z3.Implies(inb(j_), f.content[j_] == new(j_, z3.And(tail(j_), z3.Or(row(j_) < o, z3.And(row(j_) == o, j_ < k))))), [f.content[j_]]), only=(nm,)),
                            T("rg" + nm, "ko", lambda v, k, o, S=S, P=P: z3.And(S[o] <= k, k <= P[o + 1]))]
        a = [m, n]
        for M, S, row, nm, r in s.M: a += [ex.ptr(M.ptr), M.nnz, ex.ptr(M.ind), ex.ptr(M.val)]
        for M, S, row, nm, r in s.M: a.append(ex.ptr(r))
        return a + [k, d]
    def bounds(s, ex, st): return {"m": s.m, "n": s.n, "k": s.k}
    def unfold(s, ex, st, k):
        for M, S, row, nm, r in s.M: trig(st, M.P[k], M.P[k + 1], S[k])
    def ensure(s, ex, st, tag, a):
        for M, S, row, nm, r in s.M:
            j = fint("j"); st.assume(z3.And(0 <= j, j < M.nnz)); trig(st, M.Ix[j], S[row(j)], M.P[row(j)]); f = st.regs[M.ind.id].content
            ex.prove(st, f[j] == M.Ix[j] - z3.If(z3.And(row(j) < s.k, j >= S[row(j)]), s.d, 0), "post: exactly the tail entries of the leading rows move by the number of deferrals (%s)" % nm)
            ex.prove(st, st.regs[M.ptr.id].content[row(j)] == M.P[row(j)], "post: start positions unchanged (%s)" % nm)
        h = lambda x: z3.If(s.n >= 0, s.n / 2, 0)
        v = [zi(x) for x in a]
        want = [s.m, h(0), h(0), s.m] if s.two else [h(0), s.m]
        for g, w, nm in zip(v, want, ("rows of U", "columns of U", "rows of L", "columns of L") if s.two else ("rows of L", "columns of L")): ex.prove(st, g == w, "post: number of %s" % nm)
class Tail(Tails): name = "exact_tail"; fn = "drv_tail"; two = False
class Counts(Task):
    """reported non-zero counts, rank and last-level flag of one level agree with the stored parts"""
    name = "exact_counts"; driver = "exact.cpp"; fn = "drv_counts"; must_cover = (1,)
    def setup(s, ex, st):
        m = s.m = ex.int_(st, "m", 0, 1 << 20); n = s.n = ex.int_(st, "n", 0, 1 << 20); st.assume(m <= n); a = [m, n]; s.nz = {}
        for nm, r in (("l", m), ("u", m), ("e", m), ("f", n - m)):
            M = Comp(ex, st, nm, r, n); s.nz[nm] = M.nnz; a += [ex.ptr(M.ptr), M.nnz, ex.ptr(M.ind), ex.ptr(M.val)]
        s.ds, s.ss = ex.int_(st, "ds", 0, 1 << 20), ex.int_(st, "ss", 0, 1 << 20); s.dr, s.sr = ex.int_(st, "dr", 0, 1 << 20), ex.int_(st, "sr", 0, 1 << 20)
        st.assume(z3.Implies(s.ds > 0, s.ds == n - m)); st.assume(z3.Implies(s.ss > 0, z3.And(s.ss == n - m, s.ds == 0))); d2 = z3.Int("d2"); s2 = z3.Int("s2")
        st.assume(z3.And(d2 >= 0, s2 >= 0))
        for k, q in ((s.ds, d2), (s.ss, s2)): st.assume(z3.Implies(k > 0, q > 0))
        D, S = ex.region(st, "da", "double", s.ds * s.ds), ex.region(st, "sa", "double", s.ss * s.ss)
        return a + [s.ds, ex.ptr(D), s.dr, s.ss, ex.ptr(S), s.sr]
    def bounds(s, ex, st): return {"m": s.m, "n": s.n}
    def ensure(s, ex, st, tag, a):
        m, n, Z = s.m, s.n, s.nz; ef = z3.If(n > m, Z["e"] + Z["f"], 0); last = z3.Or(s.ds > 0, s.ss > 0)
        ex.prove(st, zi(a[0]) == z3.If(m > 0, Z["l"] + Z["u"] + m, 0) + ef + z3.If(last, (n - m) * (n - m), 0), "post: non-zeros are those of the factors, the diagonal, the off-diagonal blocks and the dense block")
        ex.prove(st, zi(a[1]) == ef, "post: off-diagonal non-zeros"); ex.prove(st, zi(a[2]) == z3.If(s.ds > 0, s.dr, z3.If(s.ss > 0, s.sr, 0)), "post: rank of the dense last block")
        ex.prove(st, zb(a[3]) == z3.Or(last, m == n), "post: last level iff it has a dense block or none is left")
TASKS = [Tails, Tail, Counts]
