"""P16: Crout kernels.  A step works at position ds = step + deferrals.  The list of ds chains the contributing columns
(rows) seq(0), seq(1), ..., seq(len-1); tau is the inverse of seq, tau(-1) = len."""
from .common import *
import re
from ..sym import INV
BIGD = (1 << 31) - 1; EMPTY = -1
i_, j_, t_, p_, q_, r_ = z3.Ints("i j t p q r")
class Cr(Task):
    driver = "crout.cpp"; must_cover = (1,); mulf = True; two = False; vecs = ()
    def base(s, ex, st):
        n, m, N = s.n, s.m, s.N = ex.int_(st, "n", 0, BIGD), ex.int_(st, "m", 0, BIGD), ex.int_(st, "N", 0, BIGD)
        s.step, s.df = ex.int_(st, "step", 0, BIGD), ex.int_(st, "defers", 0, BIGD); s.ds = s.step + s.df
        st.assume(z3.And(m <= n, s.step < m, s.ds < n, n + s.df <= N)); s.templates = []
        return [n, m, N, s.step, s.df]
    def mat(s, ex, st, pre, writable=False):
        """factor under assembly: rows 0..step-1 are stored"""
        M = type("M", (), {})(); m, step, N = s.m, s.step, s.N
        nz = M.nz = ex.int_(st, pre + "nz", 0, NNZ); M.ptr = ex.region(st, pre + "p", "i64", m + 1, False); M.ind = ex.region(st, pre + "i", "i32", nz, writable); M.val = ex.region(st, pre + "v", "double", nz, writable)
        P, X, V = M.P, M.X, M.V = M.ptr.content, M.ind.content, M.val.content; M.len = step
        st.assume(P[0] == 0); st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ <= j_, j_ <= step), z3.And(0 <= P[i_], P[i_] <= P[j_], P[j_] <= nz)), [(P[i_], P[j_])]))
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ <= step), z3.And(0 <= P[i_], P[i_] <= nz)), [P[i_]]))
        M.row = row = z3.Function(pre + "row", I, I)      # marks rows looked at
        st.assume(forall([i_, p_, q_], z3.Implies(z3.And(0 <= i_, i_ < step, P[i_] <= p_, p_ < q_, q_ < P[i_ + 1]), X[p_] < X[q_]), [(row(i_), X[p_], X[q_])]))
        st.assume(forall(p_, z3.Implies(z3.And(0 <= p_, p_ < nz), z3.And(0 <= X[p_], X[p_] < N)), [X[p_]]))
        M.args = [ex.ptr(M.ptr), nz, ex.ptr(M.ind), ex.ptr(M.val)]
        return M
    def starts(s, ex, st, M, nm):
        """start[j]: entries of row j that were passed"""
        r = ex.region(st, nm, "i64", s.m, False); S = r.content
        st.assume(forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.step), z3.And(0 <= S[j_], S[j_] <= M.P[j_ + 1] - M.P[j_])), [S[j_]]))
        return r
    def chain(s, ex, st, M, S):
        r = ex.region(st, "list", "i32", s.N, False); L = r.content
        seq, tau = s.seq, s.tau = z3.Function("seq", I, I), z3.Function("tau", I, I); ln = s.ln = ex.int_(st, "len", 0, BIGD)
        it = z3.And(0 <= t_, t_ < ln)
        st.assume(forall(t_, z3.Implies(it, z3.And(0 <= seq(t_), seq(t_) < s.step, tau(seq(t_)) == t_, L[seq(t_)] == z3.If(t_ + 1 < ln, seq(t_ + 1), -1))), [seq(t_)]))
        st.assume(z3.And(tau(-1) == ln, L[s.ds] == z3.If(ln > 0, seq(0), -1), z3.Implies(ln == 0, tau(-1) == 0)))
        st.assume(z3.Implies(ln > 0, z3.And(tau(seq(0)) == 0, 0 <= seq(0), seq(0) < s.step)))
        if S is not None: st.assume(forall(t_, z3.Implies(it, z3.And(M.P[seq(t_)] + S.content[seq(t_)] < M.P[seq(t_) + 1], M.X[M.P[seq(t_)] + S.content[seq(t_)]] == s.ds)), [seq(t_)]))   # each points at its entry at ds
        s.node = lambda j: z3.Or(j == -1, z3.And(0 <= tau(j), tau(j) < ln, seq(tau(j)) == j, 0 <= j, j < s.step))
        s.templates.append(T("node", "k", lambda v, j: s.node(j)))
        s.L = L; return r
    def vec(s, ex, st, nm, cnt=None):
        V = type("V", (), {})(); N = s.N; V.v = ex.region(st, nm + "w", "double", N); V.x = ex.region(st, nm + "x", "i32", N); V.t = ex.region(st, nm + "t", "i32", N); V.g = ex.region(st, nm + "g", "i8", N)
        V.c = ex.int_(st, nm + "c", 0, BIGD); st.assume(V.c <= N); V.args = [ex.ptr(V.v), ex.ptr(V.x), ex.ptr(V.t), ex.ptr(V.g), V.c]; return V
    def bounds(s, ex, st): return {"n": s.n, "m": s.m, "N": s.N}
    # push_back by its contract (P07): reports whether the index is new at this step and tags it; room since indices are listed once
    def push(s, ex, st, ins, v):
        V = s.out; i, stp = zi(v[1]), zi(v[2]); ex.prove(st, z3.And(0 <= i, i < s.N), "pre: index of the vector"); ex.prove(st, stp == s.step, "pre: tag of this step")
        ex.mark_write(st, st.regs[V.t.id]); r = st.regs[V.t.id].copy(); st.regs[r.id] = r; new = r.content[i] != s.step; r.content = z3.Store(r.content, i, s.step); return new
    @property
    def contracts(s): return [(re.compile(r"^hif::SparseVector<double, int>::push_back\("), s.push)]
class Row(Cr):
    """row of U / column of L: scaled permuted entries minus the contributions of the earlier steps"""
    thr = None; noop = False
    def setup(s, ex, st):
        a = s.base(ex, st); n, N, m = s.n, s.N, s.m
        A = s.A = Comp(ex, st, "a", n, n); S, Tt = ex.region(st, "s", "double", n, False), ex.region(st, "t", "double", n, False)
        pk = ex.int_(st, "pk", 0); st.assume(pk < n); Q = ex.region(st, "qi", "i32", n, False); q = Q.content
        st.assume(forall(j_, z3.Implies(z3.And(0 <= j_, j_ < n), z3.And(0 <= q[j_], q[j_] < n + s.df)), [q[j_]]))
        X = s.X = s.mat(ex, st, "l"); Ls = s.starts(ex, st, X, "ls"); ll = s.chain(ex, st, X, Ls); d = ex.region(st, "d", "double", m, False)
        if s.two: Y = s.Y = s.mat(ex, st, "u"); Us = s.starts(ex, st, Y, "us")
        else: Y, Us = X, Ls
        V = s.out = s.vec(ex, st, "y"); step, ds = s.step, s.ds
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < N), V.t.content[i_] != step), [V.t.content[i_]]))   # the vector holds nothing of this step
        ex_ = s.extra(ex, st); thr = s.thr
        # entries that were not passed lie at ds or beyond
        st.assume(forall([j_, p_], z3.Implies(z3.And(0 <= j_, j_ < step, Y.P[j_] + Us.content[j_] <= p_, p_ < Y.P[j_ + 1]), s.rest(Y.X[p_])), [(Y.row(j_), Y.X[p_])]))
        # pa(idx): where the row of A holds idx (columns occur once, the permutation is injective); pu(j, idx): where row j of the factor does
        pa, pu = z3.Function("pa", I, I), z3.Function("pu", I, I, I); A0, EU, SU = z3.Function("A0", I, z3.RealSort()), z3.Function("EU", I, I, z3.RealSort()), z3.Function("SU", I, I, z3.RealSort()); s.A0, s.EU, s.SU, s.pa, s.pu = A0, EU, SU, pa, pu
        b, e = A.P[pk], A.P[pk + 1]; mid = Tt if s.rowA else S; sc = S if s.rowA else Tt
        st.assume(forall(p_, z3.Implies(z3.And(b <= p_, p_ < e), pa(q[A.Ix[p_]]) == p_), [A.Ix[p_]]))
        av = lambda p: mulf(mulf(sc.content[pk], A.V[p]), mid.content[A.Ix[p]]) if s.rowA else mulf(mulf(mid.content[A.Ix[p]], A.V[p]), sc.content[pk])
        st.assume(forall(i_, A0(i_) == z3.If(z3.And(b <= pa(i_), pa(i_) < e, q[A.Ix[pa(i_)]] == i_, i_ > thr), av(pa(i_)), 0), [A0(i_)]))
        st.assume(forall([j_, p_], z3.Implies(z3.And(0 <= j_, j_ < step, Y.P[j_] + Us.content[j_] <= p_, p_ < Y.P[j_ + 1]), pu(j_, Y.X[p_]) == p_), [(Y.row(j_), Y.X[p_])]))
        s.ld = lambda j: mulf(X.V[X.P[j] + Ls.content[j]], d.content[j])
        st.assume(forall([j_, i_], z3.Implies(z3.And(0 <= j_, j_ < step), EU(j_, i_) == z3.If(z3.And(Y.P[j_] + Us.content[j_] <= pu(j_, i_), pu(j_, i_) < Y.P[j_ + 1], Y.X[pu(j_, i_)] == i_, i_ > ds), mulf(s.ld(j_), Y.V[pu(j_, i_)]), 0)), [EU(j_, i_)]))
        st.assume(forall(i_, SU(0, i_) == A0(i_), [SU(0, i_)])); st.assume(z3.Implies(s.ln == 0, forall(i_, SU(s.ln, i_) == A0(i_), [SU(s.ln, i_)])))
        s.mk = z3.Function('mk', I, I); st.assume(forall([t_, i_], z3.Implies(z3.And(0 < t_, t_ <= s.ln), SU(t_, i_) == SU(t_ - 1, i_) - EU(s.seq(t_ - 1), i_)), [(s.mk(t_), SU(t_, i_))]))
        ini = V.v.content; inr = z3.And(0 <= i_, i_ < N); con = s.con
        s.b, s.e, s.Us, s.q, s.pk = b, e, Us, q, pk; tau = s.tau
        s.templates += [T("ld", "kFI", lambda v, k, f, g: forall(i_, z3.Implies(inr, con(f, g, i_) == z3.If(pa(i_) < k, A0(i_), 0)), [pa(i_)])),
                        T("up", "kFI", lambda v, k, f, g: forall(i_, z3.Implies(inr, con(f, g, i_) == SU(tau(k), i_)), [SU(tau(k), i_)])),
                        T("in", "okFI", lambda v, o, k, f, g: forall(i_, z3.Implies(inr, con(f, g, i_) == SU(tau(o), i_) - z3.If(pu(o, i_) < k, EU(o, i_), 0)), [pu(o, i_)])),
                        T("rg", "ok", lambda v, o, k: z3.And(Y.P[o] + Us.content[o] <= k, k <= Y.P[o + 1])), T("at", "ok", lambda v, o, k: z3.Implies(z3.And(Y.P[o] <= k, k < Y.P[o + 1]), Y.X[k] > ds))]
        s.d = d
        return a + [ex.ptr(A.ptr), s.A.nnz, ex.ptr(A.ind), ex.ptr(A.val), ex.ptr(S), ex.ptr(Tt), pk, ex.ptr(Q)] + X.args + [ex.ptr(Ls), ex.ptr(ll), ex.ptr(d)] + (Y.args + [ex.ptr(Us)] if s.two else []) + V.args + ex_
    rowA = True
    def con(s, f, g, i): return z3.If(g.content[i] == s.step, f.content[i], 0)
    def rest(s, x): return x >= s.ds
    def extra(s, ex, st): s.thr = s.ds; return []
    def unfold(s, ex, st, k):
        Y = s.Y if s.two else s.X; trig(st, Y.row(k), Y.X[k], s.mk(s.tau(k)), s.mk(s.tau(s.L[k])), s.tau(k), s.seq(s.tau(k)), Y.P[k], Y.P[k + 1], Y.X[Y.P[k] + s.Us.content[k]], s.A.Ix[k])
    def ensure(s, ex, st, tag, a):
        V = s.out; w = fint("w"); st.assume(z3.And(0 <= w, w < s.N)); trig(st, s.SU(s.ln, w), s.A0(w)); f, g = st.regs[V.v.id], st.regs[V.t.id]
        ex.prove(st, s.con(f, g, w) == s.SU(s.ln, w), "post: every position holds its scaled entry minus the contributions of all listed steps")
class Ut(Row): name = "crout_ut"; fn = "drv_ut"; two = True
class Lc(Row):
    name = "crout_l"; fn = "drv_l"; two = True; rowA = False
    def extra(s, ex, st): s.thr = s.ds; s.m2 = ex.int_(st, "m2", 0, BIGD); st.assume(z3.And(s.m <= s.m2, s.m2 <= s.n)); return [s.m2]
class Symm(Row):
    name = "crout_symm"; fn = "drv_symm"; rowA = False
    def extra(s, ex, st): s.thr = s.ds; s.m2 = ex.int_(st, "m2", 0, BIGD); st.assume(z3.And(s.m <= s.m2, s.m2 <= s.n)); return [s.m2]
class Lsym(Row):
    """symmetric leading block: only positions from m2 on; nothing to do when there are none"""
    name = "crout_ls"; fn = "drv_ls"; two = True; rowA = False
    def extra(s, ex, st):
        s.m2 = ex.int_(st, "m2", 1, BIGD); st.assume(z3.And(s.m <= s.m2, s.m2 <= s.n, s.ds < s.m2)); s.thr = s.m2 - 1; s.none = z3.And(s.df == 0, s.m2 == s.n); return [s.m2]
    def rest(s, x): return x >= s.m2
    def ensure(s, ex, st, tag, a):
        V = s.out; w = fint("w"); st.assume(z3.And(0 <= w, w < s.N)); trig(st, s.SU(s.ln, w), s.A0(w)); f, g = st.regs[V.v.id], st.regs[V.t.id]
        ex.prove(st, z3.Implies(z3.Not(s.none), s.con(f, g, w) == s.SU(s.ln, w)), "post: every position from m on holds its scaled entry minus the contributions of all listed steps")
        ex.prove(st, z3.Implies(s.none, z3.And(f.content[w] == V.v.content[w], g.content[w] == V.t.content[w])), "post: nothing to compute leaves the vector")
class Vec(Cr):
    """vectors whose listed indices are distinct, lie beyond the step, and carry its tag"""
    def lst(s, ex, st, nm):
        V = s.vec(ex, st, nm); V.at = at = z3.Function(nm + "at", I, I); X, t = V.x.content, V.t.content
        V.has = lambda i, k: z3.And(0 <= at(i), at(i) < k, X[at(i)] == i)
        st.assume(forall(j_, z3.Implies(z3.And(0 <= j_, j_ < V.c), z3.And(s.ds < X[j_], X[j_] < s.N, at(X[j_]) == j_)), [X[j_]]))
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.N), (t[i_] == s.step) == V.has(i_, V.c)), [t[i_]]))
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.N), (t[i_] == s.step) == V.has(i_, V.c)), [at(i_)]))
        return V
    def same(s, ex, st, rs, what):
        for r in rs: ex.prove(st, st.regs[r.id].content == r.content, "frame: " + what)
    def unfold(s, ex, st, k):
        for V in s.vs: trig(st, V.x.content[k], V.at(V.x.content[k]))
class Scl(Vec):
    name = "crout_scale"; fn = "drv_scale"; must_cover = (1,)
    def setup(s, ex, st):
        a = s.base(ex, st); s.d = ex.region(st, "d", "double", s.m, False); V = s.V = s.lst(ex, st, "y"); s.vs = [V]; dk = s.d.content[s.step]; W = V.v.content; s.fail = dk == 0
        one = z3.RealVal(1); small = z3.RealVal("1/%d" % 2**1022); ab = z3.If(dk < 0, -dk, dk); s.div = lambda x: z3.If(ab > small, mulf(x, mulf(one, INV(dk))), mulf(x, INV(dk)))
        s.templates = [T("sc", "kF", lambda v, k, f: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.N), f.content[i_] == z3.If(V.has(i_, k), s.div(W[i_]), W[i_])), [f.content[i_]]))]
        return a + [ex.ptr(s.d)] + V.args
    def ensure(s, ex, st, tag, a):
        V = s.V; w = fint("w"); st.assume(z3.And(0 <= w, w < s.N)); W = V.v.content; f = st.regs[V.v.id].content; trig(st, f[w], V.at(w))
        ex.prove(st, (zi(a[0]) != 0) == s.fail, "post: refused exactly for a zero diagonal entry")
        ex.prove(st, f[w] == z3.If(z3.And(z3.Not(s.fail), V.has(w, V.c)), s.div(W[w]), W[w]), "post: exactly the listed entries are divided by the diagonal entry")
        ex.prove(st, zi(a[1]) == V.c, "post: same number of entries"); s.same(ex, st, [V.x, V.t, V.g, s.d], "indices, tags and diagonal unchanged")
class Dg(Vec):
    name = "crout_diag"; fn = "drv_diag"
    def setup(s, ex, st):
        a = s.base(ex, st); s.d = ex.region(st, "d", "double", s.m); V, U = s.V, s.U = s.lst(ex, st, "y"), s.lst(ex, st, "z"); s.vs = [V, U]; s.m2 = ex.int_(st, "m2", 0, BIGD); st.assume(s.m2 <= s.m); d = s.d.content
        s.upd = lambda i, x, k: z3.If(z3.And(i < s.m2, V.has(i, V.c), U.has(i, U.c), x.at(i) < k), d[i] - mulf(V.v.content[i], U.v.content[i]), d[i])
        s.templates = [T("dy", "kF", lambda v, k, f: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.m), f.content[i_] == s.upd(i_, V, k)), [f.content[i_]])), T("dz", "kF", lambda v, k, f: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.m), f.content[i_] == s.upd(i_, U, k)), [f.content[i_]]))]
        return a + [ex.ptr(s.d)] + V.args + U.args + [s.m2]
    def ensure(s, ex, st, tag, a):
        V, U = s.V, s.U; w = fint("w"); st.assume(z3.And(0 <= w, w < s.m)); f = st.regs[s.d.id].content; trig(st, f[w], V.at(w), U.at(w))
        ex.prove(st, f[w] == s.upd(w, V, V.c), "post: exactly the diagonal entries of the leading block met by both vectors are reduced by the product"); s.same(ex, st, [r for X in s.vs for r in (X.v, X.x, X.t, X.g)], "vectors unchanged")
class Dgs(Vec):
    name = "crout_diags"; fn = "drv_diags"
    def setup(s, ex, st):
        a = s.base(ex, st); s.d = ex.region(st, "d", "double", s.m); V, U = s.V, s.U = s.lst(ex, st, "y"), s.lst(ex, st, "z"); s.vs = [V, U]; s.m2 = ex.int_(st, "m2", 1, BIGD); st.assume(s.m2 <= s.m); d = s.d.content; W = V.v.content
        s.upd = lambda i, k: z3.If(z3.And(i < s.m2, V.has(i, k)), d[i] - mulf(mulf(d[s.step], W[i]), W[i]), d[i])
        s.templates = [T("dy", "kF", lambda v, k, f: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.m), f.content[i_] == s.upd(i_, k)), [f.content[i_]]))]
        return a + [ex.ptr(s.d)] + V.args + U.args + [s.m2]
    def ensure(s, ex, st, tag, a):
        V, U = s.V, s.U; w = fint("w"); st.assume(z3.And(0 <= w, w < s.m)); f = st.regs[s.d.id].content; trig(st, f[w], V.at(w))
        ex.prove(st, f[w] == s.upd(w, V.c), "post: exactly the listed diagonal entries of the leading block are reduced by d times the square"); s.same(ex, st, [r for X in s.vs for r in (X.v, X.x, X.t, X.g)], "vectors unchanged")
class Kap(Cr):
    name = "crout_kappa"; fn = "drv_kappa"
    def setup(s, ex, st):
        a = s.base(ex, st); M = s.M = s.mat(ex, st, "l"); S = s.S = s.starts(ex, st, M, "ls"); l = s.chain(ex, st, M, S); K = s.K = ex.region(st, "k", "double", s.m); k0 = K.content
        SK = s.SK = z3.Function("SK", I, z3.RealSort()); st.assume(SK(0) == 0); s.mk = z3.Function("mk", I, I); sq, tau = s.seq, s.tau
        st.assume(forall(t_, z3.Implies(z3.And(0 < t_, t_ <= s.ln), SK(t_) == SK(t_ - 1) + mulf(k0[sq(t_ - 1)], M.V[M.P[sq(t_ - 1)] + S.content[sq(t_ - 1)]])), [s.mk(t_)]))
        s.templates.append(T("sum", "kf", lambda v, k, f: f == SK(tau(k))))
        return a + M.args + [ex.ptr(S), ex.ptr(l), ex.ptr(K)]
    def unfold(s, ex, st, k): trig(st, s.mk(s.tau(k)), s.mk(s.tau(s.L[k])), s.seq(s.tau(k)), s.M.P[k], s.M.P[k + 1], s.M.X[s.M.P[k] + s.S.content[k]])
    def ensure(s, ex, st, tag, a):
        K = st.regs[s.K.id].content; x = s.SK(s.ln); ab = lambda x: z3.If(x < 0, -x, x); w = fint("w"); st.assume(z3.And(0 <= w, w < s.m, w != s.step)); r = zi(a[0]) != 0
        ex.prove(st, K[w] == s.K.content[w], "frame: other entries unchanged")
        ex.prove(st, K[s.step] == z3.If(s.step == 0, z3.RealVal(1), z3.If(r, 1 - x, -1 - x)), "post: the entry solves the row of the listed steps for plus or minus one")
        ex.prove(st, z3.Implies(s.step > 0, z3.If(r, ab(1 - x) >= ab(-1 - x), ab(-1 - x) >= ab(1 - x))), "post: the sign giving the larger entry is taken")
class Ls(Cr):
    name = "crout_lstart"; fn = "drv_lstart"
    def setup(s, ex, st):
        a = s.base(ex, st); m, N, step = s.m, s.N, s.step; nz = s.nz = ex.int_(st, "nz", 0, NNZ); P_, X_, V_ = ex.region(st, "lp", "i64", m + 1, False), ex.region(st, "li", "i32", nz, False), ex.region(st, "lv", "double", nz, False); P, X = s.P, s.X = P_.content, X_.content
        st.assume(z3.And(0 <= P[step], P[step] <= P[step + 1], P[step + 1] <= nz)); st.assume(forall([p_, q_], z3.Implies(z3.And(P[step] <= p_, p_ < q_, q_ < P[step + 1]), X[p_] < X[q_]), [(X[p_], X[q_])]))
        st.assume(forall(p_, z3.Implies(z3.And(0 <= p_, p_ < nz), z3.And(0 <= X[p_], X[p_] < N)), [X[p_]])); s.S = ex.region(st, "ls", "i64", m); s.m2 = ex.int_(st, "m2", 0, BIGD)
        return a + [ex.ptr(P_), nz, ex.ptr(X_), ex.ptr(V_), ex.ptr(s.S), s.m2]
    def ensure(s, ex, st, tag, a):
        S = st.regs[s.S.id].content; P, X, step = s.P, s.X, s.step; w, z = fint("w"), fint("z"); st.assume(z3.And(0 <= w, w < s.m, w != step, P[step] <= z, z < P[step + 1])); trig(st, X[z])
        ex.prove(st, S[w] == s.S.content[w], "frame: other starts unchanged"); ex.prove(st, z3.And(0 <= S[step], S[step] <= P[step + 1] - P[step]), "post: start within the column")
        ex.prove(st, (z < P[step] + S[step]) == (X[z] < s.m2), "post: exactly the entries above the leading block are passed")
TASKS = [Ut, Lc, Symm, Lsym, Scl, Dg, Dgs, Kap, Ls]
