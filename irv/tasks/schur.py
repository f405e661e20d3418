"""P17: permuted diagonal, off-diagonal blocks, Schur complement."""
from .common import *
from .count import *
from .perm import bijection
BIGD = (1 << 31) - 1
i_, j_, w_ = z3.Int("i"), z3.Int("j"), z3.Int("w")
class Sat(Task):
    """n x n matrix A with scalings s,t and permutations p,q (with inverses) and leading block size m"""
    driver = "schur.cpp"; must_cover = (1,); rows = True; mulf = True
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); m = s.m = ex.int_(st, "m", 0, BIGD); st.assume(m <= n)
        A = s.A = Comp(ex, st, "A", n, n); s.nz = A.nnz; P, X = A.P, A.Ix
        st.assume(z3.Implies(s.nz > 0, n >= 1))
        s.R = z3.Function("Rw", I, z3.BoolSort())     # marks rows looked at
        st.assume(forall([i_, q_, r_], z3.Implies(z3.And(0 <= i_, i_ < n, P[i_] <= q_, q_ < r_, r_ < P[i_ + 1]), X[q_] < X[r_]), [(s.R(i_), X[q_], X[r_])]))
        s.s = ex.region(st, "s", "double", n, writable=False); s.t = ex.region(st, "t", "double", n, writable=False)
        s.pr = []
        for nm in "pq":
            f = ex.region(st, nm, "i32", n, writable=False); g = ex.region(st, nm + "inv", "i32", n, writable=False); h = z3.Function(nm + "h", I, I)
            bijection(st, f.content, lambda x, g=g: g.content[x], n); s.pr += [f, g]
        s.p, s.pi, s.q, s.qi = [r.content for r in s.pr]
        s.more(ex, st)
        return [n, ex.ptr(A.ptr), ex.ptr(A.ind), ex.ptr(A.val), ex.ptr(s.s), ex.ptr(s.t), m] + [ex.ptr(r) for r in s.pr]
    def sav(s, k, i, j): return mulf(mulf(s.s.content[i], s.A.V[k]), s.t.content[j])
    def bounds(s, ex, st): return {"n": s.n, "m": s.m, "nnz": s.nz}
    def frame(s, ex, st):
        for r, c, n in ((s.A.ptr, s.A.P, s.n + 1), (s.A.ind, s.A.Ix, s.nz), (s.A.val, s.A.V, s.nz)): ex.prove(st, forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), st.regs[r.id].content[r_] == c[r_])), "frame: the matrix is unchanged")
class Diag(Sat):
    name = "schur_diag"; fn = "drv_diag"; rows = False
    def more(s, ex, st):
        P, X, p, q = s.A.P, s.A.Ix, s.p, s.q
        has, pos, dv = s.has, s.pos, s.dv = z3.Function("has", I, z3.BoolSort()), z3.Function("pos", I, I), z3.Function("dv", I, z3.RealSort())
        inr = lambda i: z3.And(0 <= i, i < s.n)
        st.assume(forall(i_, z3.Implies(inr(i_), dv(i_) == z3.If(has(i_), s.sav(pos(i_), p[i_], q[i_]), 0)), [dv(i_)]))
        st.assume(forall(i_, z3.Implies(z3.And(inr(i_), has(i_)), z3.And(P[q[i_]] <= pos(i_), pos(i_) < P[q[i_] + 1], X[pos(i_)] == p[i_])), [dv(i_)]))
        st.assume(forall([i_, r_], z3.Implies(z3.And(inr(i_), P[q[i_]] <= r_, r_ < P[q[i_] + 1], X[r_] == p[i_]), has(i_)), [(dv(i_), X[r_])]))
        s.templates = [T("dn", "kF", lambda v, k, b: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), b.content[i_] == dv(i_)), [b.content[i_]]))]
    def unfold(s, ex, st, k):
        trig(st, s.dv(k), s.R(s.q[k]), s.p[k], s.A.P[s.q[k]], s.A.P[s.q[k] + 1], s.A.Ix[s.pos(k)])
    def ensure(s, ex, st, tag, a):
        w = fint("w"); st.assume(z3.And(0 <= w, w < s.m)); s.unfold(ex, st, w)
        ex.prove(st, zi(a[1]) == s.m, "post: one entry per leading position")
        ex.prove(st, st.regs[a[0].reg].content[w] == s.dv(w), "post: every entry is the scaled diagonal entry of the permuted matrix, zero when not stored")
        s.frame(ex, st)
class E(Sat):
    """positions of the trailing rows p[m..n) in the order of the permuted rows are numbered u = NV(i) + k - P[p[i]]"""
    name = "schur_E"; fn = "drv_E"
    def more(s, ex, st):
        P, X, p, qi, n, m = s.A.P, s.A.Ix, s.p, s.qi, s.n, s.m
        NV, vr, pos = s.NV, s.vr, s.pos = [z3.Function(x, I, I) for x in ("NV", "vr", "vpos")]
        row = lambda i: z3.And(m <= i, i < n)
        x, y, z, u = z3.Ints("x y z u")
        st.assume(NV(m) == 0); ex.valid("prefix sums of row lengths are monotone (induction step)", [0 <= x, x <= y, u >= 0], z3.And(0 <= y + u, x <= y + u))
        st.assume(forall([i_, j_], z3.Implies(z3.And(m <= i_, i_ <= j_, j_ <= n), NV(i_) <= NV(j_)), [(NV(i_), NV(j_))]))
        st.assume(forall(i_, z3.Implies(z3.And(m <= i_, i_ <= n), z3.And(0 <= NV(i_), NV(i_) <= NV(n))), [NV(i_)]))
        s.len_ = NV(n); inu = lambda u: z3.And(0 <= u, u < NV(n))
        ex.valid("every numbered position belongs to a row (induction step)", [0 <= x, x < y + u, u >= 0, z3.Not(x < y)], z3.And(0 <= x - y, x - y < u))
        st.assume(forall(q_, z3.Implies(inu(q_), z3.And(row(vr(q_)), NV(vr(q_)) <= q_, q_ < NV(vr(q_) + 1), pos(q_) == P[p[vr(q_)]] + q_ - NV(vr(q_)), P[p[vr(q_)]] <= pos(q_), pos(q_) < P[p[vr(q_)] + 1], 0 <= pos(q_), pos(q_) < s.nz)), [vr(q_)]))
        st.assume(forall([i_, q_], z3.Implies(z3.And(row(i_), NV(i_) <= q_, q_ < NV(i_ + 1)), vr(q_) == i_), [(s.R(i_), vr(q_))]))
        rw = s.rw = z3.Function("rw", I, I)     # stored row of a stored position
        st.assume(forall(q_, z3.Implies(z3.And(0 <= q_, q_ < s.nz), z3.And(0 <= rw(q_), rw(q_) < n, P[rw(q_)] <= q_, q_ < P[rw(q_) + 1])), [rw(q_)]))
        st.assume(forall([i_, q_], z3.Implies(z3.And(row(i_), P[p[i_]] <= q_, q_ < P[p[i_] + 1]), rw(q_) == p[i_]), [(s.R(i_), rw(q_))]))
        s.key = lambda u: qi[X[pos(u)]]; s.taken = lambda u: z3.And(inu(u), s.key(u) < m)
        C = s.C = Count(ex, st, NV(n), m, s.key, s.taken)
        s.templates = s.tmpl()
    def tmpl(s):
        C, V, k, P, NV, p, m = s.C, s.A.V, s.m, s.A.P, s.NV, s.p, s.m; cin = z3.And(0 <= c_, c_ < k); U = lambda i, q: NV(i) + q - P[p[i]]
        nv = lambda r: s.sav(s.pos(r), p[s.vr(r)], s.A.Ix[s.pos(r)])
        L = []
        for nm, h, f in (("", "oi", U), ("P", "k", lambda i: NV(i))):
            L += [T("hist" + nm, h + "W", lambda v, *a, f=f: forall(c_, z3.Implies(z3.And(1 <= c_, c_ <= k), a[-1].content[c_] == C.cnt(c_ - 1, f(*a[:-1]))), [a[-1].content[c_]])),
                  T("curr" + nm, h + "W", lambda v, *a, f=f: forall(c_, z3.Implies(cin, a[-1].content[c_] == C.S(c_) + C.cnt(c_, f(*a[:-1]))), [a[-1].content[c_]])),
                  T("idx" + nm, h + "J", lambda v, *a, f=f: forall(r_, z3.Implies(z3.And(r_ < f(*a[:-1]), s.taken(r_)), a[-1].content[C.D(r_)] == s.vr(r_) - m), [C.D(r_)])),
                  T("val" + nm, h + "F", lambda v, *a, f=f: forall(r_, z3.Implies(z3.And(r_ < f(*a[:-1]), s.taken(r_)), a[-1].content[C.D(r_)] == nv(r_)), [C.D(r_)]))]
        return L + [T("zero", "W", lambda v, b: b.content[0] == 0),
                T("accL", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= q), b.content[c_] == C.S(c_)), [b.content[c_]])),
                T("accR", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(q < c_, c_ <= k), b.content[c_] == C.cnt(c_ - 1, s.len_)), [b.content[c_]])),
                T("last", "W", lambda v, b: b.content[k] == C.S(k)),
                T("pr", "oi", lambda v, i, q: z3.And(P[p[i]] <= q, q <= P[p[i] + 1])),
                T("shL", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ < i), b.content[c_] == C.S(c_)), [b.content[c_]])),
                T("shR", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(i <= c_, c_ < k), b.content[c_] == C.S(c_) + C.cnt(c_, s.len_)), [b.content[c_]])),
                T("tmp", "ki", lambda v, i, t: t == C.S(i))]
    def unfold(s, ex, st, k):
        n, m, P, p = s.n, s.m, s.A.P, s.p
        row = z3.And(m <= k, k < n)
        st.assume(z3.Implies(row, s.NV(k + 1) == s.NV(k) + P[p[k] + 1] - P[p[k]])); trig(st, s.NV(k), s.NV(k + 1), s.R(k), p[k], P[p[k]], P[p[k] + 1])
        s.C.unfold(ex, st, k - 1); st.assume(z3.Implies(s.C.ink(k), s.C.S(k + 1) == s.C.S(k) + s.C.cnt(k, s.len_)))
        u = s.NV(s.pi[s.rw(k)]) + k - P[s.rw(k)]; s.C.unfold(ex, st, u); trig(st, s.rw(k), s.pi[s.rw(k)], s.vr(u), s.R(s.pi[s.rw(k)]))
    def bounds(s, ex, st): return dict(Sat.bounds(s, ex, st), nv=s.NV(s.n))
    def ensure(s, ex, st, tag, a):
        C, n, m, P, X, V = s.C, s.n, s.m, s.A.P, s.A.Ix, s.A.V
        ex.prove(st, z3.And(zi(a[0]) == n - m, zi(a[1]) == m), "post: the block has the stated dimensions")
        ex.prove(st, zi(a[3]) == m + 1, "post: length of the start array"); trig(st, C.S(m)); s.frame(ex, st)
        O = st.regs[a[2].reg].content
        ex.prove(st, forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= m), O[c_] == C.S(c_))), "post: the start array counts the entries of the block")
        if not (isinstance(a[4], Ptr) and a[4].reg): ex.prove(st, C.tot(s.len_) == 0, "post: without entry arrays the block is empty"); return
        ex.prove(st, z3.And(zi(a[5]) == C.tot(s.len_), zi(a[7]) == C.tot(s.len_)), "post: exactly the entries of the block are stored")
        Xo, Vo = st.regs[a[4].reg].content, st.regs[a[6].reg].content
        i, w = fint("i"), fint("w"); st.assume(z3.And(m <= i, i < n, P[s.p[i]] <= w, w < P[s.p[i] + 1], s.qi[X[w]] < m)); s.unfold(ex, st, i)
        u = fint("u"); st.assume(u == s.NV(i) + w - P[s.p[i]]); trig(st, s.vr(u), X[w], s.qi[X[w]])
        ex.prove(st, z3.And(s.taken(u), s.pos(u) == w, s.vr(u) == i), "post: every entry of the block is numbered")
        st.assume(z3.And(s.taken(u), s.pos(u) == w, s.vr(u) == i)); c = s.qi[X[w]]; trig(st, C.D(u), C.S(c), C.S(c + 1)); s.C.unfold(ex, st, c)
        ex.prove(st, z3.And(O[c] <= C.D(u), C.D(u) < O[c + 1]), "post: every entry lands in its permuted column")
        ex.prove(st, Xo[C.D(u)] == i - m, "post: every entry has its permuted row"); ex.prove(st, Vo[C.D(u)] == s.sav(w, s.p[i], X[w]), "post: every entry has its scaled value")
        z = fint("z"); st.assume(z3.And(s.taken(z), z != u)); trig(st, C.D(z)); ex.prove(st, C.D(z) != C.D(u), "post: no entry is overwritten")
TASKS = [Diag]
