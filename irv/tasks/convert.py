"""P01: counting-sort conversion between compressed layouts and from coordinates."""
from .common import *
from .count import *
BIGD = (1 << 31) - 1
class Conv(Task):
    driver = "convert.cpp"; must_cover = (1,); whole = False; swap = False
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "nmaj", 0, BIGD); k = s.k = ex.int_(st, "nmin", 0, BIGD)
        A = s.A = Comp(ex, st, "A", n, k); P, X = A.P, A.Ix; nz = s.nz = A.nnz
        st.assume(z3.Implies(nz > 0, z3.And(n >= 1, k >= 1)))
        s.C = Count(ex, st, nz, k, lambda q: X[q])
        s.row = z3.Function("row", I, I)
        st.assume(forall(q_, z3.Implies(z3.And(0 <= q_, q_ < nz), z3.And(0 <= s.row(q_), s.row(q_) < n, P[s.row(q_)] <= q_, q_ < P[s.row(q_) + 1])), [s.row(q_)]))
        st.assume(forall([q_, c_], z3.Implies(z3.And(0 <= c_, c_ < n, P[c_] <= q_, q_ < P[c_ + 1]), s.row(q_) == c_), [(P[c_], s.row(q_))]))
        st.assume(s.C.tot(nz) == nz); ex.valid("every position is taken: tot(q) = q (induction step)", [z3.Int("a") == z3.Int("b")], z3.Int("a") + 1 == z3.Int("b") + 1)
        s.templates = s.tmpl()
        if s.whole: return [k, n, ex.ptr(A.ptr), ex.ptr(A.ind), ex.ptr(A.val)] if s.swap else [n, k, ex.ptr(A.ptr), ex.ptr(A.ind), ex.ptr(A.val)]
        s.op = ex.region(st, "op", "i64", k + 1); s.oi = ex.region(st, "oi", "i32", nz); s.ov = ex.region(st, "ov", "double", nz)
        O = s.op.content; st.assume(forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= k), O[c_] == 0), [O[c_]]))
        return [ex.ptr(A.ptr), n + 1, ex.ptr(A.ind), ex.ptr(A.val), nz, ex.ptr(s.op), k + 1, ex.ptr(s.oi), ex.ptr(s.ov)]
    def minor(s, q): return s.row(q)
    def tmpl(s):
        C, V, k, nz = s.C, s.A.V, s.k, s.nz; cin = z3.And(0 <= c_, c_ < k)
        return [T("zero", "W", lambda v, b: b.content[0] == 0),
                T("hist", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(1 <= c_, c_ <= k), b.content[c_] == C.cnt(c_ - 1, q)), [b.content[c_]])),
                T("accL", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= q), b.content[c_] == C.S(c_)), [b.content[c_]])),
                T("accR", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(q < c_, c_ <= k), b.content[c_] == C.cnt(c_ - 1, nz)), [b.content[c_]])),
                T("curr", "iW", lambda v, q, b: forall(c_, z3.Implies(cin, b.content[c_] == C.S(c_) + C.cnt(c_, q)), [b.content[c_]])),
                T("currP", "kW", lambda v, i, b: forall(c_, z3.Implies(cin, b.content[c_] == C.S(c_) + C.cnt(c_, s.A.P[i])), [b.content[c_]])),
                T("last", "W", lambda v, b: b.content[k] == C.S(k)),
                T("idx", "iJ", lambda v, q, b: forall(r_, z3.Implies(z3.And(0 <= r_, r_ < q), b.content[C.D(r_)] == s.minor(r_)), [C.D(r_)])),
                T("val", "iF", lambda v, q, b: forall(r_, z3.Implies(z3.And(0 <= r_, r_ < q), b.content[C.D(r_)] == V[r_]), [C.D(r_)])),
                T("pos", "ki", lambda v, i, q: q == s.A.P[i]), T("posr", "oi", lambda v, i, q: z3.And(s.A.P[i] <= q, q <= s.A.P[i + 1])),
                T("shL", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ < i), b.content[c_] == C.S(c_)), [b.content[c_]])),
                T("shR", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(i <= c_, c_ < k), b.content[c_] == C.S(c_) + C.cnt(c_, nz)), [b.content[c_]])),
                T("tmp", "ki", lambda v, i, t: t == C.S(i))]
    def bounds(s, ex, st): return {"nmaj": s.n, "nmin": s.k, "nnz": s.nz}
    def unfold(s, ex, st, q):
        s.C.unfold(ex, st, q); trig(st, s.row(q), s.A.P[q], s.A.P[q + 1])
        s.C.unfold(ex, st, q - 1)
    def post(s, ex, st, O, Xo, Vo):
        C = s.C; w, z = fint("w"), fint("z")
        ex.prove(st, forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= s.k), O[c_] == C.S(c_))), "post: start array counts the entries of every row/column")
        trig(st, C.S(s.k)); ex.prove(st, O[s.k] == s.nz, "post: as many entries as the source")
        st.assume(z3.And(0 <= w, w < s.nz, 0 <= z, z < s.nz)); trig(st, C.D(w), C.D(z), s.row(w), s.row(z), C.S(s.A.Ix[w])); s.C.unfold(ex, st, s.A.Ix[w])
        ex.prove(st, z3.And(O[s.A.Ix[w]] <= C.D(w), C.D(w) < O[s.A.Ix[w] + 1]), "post: every entry lands in the row/column of its index")
        ex.prove(st, z3.And(Xo[C.D(w)] == s.minor(w), Vo[C.D(w)] == s.A.V[w]), "post: every entry keeps its other index and its value")
        ex.prove(st, z3.Implies(w != z, C.D(w) != C.D(z)), "post: no entry is overwritten")
        s.ordered(ex, st, Xo, w, z)
    def ordered(s, ex, st, Xo, w, z):
        # monotone start array: later positions belong to later rows
        trig(st, s.A.P[s.row(w)], s.A.P[s.row(z)], s.A.P[s.row(w) + 1], s.A.P[s.row(z) + 1])
        ex.prove(st, z3.Implies(z3.And(s.A.Ix[w] == s.A.Ix[z], C_lt(s, w, z)), Xo[s.C.D(w)] <= Xo[s.C.D(z)]), "post: indices are non-decreasing inside every row/column")
    def ensure(s, ex, st, tag, a):
        if tag == 1: O, Xo, Vo = (st.regs[r.id].content for r in (s.op, s.oi, s.ov))
        else:
            ex.prove(st, z3.And(zi(a[0]) == (s.n if not s.swap else s.k) if False else zi(a[0]) == (s.k if s.swap else s.n), zi(a[1]) == (s.n if s.swap else s.k), zi(a[3]) == s.k + 1), "post: same dimensions")
            O = st.regs[a[2].reg].content
            ex.prove(st, z3.And(zi(a[5]) == s.nz, zi(a[7]) == s.nz), "post: as many entries as the source")
            if not (isinstance(a[4], Ptr) and a[4].reg):
                ex.prove(st, s.nz == 0, "post: without entry arrays there are no entries"); ex.prove(st, forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= s.k), O[c_] == 0)), "post: start array of a matrix without entries"); return
            Xo, Vo = st.regs[a[4].reg].content, st.regs[a[6].reg].content
        s.post(ex, st, O, Xo, Vo)
        for r, c, n in ((s.A.ptr, s.A.P, s.n + 1), (s.A.ind, s.A.Ix, s.nz), (s.A.val, s.A.V, s.nz)): ex.prove(st, forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), st.regs[r.id].content[r_] == c[r_])), "frame: the source is unchanged")
def C_lt(s, w, z): return s.C.D(w) <= s.C.D(z)
def mk(nm, fn_, **kw): return type("conv_" + nm, (Conv,), dict(name="conv_" + nm, fn="drv_" + fn_, **kw))
TASKS = [mk("kernel", "convert"), mk("ccs2crs", "ccs2crs", whole=True, swap=True, must_cover=(2,)), mk("crs2ccs", "crs2ccs", whole=True, must_cover=(2,))]
