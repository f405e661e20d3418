"""P04: splits, dual splits, leading blocks and diagonal scaling of compressed matrices.

Ghosts:  S(i)   position in compressed row i where the boundary m is reached (all smaller positions have index < m, all later ones >= m)
         B,E    the kept positions of row i are [B(i),E(i))  (first part: [P[i],S(i)), second part: [S(i),P[i+1]))
         N(i)   number of kept positions in rows before i;  dst(w) = N(row(w)) + w - B(row(w))
"""
from .common import *
from .count import *
BIGD = (1 << 31) - 1
i_, j_, w_ = z3.Int("i"), z3.Int("j"), z3.Int("w")
class Blk(Task):
    driver = "blocks.cpp"; must_cover = (1,); second = False; rows = True; start = False; lead = False; dual = False; scale = None
    def setup(s, ex, st):
        nr = s.nr = ex.int_(st, "nr", 0, BIGD); nc = s.nc = ex.int_(st, "nc", 0, BIGD)
        s.maj, s.mnr = (nr, nc) if s.rows else (nc, nr)
        A = s.A = Comp(ex, st, "A", s.maj, s.mnr, writable=bool(s.scale)); P, X = A.P, A.Ix; nz = s.nz = A.nnz
        st.assume(z3.Implies(nz > 0, z3.And(s.maj >= 1, s.mnr >= 1)))
        s.row = z3.Function("row", I, I)
        st.assume(forall(q_, z3.Implies(z3.And(0 <= q_, q_ < nz), z3.And(0 <= s.row(q_), s.row(q_) < s.maj, P[s.row(q_)] <= q_, q_ < P[s.row(q_) + 1])), [s.row(q_)]))
        S = s.S = z3.Function("Sp", I, I)
        st.assume(forall([q_, c_], z3.Implies(z3.And(0 <= c_, c_ < s.maj, P[c_] <= q_, q_ < P[c_ + 1]), s.row(q_) == c_), [(S(c_), s.row(q_))]))   # S(c) marks the rows looked at
        args = [nr, nc, ex.ptr(A.ptr), ex.ptr(A.ind), ex.ptr(A.val)]
        if s.scale:
            d = s.d = ex.region(st, "s", "double", nr if s.scale == "left" else nc, writable=False); V0 = A.V
            f = lambda q: d.content[s.row(q) if (s.scale == "left") == s.rows else X[q]]
            s.new = lambda q: mulf(V0[q], f(q))
            s.templates = [T("dn", "iF", lambda v, k, b: forall(q_, z3.Implies(z3.And(0 <= q_, q_ < k), b.content[q_] == s.new(q_)), [b.content[q_]])),
                           T("td", "iF", lambda v, k, b: forall(q_, z3.Implies(z3.And(k <= q_, q_ < nz), b.content[q_] == V0[q_]), [b.content[q_]])),
                           T("dnP", "kF", lambda v, k, b: forall(q_, z3.Implies(z3.And(0 <= q_, q_ < P[k]), b.content[q_] == s.new(q_)), [b.content[q_]])),
                           T("tdP", "kF", lambda v, k, b: forall(q_, z3.Implies(z3.And(P[k] <= q_, q_ < nz), b.content[q_] == V0[q_]), [b.content[q_]])),
                           T("dnP1", "kF", lambda v, k, b: forall(q_, z3.Implies(z3.And(0 <= q_, q_ < P[k - 1]), b.content[q_] == s.new(q_)), [b.content[q_]])),
                           T("tdP1", "kF", lambda v, k, b: forall(q_, z3.Implies(z3.And(P[k - 1] <= q_, q_ < nz), b.content[q_] == V0[q_]), [b.content[q_]])),
                           T("pr", "oi", lambda v, i, q: z3.And(P[i] <= q, q <= P[i + 1])), T("pr1", "oi", lambda v, i, q: z3.And(P[i - 1] <= q, q <= P[i]))]
            return args + [ex.ptr(d)]
        st.assume(forall([i_, q_, r_], z3.Implies(z3.And(0 <= i_, i_ < s.maj, P[i_] <= q_, q_ < r_, r_ < P[i_ + 1]), X[q_] < X[r_]), [(S(i_), X[q_], X[r_])]))
        m = s.m = ex.int_(st, "m", 0, BIGD); st.assume(m <= s.mnr)
        if s.lead: st.assume(m <= s.maj)
        M = s.M = m if s.lead else s.maj
        N = s.N = z3.Function("Np", I, I); dst = s.dst = z3.Function("dst", I, I)
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.maj), z3.And(P[i_] <= S(i_), S(i_) <= P[i_ + 1])), [S(i_)]))
        st.assume(forall([i_, q_], z3.Implies(z3.And(0 <= i_, i_ < s.maj, P[i_] <= q_, q_ < P[i_ + 1]), (X[q_] < m) == (q_ < S(i_))), [(S(i_), X[q_])]))
        s.B = (lambda i: S(i)) if s.second else (lambda i: P[i])
        s.E = (lambda i: P[i + 1]) if s.second else (lambda i: S(i))
        s.kept = lambda q: z3.And(0 <= q, q < nz, s.row(q) < M, (q >= S(s.row(q))) if s.second else (q < S(s.row(q))))
        if s.start:
            b = s.stt = ex.region(st, "st", "i64", s.maj, writable=False); st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.maj), b.content[i_] == S(i_)), [b.content[i_]]))
        x, y, z, u = z3.Ints("x y z u")
        if s.dual:
            s.nk = (s.mnr - m) if s.second else m; off = m if s.second else 0
            C = s.C = Count(ex, st, nz, s.nk, lambda q: X[q] - off, s.kept)
            ex.valid("counting: positions that are not taken do not count (induction step)", [x == y, z == y], z == x)
            a, b = ((lambda i: P[i]), (lambda i: S(i))) if s.second else ((lambda i: S(i)), (lambda i: P[i + 1]))
            st.assume(forall([c_, i_], z3.Implies(z3.And(0 <= i_, i_ < s.maj), C.cnt(c_, a(i_)) == C.cnt(c_, b(i_))), [C.cnt(c_, b(i_)) if s.second else (C.cnt(c_, S(i_)))]))
            s.templates = s.dual_tmpl()
        else:
            st.assume(N(0) == 0)
            ex.valid("prefix sums of kept positions are monotone and bounded by the start array (induction step)", [0 <= x, x <= y, u >= 0, u <= z], z3.And(x <= x + u, x + u <= y + z, 0 <= x + u))
            st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ <= j_, j_ <= M), N(i_) <= N(j_)), [(N(i_), N(j_))]))
            st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ <= M), z3.And(0 <= N(i_), N(i_) <= P[i_], N(i_) <= N(M))), [N(i_)]))
            st.assume(forall(q_, z3.Implies(s.kept(q_), z3.And(dst(q_) == N(s.row(q_)) + q_ - s.B(s.row(q_)), N(s.row(q_)) <= dst(q_), dst(q_) < N(s.row(q_) + 1), N(s.row(q_) + 1) == N(s.row(q_)) + s.E(s.row(q_)) - s.B(s.row(q_)))), [dst(q_)]))
            src = s.src = z3.Function("srcp", I, I)
            ex.valid("every output position belongs to a kept position (induction step over rows)", [0 <= x, x < y + u, u >= 0, z3.Not(x < y)], z3.And(0 <= x - y, x - y < u))
            st.assume(forall(q_, z3.Implies(z3.And(0 <= q_, q_ < N(M)), z3.And(s.kept(src(q_)), dst(src(q_)) == q_)), [src(q_)]))
            s.templates = s.split_tmpl()
        return args + [m] + ([ex.ptr(s.stt)] if s.start else [])
    def split_tmpl(s):
        N, S, P, X, V, M = s.N, s.S, s.A.P, s.A.Ix, s.A.V, s.M; off = s.m if s.second else 0
        return [T("sum", "kk", lambda v, i, n: n == N(i)),
                T("pL", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= i), b.content[c_] == N(c_)), [b.content[c_]])),
                T("pS", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(i < c_, c_ <= M), b.content[c_] == S(c_ - 1)), [b.content[c_]])),
                T("pSd", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(1 <= c_, c_ <= i), b.content[c_] == S(c_ - 1)), [b.content[c_]])),
                T("p0", "W", lambda v, b: b.content[0] == 0),
                T("idx", "kJ", lambda v, i, b: forall(w_, z3.Implies(z3.And(s.kept(w_), s.row(w_) < i), b.content[s.dst(w_)] == X[w_] - off), [s.dst(w_)])),
                T("val", "kF", lambda v, i, b: forall(w_, z3.Implies(z3.And(s.kept(w_), s.row(w_) < i), b.content[s.dst(w_)] == V[w_]), [s.dst(w_)])),
                T("sh1", "oiJ", lambda v, i, q, b: forall(w_, z3.Implies(z3.And(s.kept(w_), s.dst(w_) < q), b.content[s.dst(w_)] == X[w_] - off), [s.dst(w_)])),
                T("sh2", "oiJ", lambda v, i, q, b: forall(w_, z3.Implies(z3.And(s.kept(w_), s.row(w_) == i, q <= s.dst(w_)), b.content[s.dst(w_)] == X[w_]), [s.dst(w_)])),
                T("pos", "ki", lambda v, i, q: q == N(i)), T("pr", "oi", lambda v, i, q: z3.And(N(i) <= q, q <= N(i + 1)))]
    def dual_tmpl(s):
        C, V, k, nz, P, S = s.C, s.A.V, s.nk, s.nz, s.A.P, s.S; cin = z3.And(0 <= c_, c_ < k)
        return [T("zero", "W", lambda v, b: b.content[0] == 0),
                T("start", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ < i), b.content[c_] == S(c_)), [b.content[c_]])),
                T("hist", "iW", lambda v, q, b: forall(c_, z3.Implies(z3.And(1 <= c_, c_ <= k), b.content[c_] == C.cnt(c_ - 1, q)), [b.content[c_]])),
                T("histP", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(1 <= c_, c_ <= k), b.content[c_] == C.cnt(c_ - 1, P[i])), [b.content[c_]])),
                T("accL", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= q), b.content[c_] == C.S(c_)), [b.content[c_]])),
                T("accR", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(q < c_, c_ <= k), b.content[c_] == C.cnt(c_ - 1, nz)), [b.content[c_]])),
                T("curr", "iW", lambda v, q, b: forall(c_, z3.Implies(cin, b.content[c_] == C.S(c_) + C.cnt(c_, q)), [b.content[c_]])),
                T("currP", "kW", lambda v, i, b: forall(c_, z3.Implies(cin, b.content[c_] == C.S(c_) + C.cnt(c_, P[i])), [b.content[c_]])),
                T("last", "W", lambda v, b: b.content[k] == C.S(k)),
                T("idx", "iJ", lambda v, q, b: forall(r_, z3.Implies(z3.And(r_ < q, s.kept(r_)), b.content[C.D(r_)] == s.row(r_)), [C.D(r_)])),
                T("val", "iF", lambda v, q, b: forall(r_, z3.Implies(z3.And(r_ < q, s.kept(r_)), b.content[C.D(r_)] == V[r_]), [C.D(r_)])),
                T("idxP", "kJ", lambda v, i, b: forall(r_, z3.Implies(z3.And(r_ < P[i], s.kept(r_)), b.content[C.D(r_)] == s.row(r_)), [C.D(r_)])),
                T("valP", "kF", lambda v, i, b: forall(r_, z3.Implies(z3.And(r_ < P[i], s.kept(r_)), b.content[C.D(r_)] == V[r_]), [C.D(r_)])),
                T("pr", "oi", lambda v, i, q: z3.And(s.B(i) <= q, q <= s.E(i))),
                T("shL", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ < i), b.content[c_] == C.S(c_)), [b.content[c_]])),
                T("shR", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(i <= c_, c_ < k), b.content[c_] == C.S(c_) + C.cnt(c_, nz)), [b.content[c_]])),
                T("tmp", "ki", lambda v, i, t: t == C.S(i))]
    def bounds(s, ex, st):
        b = {"maj": s.maj, "mnr": s.mnr, "nnz": s.nz}
        if not s.scale: b["m"] = s.m
        if not s.scale and not s.dual: b["NM"] = s.N(s.M)
        if s.dual: b["nk"] = s.nk
        return b
    def unfold(s, ex, st, q):
        P = s.A.P; trig(st, s.row(q), P[q], P[q + 1])
        trig(st, s.S(q))
        if s.scale: trig(st, P[q - 1], s.S(q - 1)); return
        trig(st, s.S(q), s.A.Ix[q], s.A.Ix[s.S(q)])
        if s.dual:
            s.C.unfold(ex, st, q); s.C.unfold(ex, st, q - 1); trig(st, s.C.cnt(z3.Int("c0"), s.S(q)))
        else:
            st.assume(z3.Implies(z3.And(0 <= q, q < s.M), s.N(q + 1) == s.N(q) + s.E(q) - s.B(q))); trig(st, s.N(q), s.N(q + 1)); trig(st, s.src(q)) if s.second else None
    def ensure(s, ex, st, tag, a):
        A = s.A; P, X, V = A.P, A.Ix, A.V
        fr = ((A.ptr, P, s.maj + 1), (A.ind, X, s.nz)) + (() if s.scale else ((A.val, V, s.nz),))
        for r, c, n in fr: ex.prove(st, forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), st.regs[r.id].content[r_] == c[r_])), "frame: the source is unchanged")
        w = fint("w"); st.assume(z3.And(0 <= w, w < s.nz)); trig(st, s.row(w))
        if s.scale:
            ex.prove(st, st.regs[A.val.id].content[w] == s.new(w), "post: every value is multiplied by exactly its factor"); return
        m = s.m; off = m if s.second else 0
        if s.lead: dims = (m, m)
        else:
            kk = (s.mnr - m) if s.second else m
            dims = (s.maj, kk) if s.rows else (kk, s.maj)
        ex.prove(st, z3.And(zi(a[0]) == dims[0], zi(a[1]) == dims[1]), "post: the block has the stated dimensions")
        np_, tot = (s.nk, s.C.tot(s.nz)) if s.dual else (s.M, s.N(s.M))
        start = s.C.S if s.dual else s.N; D = s.C.D if s.dual else s.dst
        trig(st, start(np_)); ex.prove(st, zi(a[3]) == np_ + 1, "post: length of the start array")
        O = st.regs[a[2].reg].content
        ex.prove(st, forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= np_), O[c_] == start(c_))), "post: the start array counts the kept entries")
        hv = isinstance(a[4], Ptr) and a[4].reg
        if not hv:
            ex.prove(st, tot == 0, "post: without entry arrays the block is empty"); return
        ex.prove(st, z3.And(zi(a[5]) == tot, zi(a[7]) == tot), "post: exactly the kept entries are stored")
        Xo, Vo = st.regs[a[4].reg].content, st.regs[a[6].reg].content
        st.assume(s.kept(w)); trig(st, D(w)); 
        if s.dual:
            z = fint("z"); st.assume(s.kept(z)); trig(st, D(z), s.row(z), start(X[w] - off)); s.C.unfold(ex, st, X[w] - off)
            ex.prove(st, z3.And(O[X[w] - off] <= D(w), D(w) < O[X[w] - off + 1]), "post: every kept entry lands in the row/column of its rebased index")
            ex.prove(st, z3.And(Xo[D(w)] == s.row(w), Vo[D(w)] == V[w]), "post: every kept entry keeps its other index and its value")
            ex.prove(st, z3.Implies(w != z, D(w) != D(z)), "post: no entry is overwritten")
        else:
            trig(st, s.row(w), Xo[D(w)], Vo[D(w)])
            ex.prove(st, Xo[D(w)] == X[w] - off, "post: every kept entry has its rebased index")
            ex.prove(st, Vo[D(w)] == V[w], "post: every kept entry has its value")
            ex.prove(st, z3.And(O[s.row(w)] <= D(w), D(w) < O[s.row(w) + 1]), "post: every kept entry stays in its row/column")
            i, k = fint("i"), fint("k"); st.assume(z3.And(0 <= i, i < s.M)); s.unfold(ex, st, i); st.assume(z3.And(s.N(i) <= k, k < s.N(i + 1))); u = s.B(i) + k - s.N(i); trig(st, s.dst(u), s.row(u), P[i], P[i + 1])
            ex.prove(st, z3.And(s.kept(u), s.row(u) == i, s.dst(u) == k), "post: the block stores nothing else")
        st.assume(z3.Or(False, True))
        ex.prove(st, (X[w] >= m) if s.second else (X[w] < m), "post: exactly the entries on the requested side of the boundary are kept")
def mk(nm, **kw): return type("blk_" + nm, (Blk,), dict(name="blk_" + nm, fn="drv_" + nm, **kw))
TASKS = []
for st_, c in ((True, "r"), (False, "c")):
    for sec in (1, 2):
        for sv in ("", "s"):
            TASKS.append(mk("split_%s%d%s" % (c, sec, sv), rows=st_, second=sec == 2, start=bool(sv)))
            TASKS.append(mk("dual_%s%d%s" % (c, sec, sv), rows=st_, second=sec == 2, start=bool(sv), dual=True))
    TASKS.append(mk("lead_" + c, rows=st_, lead=True))
    for d in ("left", "right"): TASKS.append(mk("%s_%s" % (d, c), rows=st_, scale=d, mulf=True))
