"""P02: y = A x and y = A^H x for compressed storage.

Ghost functions (defined by their recurrences, instantiated at loop positions):
  D(t,k)  = sum over stored entries P[t/E] <= l < k of row t/E of the contribution to component t%E   (gather form)
  S(k,t)  = sum over stored entries l < k with index t/E of the contribution to component t%E          (scatter form)
Flat component index t: for `rhs` right-hand sides and `vc` reals per value, E = rhs*vc and entry (row r, rhs j, part c) is r*E+j*vc+c.
"""
import re
from .common import *
t_ = z3.Int("t"); BIGD = 1 << 31

class MatVec(Task):
    driver = "matvec.cpp"; must_cover = (1,); mulf = True
    partial = False; swap = False; vc = 1; rhs = 1; scatter = False; cjg = False; plo = None
    def setup(s, ex, st):
        E = s.E = s.vc * s.rhs
        s.ratios = tuple(sorted(set(x for x in (s.vc, s.rhs, E) if x > 1)))
        m = ex.int_(st, "m", 0, BIGD); n = ex.int_(st, "n", 0, BIGD)
        s.maj, s.mnr = (n, m) if s.swap else (m, n)
        A = s.A = Comp(ex, st, "A", s.maj, s.mnr, vc=s.vc)
        if s.scatter: s.nx, s.ny = s.maj, s.mnr
        else: s.nx, s.ny = s.mnr, s.maj
        s.x = ex.region(st, "x", "double", E * s.nx, writable=False); s.X = s.x.content
        s.y = ex.region(st, "y", "double", E * s.ny); s.Y0 = s.y.content
        s.D = z3.Function("D", I, I, R); s.S = z3.Function("S", I, I, R)
        s.TG = z3.Function("TG", I, R)    # TG(t) = D(t, P[t/E+1]) : the exact sum
        s.lo, s.hi = 0, s.ny
        base = [m, n, ex.ptr(A.ptr), ex.ptr(A.ind), ex.ptr(A.val), ex.ptr(s.x)]
        if s.partial:
            a = ex.int_(st, "istart", 0, BIGD); l = ex.int_(st, "len", 0, BIGD); st.assume(a + l <= m)
            s.lo, s.hi = a, a + l
            base += [a, l]
        P = A.P
        Yc = lambda Y, t: Y.content[t]
        if not s.scatter:
            done = lambda Y, i: forall(t_, z3.Implies(z3.And(E * s.lo <= t_, t_ < E * i), Yc(Y, t_) == s.TG(t_)), [Yc(Y, t_)])
            s.templates = [
                T("rows_done", "kF", lambda v, i, Y: done(Y, i)),
                T("rows_done_p", "kF", lambda v, i, Y: forall(t_, z3.Implies(z3.And(E * s.plo <= t_, t_ < E * i), Yc(Y, t_) == s.TG(t_)), [Yc(Y, t_)]), lambda *a: s.plo is not None),
                T("rows_todo_p", "kF", lambda v, i, Y: forall(t_, z3.Implies(z3.Or(t_ < E * s.plo, t_ >= E * i), Yc(Y, t_) == s.Y0[t_]), [Yc(Y, t_)]), lambda *a: s.plo is not None),
                T("rows_todo", "kF", lambda v, i, Y: forall(t_, z3.Implies(z3.Or(t_ < E * s.lo, t_ >= E * i), Yc(Y, t_) == s.Y0[t_]), [Yc(Y, t_)])),
                T("acc_rng", "oi", lambda v, i, k: z3.And(P[i] <= k, k <= P[i + 1])),
                T("mem_done", "oF", lambda v, i, Y: done(Y, i)),
                T("mem_todo", "oF", lambda v, i, Y: forall(t_, z3.Implies(z3.Or(t_ < E * s.lo, t_ >= E * i + E), Yc(Y, t_) == s.Y0[t_]), [Yc(Y, t_)])),
            ]
            for q in range(E):
                s.templates += [T("acc%d" % q, "oif", lambda v, i, k, t, q=q: t == s.D(E * i + q, k)),
                                T("acco%d" % q, "oif", lambda v, i, k, t, q=q: t == s.D(E * i + q, P[i] + k)),
                                T("accm%d" % q, "oiF", lambda v, i, k, Y, q=q: Yc(Y, E * i + q) == s.D(E * i + q, k))]
            s.templates += [T("accA", "oiF", lambda v, i, k, B: z3.And(*[B.content[q] == s.D(E * i + q, k) for q in range(E)]))]
        else:
            st.assume(forall(t_, s.S(0, t_) == 0, [s.S(0, t_)]))
            s.templates = [
                T("sc", "kF", lambda v, k, Y: forall(t_, z3.Implies(z3.And(0 <= t_, t_ < E * s.ny), Yc(Y, t_) == s.S(k, t_)), [Yc(Y, t_)])),
                T("scP", "kF", lambda v, k, Y: forall(t_, z3.Implies(z3.And(0 <= t_, t_ < E * s.ny), Yc(Y, t_) == s.S(P[k], t_)), [Yc(Y, t_)])),
                T("scO", "okF", lambda v, i, k, Y: forall(t_, z3.Implies(z3.And(0 <= t_, t_ < E * s.ny), Yc(Y, t_) == s.S(P[i] + k, t_)), [Yc(Y, t_)])),
                T("acc_rng", "oi", lambda v, i, k: z3.And(P[i] <= k, k <= P[i + 1])),
            ]
        return base + [ex.ptr(s.y)]
    def bounds(s, ex, st): return {"hi": zi(s.hi), "lo": zi(s.lo), "maj": zi(s.maj), "nnz": s.A.nnz}
    def term(s, k, xr):
        """contributions of entry k (one per component) when the input row is xr"""
        A, X = s.A, s.X; out = []
        for j in range(s.rhs):
            if s.vc == 1: out.append(mulf(A.V[k], X[s.E * xr + j]))
            else:
                a, b = A.V[2 * k], A.V[2 * k + 1]
                if s.cjg: b = -b
                c, d = X[s.E * xr + 2 * j], X[s.E * xr + 2 * j + 1]
                out += [mulf(a, c) - mulf(b, d), mulf(a, d) + mulf(b, c)]
        return out
    def unfold(s, ex, st, x):
        E, A = s.E, s.A
        for q in range(E):
            if not s.scatter:
                st.assume(s.D(E * x + q, A.P[x]) == 0)
                st.assume(s.TG(E * x + q) == s.D(E * x + q, A.P[x + 1]))
        rows = [l.vals[nm] for l in st.loops for nm in ex.int_vars(l.vals) if isz(l.vals[nm])]
        for i in rows:
            for k in (x, A.P[i] + x):
                g = z3.And(A.P[i] <= k, k < A.P[i + 1], 0 <= i, i < s.maj)
                if s.scatter:
                    tm = s.term(k, i); c = A.Ix[k]
                    st.assume(z3.Implies(g, forall(t_, z3.Implies(z3.Or(t_ < E * c, t_ >= E * c + E), s.S(k + 1, t_) == s.S(k, t_)), [s.S(k + 1, t_)])))
                    for q in range(E): st.assume(z3.Implies(g, s.S(k + 1, E * c + q) == s.S(k, E * c + q) + tm[q]))
                else:
                    tm = s.term(k, A.Ix[k])
                    for q in range(E): st.assume(z3.Implies(g, s.D(E * i + q, k + 1) == s.D(E * i + q, k) + tm[q]))
    def ensure(s, ex, st, tag, args):
        Y = st.regs[s.y.id].content; E = s.E
        if s.scatter:
            ex.prove(st, forall(t_, z3.Implies(z3.And(0 <= t_, t_ < E * s.ny), Y[t_] == s.S(s.A.nnz, t_))), "post: every output entry is the exact sum over the stored entries")
            return
        ex.prove(st, forall(t_, z3.Implies(z3.And(E * s.lo <= t_, t_ < E * s.hi), Y[t_] == s.TG(t_))), "post: every requested entry is the exact row sum")
        ex.prove(st, forall(t_, z3.Implies(z3.And(0 <= t_, t_ < E * s.ny, z3.Or(t_ < E * s.lo, t_ >= E * s.hi)), Y[t_] == s.Y0[t_])), "post: entries outside the range untouched")

class MtMatVec(MatVec):
    """threaded product, seen from one thread t of T: get_nthreads / get_thread / uniform_partition are replaced by their
    contracts; the code between the pragmas is the real one. Rows of the thread's part are exact, other rows untouched."""
    def setup(s, ex, st):
        s.contracts = [(re.compile(r"^hif::mt::get_nthreads\("), s.c_nthreads), (re.compile(r"^hif::mt::get_thread\("), s.c_thread),
                       (re.compile(r"hif::mt::uniform_partition\("), s.c_part)]
        s.T = ex.int_(st, "T", 1, 1 << 16); s.th = ex.int_(st, "thr", 0); st.assume(s.th < s.T)
        s.plo = ex.int_(st, "plo", 0); s.phi = ex.int_(st, "phi", 0)
        a = super().setup(ex, st)
        st.assume(z3.And(s.plo <= s.phi, s.phi <= s.maj))
        return a
    def c_nthreads(s, ex, st, ins, v): return s.T
    def c_thread(s, ex, st, ins, v): return s.th
    def c_part(s, ex, st, ins, v):
        ex.flush(st)
        ex.prove(st, z3.And(zi(v[0]) == s.maj, zi(v[1]) == s.T, zi(v[2]) == s.th), "uniform_partition called with (rows, threads, this thread)")
        st.ghost["par"] = True
        return [s.plo, s.phi]
    def bounds(s, ex, st): return {"hi": zi(s.phi), "lo": zi(s.plo), "maj": zi(s.maj), "nnz": s.A.nnz}
    def ensure(s, ex, st, tag, args):
        Y = st.regs[s.y.id].content; E = s.E
        if not st.ghost.get("par"): return super().ensure(ex, st, tag, args)
        ex.prove(st, forall(t_, z3.Implies(z3.And(E * s.plo <= t_, t_ < E * s.phi), Y[t_] == s.TG(t_))), "post: every row of this thread's part is the exact row sum")
        ex.prove(st, forall(t_, z3.Implies(z3.And(0 <= t_, t_ < E * s.ny, z3.Or(t_ < E * s.plo, t_ >= E * s.phi)), Y[t_] == s.Y0[t_])), "post: rows of other threads untouched (no race)")

class Partition(Task):
    """uniform_partition(n,threads,t): consecutive ranges, covering [0,n)"""
    name = "uniform_partition"; fn = "drv_partition"; driver = "matvec.cpp"; must_cover = (1,)
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); T_ = s.T = ex.int_(st, "threads", 1, 1 << 16); t = s.t = ex.int_(st, "thr", 0)
        st.assume(t + 1 < T_)
        s.o = ex.region(st, "out", "i64", 4)
        return [n, T_, t, ex.ptr(s.o)]
    def on_div(s, ex, st, a, b, q, r):
        ghost = st.ghost["q"] = list(st.ghost.get("q", ()))
        ghost.append((q, r))
        x, y, z = z3.Ints("lx ly lz")
        use = ex.lemma(st, "product monotone", [x, y, z], z3.And(x >= 0, 0 <= y, y <= z), z3.And(x * y >= 0, x * y <= x * z))
        use(q, s.t, s.T); use(q, s.t + 1, s.T)
    def ensure(s, ex, st, tag, args):
        O = st.regs[s.o.id].content
        q, r = st.ghost["q"][0]
        ex.prove(st, z3.And(O[1] == O[2], O[0] <= O[1], O[2] <= O[3], 0 <= O[0]), "post: consecutive threads get adjacent ranges")
        ex.prove(st, z3.Implies(s.t == 0, O[0] == 0), "post: first thread starts at 0")
        ex.prove(st, z3.Implies(s.t + 2 == s.T, O[3] == s.n), "post: last thread ends at n")

def mk(cls, nm, fn_, **kw):
    return type(nm, (cls,), dict(name=nm, fn=fn_, **kw))
TASKS = [mk(MatVec, "crs_nt_range", "drv_crs_nt", partial=True), mk(MatVec, "crs_mrhs_nt_range", "drv_crs_mrhs_nt", partial=True, rhs=2), Partition]
for pre, vc, rhs in (("d", 1, 1), ("z", 2, 1), ("d2", 1, 2), ("z2", 2, 2)):
    for cs in ("crs", "ccs"):
        for op in ("nt", "t"):
            sw = cs == "ccs"
            TASKS.append(mk(MatVec, "%s_%s_%s" % (pre, cs, op), "drv_%s_%s_%s" % (pre, cs, op), vc=vc, rhs=rhs, swap=sw, scatter=(cs == "crs") == (op == "t"), cjg=op == "t"))
for f, r in (("nt", 1), ("nt_low", 1), ("mrhs", 2), ("mrhs_low", 2)):
    TASKS.append(mk(MatVec, "mt_ccs_" + f, "drv_mt_ccs_" + f, swap=True, scatter=True, rhs=r))
    TASKS.append(mk(MtMatVec, "mt_crs_" + f, "drv_mt_crs_" + f, rhs=r))
