"""P19: dense last level.  Sparse to dense conversion; the QR / symmetric / LU solves and products around LAPACK, whose routines are
represented by contracts that demand exactly the ghost vector of the stated formula and return its image."""
from .common import *
from .. import ir
BIGD = (1 << 31) - 1
r_, c_, t_, k_ = z3.Ints("r c t k"); RR = z3.RealSort()
class Conv(Task):
    """position t of the dense array holds entry (row(t), col(t)) = (t mod nr, t div nr); Cm(c) = c*nr"""
    driver = "dense.cpp"; must_cover = (1,); ccs = False
    def setup(s, ex, st):
        nr = s.nr = ex.int_(st, "nr", 0, BIGD); nc = s.nc = ex.int_(st, "nc", 0, BIGD); s.nmaj, nmin = (nc, nr) if s.ccs else (nr, nc)
        A = s.A = Comp(ex, st, "A", s.nmaj, nmin); s.nz = A.nnz; st.assume(z3.Implies(s.nz > 0, z3.And(s.nmaj >= 1, nmin >= 1)))
        Cm = s.Cm = z3.Function("Cm", I, I); s.row, s.col, s.E, s.ow = [z3.Function(f, I, I) for f in ("row", "col", "E", "owner")]; P, X, V = A.P, A.Ix, A.V
        a, b, c, d, e = z3.Ints("a b c d e")
        ex.valid("column offsets: c*nr + nr <= nc*nr (induction step)", [0 <= c, c < nc, c * nr + (nc - c - 1) * nr + nr == nc * nr, 0 <= (nc - c - 1) * nr], c * nr + nr <= nc * nr)
        st.assume(z3.And(0 <= Cm(nc), Cm(nc) < (1 << 58), Cm(0) == 0)); s.tot = Cm(nc); st.assume(z3.Implies(z3.Or(nr == 0, nc == 0), Cm(nc) == 0)); st.assume(z3.Implies(z3.And(nr > 0, nc > 0), Cm(nc) > 0))
        st.assume(forall(c_, z3.Implies(z3.And(0 <= c_, c_ < nc), z3.And(0 <= Cm(c_), Cm(c_) + nr <= Cm(nc))), [Cm(c_)]))
        inm = lambda r, c: z3.And(0 <= r, r < nr, 0 <= c, c < nc)
        at = s.at = lambda k: (X[k] + Cm(s.ow(k)) if s.ccs else s.ow(k) + Cm(X[k]))
        mk = s.mk = z3.Function("mk", I, z3.BoolSort())
        # entry k belongs to row (column) ow(k)
        st.assume(forall([r_, k_], z3.Implies(z3.And(0 <= r_, r_ < s.nmaj, P[r_] <= k_, k_ < P[r_ + 1]), s.ow(k_) == r_), [(mk(r_), X[k_])]))
        # a position is hit by at most one entry (valid matrix: strictly increasing indices; t -> (t mod nr, t div nr) is injective)
        st.assume(forall(k_, z3.Implies(z3.And(0 <= k_, k_ < s.nz), z3.And(s.E(at(k_)) == k_, 0 <= at(k_), at(k_) < s.tot)), [X[k_]]))
        st.assume(forall(t_, z3.Implies(z3.And(0 <= s.E(t_), s.E(t_) < s.nz), at(s.E(t_)) == t_), [s.E(t_)])); st.assume(forall(t_, z3.And(-1 <= s.E(t_), s.E(t_) < s.nz), [s.E(t_)]))
        F = s.fill = lambda b, k: forall(t_, z3.Implies(z3.And(0 <= t_, t_ < s.tot), b.content[t_] == z3.If(z3.And(0 <= s.E(t_), s.E(t_) < k), V[s.E(t_)], 0)), [b.content[t_]])
        s.templates = [T("fill", "iF", lambda v, k, b: F(b, k)), T("fillP", "kF", lambda v, k, b: F(b, P[k])), T("rng", "oi", lambda v, i, k: z3.And(P[i] <= k, k <= P[i + 1]))]
        return [nr, nc, ex.ptr(A.ptr), ex.ptr(A.ind), ex.ptr(A.val)]
    def muli(s, ex, st, a, b):
        if z3.simplify(zi(b)).eq(s.nr): return s.Cm(zi(a))
        if z3.simplify(zi(a)).eq(s.nr): return s.Cm(zi(b))
        return zi(a) * zi(b)
    def bounds(s, ex, st): return {"nr": s.nr, "nc": s.nc, "nnz": s.nz}
    def unfold(s, ex, st, k): trig(st, s.A.Ix[k], s.mk(k), s.A.P[k], s.A.P[k + 1])
    def ensure(s, ex, st, tag, a):
        ex.prove(st, z3.And(zi(a[0]) == s.nr, zi(a[1]) == s.nc, zi(a[3]) == s.tot), "post: dimensions")
        if isinstance(a[2], Ptr) and a[2].reg:
            D = st.regs[a[2].reg].content; w = fint("w"); V = s.A.V; st.assume(z3.And(0 <= w, w < s.nz)); trig(st, s.A.Ix[w])
            ex.prove(st, D[s.at(w)] == V[w], "post: every stored entry is at its position")
            u = fint("u"); st.assume(z3.And(0 <= u, u < s.tot)); ex.prove(st, z3.Implies(s.E(u) < 0, D[u] == 0), "post: every other position is zero")
        else: ex.prove(st, s.tot == 0, "post: no storage only for an empty matrix")
        A = s.A
        for r, c, n in ((A.ptr, A.P, s.nmaj + 1), (A.ind, A.Ix, s.nz), (A.val, A.V, s.nz)): ex.prove(st, forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), st.regs[r.id].content[r_] == c[r_])), "frame: the matrix is unchanged")
L, Tc, N_, C_, U_ = 76, 84, 78, 67, 85
class Lap(Task):
    driver = "dense.cpp"; must_cover = (1,); mulf = True; contracts = ()
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 1, BIGD); C = s.Cm = z3.Int("nn"); st.assume(z3.And(C >= 1, C < (1 << 58)))
        a = s.a = ex.region(st, "mat", "double", C, writable=False); s.tau = ex.region(st, "tau", "double", s.taulen(n), writable=False); s.jp = ex.region(st, "jp", "i32", n, writable=False); j = s.j = s.jp.content
        s.jinv = z3.Function("jinv", I, I); b = s.base
        s.setj(ex, st)
        rk = s.rank = s.mkrank(ex, st); s.x = ex.region(st, "x", "double", n); r = s.r = ex.int_(st, "req", 0, 1 << 60); wn = s.wn = ex.int_(st, "wn", 0, 1 << 58); s.w = ex.region(st, "w", "double", wn)
        st.assume(wn >= n); s.pre(ex, st); s.k = z3.If(r == 0, rk, z3.If(r > n, n, r)) if z3.is_int(zi(rk) if not z3.is_bool(rk) else rk) and not z3.is_bool(rk) else None
        s.g = {x: z3.Function("g_" + x, I, RR) for x in "1234"}; B = s.x.content; s.b = lambda i: B[i]
        s.form(ex, st)
        s.templates = []
        for nm, f in s.V.items():
            for rn, lo, hi in (("[0,k)", 0, None), ):
                s.templates.append(T(nm + "[0,k)", "kF", lambda v, k, b, f=f: s.rng(b.content, f, 0, k)))
                s.templates.append(T(nm + "[k,n)", "kF", lambda v, k, b, f=f: s.rng(b.content, f, k, n)))
                s.templates.append(T(nm + "full", "F", lambda v, b, f=f: s.rng(b.content, f, 0, n)))
                s.templates.append(T(nm + "lead", "F", lambda v, b, f=f: s.rng(b.content, f, 0, s.k)))
                s.templates.append(T(nm + "perm", "kF", lambda v, k, b, f=f: forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n, 0 <= s.jinv(r_), s.jinv(r_) < k), b.content[r_] == f(r_)), [b.content[r_]])))
                s.templates.append(T(nm + "rest", "kF", lambda v, k, b, f=f: forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n, s.jinv(r_) >= k), b.content[r_] == f(r_)), [b.content[r_]])))
        return [n, ex.ptr(a), ex.ptr(s.tau), ex.ptr(s.jp), rk, ex.ptr(s.x), r, ex.ptr(s.w), wn]
    base = 1
    def taulen(s, n): return n
    def setj(s, ex, st):
        j, b, n = s.j, s.base, s.n
        st.assume(forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), z3.And(b <= j[r_], j[r_] < n + b, s.jinv(j[r_] - b) == r_)), [j[r_]]))
        st.assume(forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), z3.And(0 <= s.jinv(r_), s.jinv(r_) < n, j[s.jinv(r_)] == r_ + b)), [s.jinv(r_)]))
    def mkrank(s, ex, st): k = ex.int_(st, "rank", 0, BIGD); st.assume(k <= s.n); return k
    def pre(s, ex, st): pass
    def muli(s, ex, st, a, b):
        if z3.simplify(zi(a)).eq(s.n) and z3.simplify(zi(b)).eq(s.n): return s.Cm
        return zi(a) * zi(b)
    def bounds(s, ex, st): return {"n": s.n, "rank": s.k if s.k is not None else s.n}
    def rng(s, A, f, lo, hi): return forall(r_, z3.Implies(z3.And(lo <= r_, r_ < hi), A[r_] == f(r_)), [A[r_]])
    def unfold(s, ex, st, k): trig(st, s.j[k], s.jinv(k))
    # --- LAPACK
    def rd(s, ex, st, p, ty): return ex.load(st, p, ty)
    def vec(s, ex, st, p): r = st.regs[p.reg]; return r, z3.simplify(zi(ex.index(st, r, p, ir.F64)))
    def wr(s, ex, st, p, f, lo, hi):
        D = st.regs[p.reg]; ex.range_ok(st, D, zi(lo), zi(hi) - zi(lo), "write"); ex.wrote(st, D); D = st.regs[p.reg].copy(); old = D.content; new = z3.Const(fresh_name(D.name + "_la"), old.sort()); D.content = new; st.regs[D.id] = D
        st.assume(forall(r_, new[r_] == z3.If(z3.And(lo <= r_, r_ < hi), f(r_), old[r_]), [new[r_]]))
    def mats(s, ex, st, nm, a, tau=None):
        r, o = s.vec(ex, st, a); ex.prove(st, z3.And(z3.BoolVal(r.id == s.a.id), o == 0), "pre %s: the stored factorization" % nm)
        if tau is not None: r, o = s.vec(ex, st, tau); ex.prove(st, z3.And(z3.BoolVal(r.id == s.tau.id), o == 0), "pre %s: the stored reflectors" % nm)
    def need(s, ex, st, nm, p, f, hi):
        r, o = s.vec(ex, st, p); ex.prove(st, o == 0, "pre %s: whole vector" % nm); ex.prove(st, s.rng(r.content, f, 0, hi), "pre %s: applied to the vector of the formula" % nm); return r
    def ormqr(s, ex, st, ins, v):
        ex.flush(st); I32, CH = ir.INT(32), ir.INT(8); g = lambda i, t=I32: zi(s.rd(ex, st, v[i], t)); nm = "ormqr"; lw = g(11)
        if ex.qf_check(st, lw == -1) and not ex.qf_check(st, lw != -1):
            q = z3.Real(fresh_name("lwork")); st.assume(z3.And(q >= 1, q <= (1 << 30), q == z3.ToReal(z3.ToInt(q)))); ex.store(st, v[10], ir.F64, q); ex.store(st, v[12], I32, 0); return None
        if s.qr is None: ex.prove(st, z3.BoolVal(False), "pre ormqr: not part of the formula"); return None
        tr, fin, hin, fout = s.qr
        ex.prove(st, g(0, CH) == L, "pre ormqr: from the left"); ex.prove(st, g(1, CH) == tr, "pre ormqr: transposition"); ex.prove(st, z3.And(g(2) == s.n, g(3) == 1, g(6) == s.n, g(9) == s.n), "pre ormqr: dimensions"); ex.prove(st, g(4) == s.k, "pre ormqr: number of reflectors is the rank")
        s.mats(ex, st, nm, v[5], v[7]); s.need(ex, st, nm, v[8], fin, hin); r, o = s.vec(ex, st, v[10]); ex.range_ok(st, r, o, lw, "work space"); ex.prove(st, z3.BoolVal(r.id != v[8].reg), "pre ormqr: work space is separate")
        D = st.regs[r.id]; ex.wrote(st, D); D = st.regs[r.id].copy(); D.content = z3.Const(fresh_name("work_la"), D.content.sort()); st.regs[D.id] = D
        s.wr(ex, st, v[8], fout, 0, s.n); ex.store(st, v[12], I32, 0); return None
    def tri(s, kind):
        def h(ex, st, ins, v):
            ex.flush(st); I32, CH = ir.INT(32), ir.INT(8); g = lambda i, t=I32: zi(s.rd(ex, st, v[i], t)); nm = "tr" + kind
            if s.tr is None or s.tr[0] != kind: ex.prove(st, z3.BoolVal(False), "pre %s: not part of the formula" % nm); return None
            _, tr, fin, fout = s.tr
            ex.prove(st, z3.And(g(0, CH) == U_, g(2, CH) == N_), "pre %s: the upper triangle with its diagonal" % nm); ex.prove(st, (z3.Or(g(1, CH) == C_, g(1, CH) == Tc) if tr else g(1, CH) == N_), "pre %s: transposition" % nm)
            ex.prove(st, z3.And(g(3) == s.k, g(5) == s.n, g(7) == 1), "pre %s: the leading rank block" % nm); s.mats(ex, st, nm, v[4]); s.need(ex, st, nm, v[6], fin, s.k); s.wr(ex, st, v[6], fout, 0, s.k); return None
        return h
    def gemv(s, ex, st, ins, v):
        ex.flush(st); I32, CH = ir.INT(32), ir.INT(8); g = lambda i, t=I32: zi(s.rd(ex, st, v[i], t)); f = lambda i: zr(s.rd(ex, st, v[i], ir.F64)); nm = "gemv"
        st_ = s.stage = [x for x in s.gm]; tr = g(0, CH)
        ex.prove(st, z3.And(g(1) == s.n, g(2) == s.n, g(5) == s.n, g(7) == 1, g(10) == 1), "pre gemv: dimensions"); ex.prove(st, z3.And(f(3) == 1, f(8) == 0), "pre gemv: plain product"); r, o = s.vec(ex, st, v[4]); ex.prove(st, z3.And(z3.BoolVal(r.id == s.gmat().id), o == 0), "pre gemv: the stored matrix"); rx, ox = s.vec(ex, st, v[6]); ry, oy = s.vec(ex, st, v[9]); ex.prove(st, z3.And(z3.BoolVal(rx.id != ry.id), ox == 0, oy == 0), "pre gemv: argument and result are different vectors")
        for ch, fin, fout in s.gm:
            c = tr == ch if not callable(ch) else ch(tr)
            if not ex.qf_check(st, c): continue
            ex.prove(st, c, "pre gemv: transposition"); s.need(ex, st, nm, v[6], fin, s.n); s.wr(ex, st, v[9], fout, 0, s.n); return None
        ex.prove(st, z3.BoolVal(False), "pre gemv: not part of the formula"); return None
    def gmat(s): return s.a
    def getrs(s, ex, st, ins, v):
        ex.flush(st); I32, CH = ir.INT(32), ir.INT(8); g = lambda i, t=I32: zi(s.rd(ex, st, v[i], t)); nm = "getrs"; tr = g(0, CH)
        ex.prove(st, z3.And(g(1) == s.n, g(2) == 1, g(4) == s.n, g(7) == s.n), "pre getrs: dimensions"); s.mats(ex, st, nm, v[3]); r, o = s.vec(ex, st, v[5]) if 0 else (st.regs[v[5].reg], None); ex.prove(st, z3.BoolVal(r.id == s.jp.id), "pre getrs: the stored pivots")
        ex.prove(st, z3.If(s.rank, z3.Or(tr == C_, tr == Tc), tr == N_), "pre getrs: transposition"); s.need(ex, st, nm, v[6], s.b, s.n); s.wr(ex, st, v[6], s.g["1"], 0, s.n); ex.store(st, v[8], I32, 0); return None
    qr = tr = None; gm = ()
    @property
    def contracts(s): return [("dormqr_", s.ormqr), ("dtrsv_", s.tri("sv")), ("dtrmv_", s.tri("mv")), ("dgemv_", s.gemv), ("dgetrs_", s.getrs)]
    def ensure(s, ex, st, tag, a):
        x = st.regs[s.x.id].content; w = fint("w"); st.assume(z3.And(0 <= w, w < s.n)); trig(st, x[w], s.jinv(w)); ex.prove(st, x[w] == s.out(w), "post: " + s.what)
class QrOut(Lap):
    """x = P [trans(Q)^T x](leading rank), zero elsewhere"""
    what = "the leading rank entries in pivot order, zero elsewhere"
    def fin(s): s.out = lambda i: z3.If(s.jinv(i) < s.k, s.last(s.jinv(i)), 0); s.V = dict(out=s.out, b=s.b, l=s.last)
class QrIn(Lap):
    what = "the reflectors applied to the leading rank entries in pivot order, zero-padded"
    def fin(s):
        s.pk = lambda i: z3.If(i < s.k, s.b(s.j[i] - 1), 0); s.V = dict(pk=s.pk, b=s.b); s.t2 = lambda i: z3.If(i < s.k, s.g["1"](i), 0); s.V["t2"] = s.t2
class QrSolve(QrOut):
    name = "qr_solve"; fn = "drv_qr_solve"
    def form(s, ex, st): s.qr = (Tc, s.b, s.n, s.g["1"]); s.tr = ("sv", False, s.g["1"], s.g["2"]); s.last = s.g["2"]; s.fin()
class QrMulT(QrOut):
    name = "qr_mul_t"; fn = "drv_qr_mul_t"
    def form(s, ex, st): s.qr = (Tc, s.b, s.n, s.g["1"]); s.tr = ("mv", True, s.g["1"], s.g["2"]); s.last = s.g["2"]; s.fin()
class QrSolveT(QrIn):
    name = "qr_solve_t"; fn = "drv_qr_solve_t"
    def form(s, ex, st): s.fin(); s.tr = ("sv", True, s.pk, s.g["1"]); s.qr = (N_, s.t2, s.n, s.g["2"]); s.out = s.g["2"]
class QrMul(QrIn):
    name = "qr_mul"; fn = "drv_qr_mul"
    def form(s, ex, st): s.fin(); s.tr = ("mv", False, s.pk, s.g["1"]); s.qr = (N_, s.t2, s.n, s.g["2"]); s.out = s.g["2"]
class Sy(Lap):
    base = 0; what = "eigenvectors times the scaled leading rank components, the others dropped"
    def pre(s, ex, st): st.assume(forall(r_, z3.Implies(z3.And(0 <= r_, r_ < s.n), s.tau.content[r_] != 0), [s.tau.content[r_]]))
    def form(s, ex, st):
        lam = s.tau.content; h = s.h = lambda i: z3.If(s.jinv(i) < s.k, s.sc(s.g["1"](i), lam[i]), 0); s.gm = [(lambda t: z3.Or(t == C_, t == Tc), s.b, s.g["1"]), (N_, h, s.g["2"])]; s.out = s.g["2"]; s.V = dict(h=h, y=s.g["1"], b=s.b)
class SySolve(Sy):
    name = "sy_solve"; fn = "drv_sy_solve"
    def sc(s, a, b): return mulf(a, INV(b))
class SyMul(Sy):
    name = "sy_mul"; fn = "drv_sy_mul"
    def sc(s, a, b): return mulf(a, b)
class Lu(Lap):
    what = "one LAPACK solve with the stored factors"; k = None
    def mkrank(s, ex, st): return z3.Bool("tran")
    def taulen(s, n): return s.Cm
    def setj(s, ex, st): pass
class LuSolve(Lu):
    name = "lu_solve"; fn = "drv_lu_solve"
    def form(s, ex, st): s.out = s.g["1"]; s.V = {}
class LuMul(Lu):
    name = "lu_mul"; fn = "drv_lu_mul"; what = "the product with the stored matrix"
    def gmat(s): return s.tau
    def form(s, ex, st): W = s.w.content; s.gm = [(lambda t: z3.If(s.rank, z3.Or(t == C_, t == Tc), t == N_), lambda i: W[i], s.g["1"])]; s.out = s.g["1"]; s.V = {}
TASKS = [type("DenseCrs", (Conv,), dict(name="dense_crs", fn="drv_crs")), type("DenseCcs", (Conv,), dict(name="dense_ccs", fn="drv_ccs", ccs=True)), QrSolve, QrSolveT, QrMul, QrMulT, SySolve, SyMul, LuSolve, LuMul]
