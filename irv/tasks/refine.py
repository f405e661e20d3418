"""P11: stationary refinement.  X(k), R(k), Z(k) are the ghost iterates, residuals and corrections; the operators (preconditioner
solve, matrix product) are uninterpreted, represented by contracts that require exactly the ghost input and return the ghost output."""
from .common import *
BIGD = (1 << 31) - 1
j_, k_, r_ = z3.Ints("j k r")
RR = z3.RealSort()
class Refine(Task):
    name = "refine"; fn = "drv_refine"; driver = "refine.cpp"; must_cover = (1,)
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 1, BIGD); N = s.N = ex.int_(st, "N", 0, BIGD); s.k0 = k = ex.int_(st, "k0", 0, BIGD)
        s.b = ex.region(st, "b", "double", n, writable=False); s.x = ex.region(st, "x", "double", n); s.g = ex.region(st, "cnt", "i64", z3.IntVal(1)); st.assume(s.g.content[0] == 0)
        s.p = ex.region(st, "wp", "double", k); s.q = ex.region(st, "wq", "double", k)
        s.tran = z3.Bool("tran"); s.r = ex.int_(st, "last", 0)
        s.X, s.R, s.Z, s.AX = [z3.Function(f, I, I, RR) for f in ("X", "R", "Z", "AX")]
        B = s.b.content; inn = s.inn = lambda j: z3.And(0 <= j, j < n)
        st.assume(forall(j_, z3.Implies(inn(j_), z3.And(s.X(0, j_) == 0, s.R(0, j_) == B[j_])), [B[j_]])); st.assume(forall(j_, z3.Implies(inn(j_), s.X(0, j_) == 0), [s.X(0, j_)])); st.assume(forall(j_, z3.Implies(inn(j_), s.R(0, j_) == B[j_]), [s.R(0, j_)]))
        st.assume(forall([k_, j_], z3.Implies(z3.And(inn(j_), k_ >= 1), s.R(k_, j_) == B[j_] - s.AX(k_, j_)), [s.R(k_, j_)])); st.assume(forall([k_, j_], z3.Implies(z3.And(inn(j_), k_ >= 1), s.R(k_, j_) == B[j_] - s.AX(k_, j_)), [s.AX(k_, j_)]))
        s.templates = []
        c = lambda v: v.st.regs[s.g.id].content[0]
        V = {"X": lambda v, j: s.X(c(v), j), "Xm": lambda v, j: s.X(c(v) - 1, j), "Zm": lambda v, j: s.Z(c(v) - 1, j), "AX": lambda v, j: s.AX(c(v), j), "R": lambda v, j: s.R(c(v), j), "Xz": lambda v, j: z3.RealVal(0)}
        for nm, f in V.items():
            s.templates += [T("full" + nm, "F", lambda v, b, f=f: forall(j_, z3.Implies(inn(j_), b.content[j_] == f(v, j_)), [b.content[j_]])),
                            T("pre" + nm, "kF", lambda v, k, b, f=f: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), b.content[j_] == f(v, j_)), [b.content[j_]])),
                            T("suf" + nm, "kF", lambda v, k, b, f=f: forall(j_, z3.Implies(z3.And(k <= j_, j_ < n), b.content[j_] == f(v, j_)), [b.content[j_]]))]
        s.templates += [T("cnt", "k", lambda v, k: c(v) == k), T("cnt+1", "k", lambda v, k: c(v) == k + 1), T("cno", "o", lambda v, k: c(v) == k), T("cno1", "o", lambda v, k: c(v) == k + 1), T("ctr", "k", lambda v, k: z3.And(0 <= c(v), c(v) < N)), T("ctr0", "", lambda v: z3.And(0 <= c(v), c(v) < N)), T("ctr1", "", lambda v: z3.And(1 <= c(v), c(v) < N)), T("ctr2", "", lambda v: z3.And(1 <= c(v), c(v) <= N))] + s.more(ex, st)
        return [n, ex.ptr(s.b), ex.ptr(s.x), ex.ptr(s.g), N, s.tran, s.r, k, ex.ptr(s.p), ex.ptr(s.q)] + s.args(ex, st)
    def more(s, ex, st): return []
    def args(s, ex, st): return []
    def bounds(s, ex, st): return {"n": s.n, "N": s.N}
    def step(s, st, k):
        st.assume(z3.Implies(k >= 0, forall(j_, z3.Implies(s.inn(j_), s.X(k + 1, j_) == s.X(k, j_) + s.Z(k, j_)), [s.X(k + 1, j_)])))
    def havoc(s, ex, st, name, v, ins):
        ex.flush(st)
        if name == "irv_havoc_norm": return s.norm(ex, st, v)
        src, ns, dst, nd = v[:4]; c = st.regs[s.g.id].content[0]; tran = v[4]
        S = st.regs[src.reg].content; so = zi(ex.index(st, st.regs[src.reg], src, st.regs[src.reg].ety)); D = st.regs[dst.reg]; do = zi(ex.index(st, D, dst, D.ety))
        w = "solve" if name == "irv_havoc_solve" else "product"; F = (s.R, s.Z) if w == "solve" else (s.X, s.AX)
        ex.prove(st, z3.And(zi(ns) == s.n, zi(nd) == s.n, so == 0, do == 0, src.reg != dst.reg), "pre(%s): argument and result are different vectors of the matrix size" % w)
        if w == "solve": s.step(st, c); ex.prove(st, zi(v[5]) == s.r, "pre(solve): the requested last-level dimension is passed on")
        ex.prove(st, zb(tran) == s.tran, "pre(%s): the requested transposition is passed on" % w)
        ex.prove(st, c >= 0 if w == "solve" else c >= 1, "pre(%s): iteration started" % w)
        ex.prove(st, forall(j_, z3.Implies(s.inn(j_), S[j_] == F[0](c, j_))), "pre(%s): applied to the current %s" % (w, "residual" if w == "solve" else "iterate"))
        ex.wrote(st, D); D = st.regs[D.id].copy(); D.content = z3.Const(fresh_name(D.name + "_" + w), D.content.sort()); st.regs[D.id] = D
        st.assume(forall(j_, z3.Implies(s.inn(j_), D.content[j_] == F[1](c, j_)), [D.content[j_]]))
        return None
    def unfold(s, ex, st, k): pass
    def ensure(s, ex, st, tag, a):
        o = st.regs[a[0].reg].content; K = z3.If(s.N <= 1, 1, s.N); c = st.regs[s.g.id].content[0]
        ex.prove(st, zi(a[1]) == s.n, "post: size of the solution"); ex.prove(st, c == K, "post: exactly the requested number of preconditioner applications")
        s.step(st, z3.IntVal(0)); w = fint("w"); st.assume(s.inn(w)); trig(st, s.X(c, w), s.X(1, w), s.X(0, w), s.X(c - 1, w))
        ex.prove(st, o[w] == s.X(c, w), "post: the result is the iterate x_N"); s.fr(ex, st)
    def fr(s, ex, st): ex.prove(st, forall(r_, z3.Implies(s.inn(r_), st.regs[s.b.id].content[r_] == s.b.content[r_])), "frame: right-hand side unchanged")
class RefineB(Refine):
    name = "refine_bounds"; fn = "drv_refine_b"; driver = "refine_b.cpp"; must_cover = (2,)
    def more(s, ex, st):
        s.NR = z3.Function("NR", I, RR); s.NB = z3.Real("NB"); st.assume(s.NB >= 0); s.be = ex.region(st, "betas", "double", z3.IntVal(2), writable=False); B = s.be.content
        st.assume(z3.Implies(s.NB == 0, forall(j_, z3.Implies(s.inn(j_), s.b.content[j_] == 0), [s.b.content[j_]])))
        s.go = lambda k: z3.And(s.NR(k) / s.NB > B[0], s.NR(k) / s.NB <= B[1])
        c = lambda v: v.st.regs[s.g.id].content[0]
        return [T("all", "", lambda v: forall(k_, z3.Implies(z3.And(1 <= k_, k_ <= c(v)), s.go(k_)), [s.NR(k_)])), T("all1", "", lambda v: forall(k_, z3.Implies(z3.And(1 <= k_, k_ < c(v)), s.go(k_)), [s.NR(k_)])),
                T("bn", "", lambda v: s.NB != 0)]
    def args(s, ex, st): return [ex.ptr(s.be)]
    def norm(s, ex, st, v):
        r = v[0].reg; A = st.regs[r].content; ex.prove(st, zi(v[1]) == s.n, "pre(norm2): whole vector")
        if r == s.b.id: return s.NB
        c = st.regs[s.g.id].content[0]
        ex.prove(st, z3.And(c >= 1, forall(j_, z3.Implies(s.inn(j_), A[j_] == s.R(c, j_)))), "pre(norm2): norm of the current residual")
        return s.NR(c)
    def ensure(s, ex, st, tag, a):
        o = st.regs[a[0].reg].content; it, fl = zi(a[2]), zi(a[3]); c = st.regs[s.g.id].content[0]; B = s.be.content; s.fr(ex, st)
        ex.prove(st, zi(a[1]) == s.n, "post: size of the solution"); ex.prove(st, z3.And(it == c, 0 <= it, it <= z3.If(s.N <= 1, 1, s.N)), "post: the count is the number of corrections made, at most the limit")
        s.step(st, z3.IntVal(0)); w = fint("w"); st.assume(s.inn(w)); trig(st, s.X(c, w), s.X(1, w), s.X(0, w), s.X(c - 1, w), s.NR(c))
        ex.prove(st, o[w] == s.X(c, w), "post: the result is the iterate of that count")
        small = z3.Or(s.NB == 0, s.NR(it) / s.NB <= B[0])
        ex.prove(st, z3.Or(fl == 0, fl == 1, fl == -1), "post: flag values")
        ex.prove(st, z3.Implies(fl == 0, z3.If(it == 0, s.NB == 0, z3.And(s.NB > 0, s.NR(it) / s.NB <= B[0]))), "post: flag 0 means the relative residual met the lower bound")
        ex.prove(st, z3.Implies(fl == 1, z3.And(it >= 1, s.NR(it) / s.NB > B[1], s.NR(it) / s.NB > B[0])), "post: flag 1 means the relative residual exceeded the upper bound")
        ex.prove(st, z3.Implies(fl == -1, it == z3.If(s.N <= 1, 1, s.N)), "post: flag -1 means the iteration limit was reached")
        ex.prove(st, forall(k_, z3.Implies(z3.And(1 <= k_, k_ < it), s.go(k_))), "post: no earlier iterate met a bound")
class Norm(Task):
    name = "norm2"; fn = "drv_norm2"; driver = "refine.cpp"; must_cover = (1,)
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); s.v = ex.region(st, "v", "double", n, writable=False); V = s.v.content; s.SS = z3.Function("SS", I, RR); st.assume(s.SS(0) == 0)
        s.templates = [T("ss", "kf", lambda v, k, t: t == s.alpha() * s.alpha() * s.SS(k)), T("lt", "k", lambda v, k: k < n), T("pos", "k", lambda v, k: s.SS(k) >= 0), T("mx", "kk", lambda v, a, b: forall(j_, z3.Implies(z3.And(0 <= j_, j_ <= a), z3.If(V[j_] >= 0, V[j_], -V[j_]) <= z3.If(V[b] >= 0, V[b], -V[b])), [V[j_]])),
                       T("z", "kf", lambda v, k, t: z3.And(t == 0, s.SS(k) == 0))]
        return [n, ex.ptr(s.v)]
    al = None
    def inv_facts(s, b, INV): s.al = INV(b); return z3.BoolVal(True)
    def alpha(s):
        if s.al is None: raise KeyError
        return s.al
    def bounds(s, ex, st): return {"n": s.n}
    def unfold(s, ex, st, k):
        V = s.v.content; st.assume(z3.Implies(z3.And(0 <= k, k < s.n), s.SS(k + 1) == s.SS(k) + V[k] * V[k])); trig(st, V[k]) 
    def ensure(s, ex, st, tag, a):
        r = zr(a[0]); ex.prove(st, r >= 0, "post: the norm is not negative"); ex.prove(st, r * r == s.SS(s.n), "post: its square is the sum of squares")
TASKS = [Refine, RefineB, Norm]
