"""P03: unit-triangular solves on compressed storage.

Ghost functions over the flat component index t (entry row r, component q is r*E+q, E = rhs*vc):
  X(t)      the solution: defined by X = B - (strict part) X; well-founded because the matrix is strictly triangular
  gather:   D(t,k)  sum over stored entries P[i] <= l < k of major i=t/E;  DG(t,k) the same over k <= l < P[i+1];  TG(t) the full sum
  scatter:  F(i,k,t) / G(i,k,t) contribution of the entries P[i]<=l<k / k<=l<P[i+1] of major i to component t; M(i,t) all of them
            S(i,t) / Rr(i,t) contribution of majors < i / >= i
"""
from .common import *
t_ = z3.Int("t"); BIGD = 1 << 31

class Tri(Task):
    driver = "trisolve.cpp"; must_cover = (1,); mulf = True; vc = 1; rhs = 1; upper = False; tran = False; ccs = False
    def setup(s, ex, st):
        E = s.E = s.vc * s.rhs; s.ratios = tuple(sorted(set(x for x in (s.vc, s.rhs, E) if x > 1)))
        n = s.n = ex.int_(st, "n", 0, BIGD)
        A = s.A = Comp(ex, st, "A", n, n, vc=s.vc, check_ind=False)
        s.above = s.upper != s.ccs          # minor index > major index
        s.gather = s.tran == s.ccs
        s.fwd = s.upper == s.tran           # effective system is lower triangular
        P, Ix = A.P, A.Ix
        i, k = z3.Int("i"), z3.Int("k")
        st.assume(forall([k], z3.Implies(z3.And(0 <= k, k < A.nnz), z3.And(Ix[k] >= 0, Ix[k] < n)), [Ix[k]]))
        # strict triangularity, per entry: maj(k) is the row (column) that owns entry k
        s.maj = z3.Function("maj", I, I)
        s.tri = lambda i, k: z3.And(s.maj(k) == i, Ix[k] > i if s.above else Ix[k] < i)
        st.assume(forall([i, k], z3.Implies(z3.And(0 <= i, i < n, P[i] <= k, k < P[i + 1]), s.tri(i, k)), [(P[i], Ix[k])]))
        e = n - 1 if s.above else z3.IntVal(0)     # that row has no room for an entry
        hyp = [n > 0, 0 <= P[e], P[e] <= P[e + 1], P[e + 1] <= A.nnz, P[e] < P[e + 1], z3.Implies(P[e] < P[e + 1], s.tri(e, P[e])), z3.Implies(z3.And(0 <= P[e], P[e] < A.nnz), z3.And(Ix[P[e]] >= 0, Ix[P[e]] < n))]
        ex.valid("the extreme row of a strictly triangular matrix is empty", hyp, z3.BoolVal(False))
        st.assume(z3.Implies(n > 0, P[e] == P[e + 1]))
        s.y = ex.region(st, "y", "double", E * n); s.B = s.y.content
        s.X = z3.Function("X", I, R)
        s.D = z3.Function("D", I, I, R); s.DG = z3.Function("DG", I, I, R); s.TG = z3.Function("TG", I, R)
        s.F = z3.Function("F", I, I, I, R); s.G = z3.Function("G", I, I, I, R); s.M = z3.Function("M", I, I, R); s.S = z3.Function("S", I, I, R); s.Rr = z3.Function("Rr", I, I, R)
        B, X = s.B, s.X
        inr = lambda a, b: z3.And(E * a <= t_, t_ < E * b, t_ < E * n)
        st.assume(s.majdefs(e))
        if not s.gather:
            ex.valid('the extreme row contributes nothing', [P[e] == P[e + 1], s.F(e, P[e], t_) == 0, s.F(e, P[e + 1], t_) == s.M(e, t_)], s.M(e, t_) == 0)
            st.assume(z3.Implies(n > 0, forall(t_, s.M(e, t_) == 0, [s.M(e, t_)])))
        if s.gather:
            Y = lambda y: y.content[t_]
            lo = lambda i: (inr(0, i) if s.fwd else inr(i, n))
            s.rowsX = lambda y, i: forall(t_, z3.Implies(lo(i), Y(y) == X(t_)), [Y(y)])
            if s.fwd: rest = lambda i: z3.Or(t_ < 0, t_ >= E * i)
            else: rest = lambda i: z3.Or(t_ < E * i, t_ >= E * n)
            s.rowsB = lambda y, i: forall(t_, z3.Implies(rest(i), Y(y) == B[t_]), [Y(y)])
            s.templates = [T("done", "kF", lambda v, i, y: s.rowsX(y, i)), T("todo", "kF", lambda v, i, y: s.rowsB(y, i)),
                           T("rng", "oi", lambda v, i, k: z3.And(P[i] <= k, k <= P[i + 1])), T("rngm", "oi", lambda v, i, k: z3.And(P[i - 1] <= k, k <= P[i]))]
            for dj in (0, 1):
                # inner loop works on row i-dj
                s.templates += [T("mdone%d" % dj, "oF", lambda v, i, y, dj=dj: s.rowsX(y, i - dj if s.fwd else i - dj + 1)),
                                T("mtodo%d" % dj, "oF", lambda v, i, y, dj=dj: forall(t_, z3.Implies(z3.Or(t_ < 0, t_ >= E * n, z3.And(rest(i - dj + (1 if s.fwd else 0)))), Y(y) == B[t_]), [Y(y)]))]
                for q in range(E):
                    s.templates += [T("acc%d_%d" % (q, dj), "oif", lambda v, i, k, f, q=q, dj=dj: f == s.D(E * (i - dj) + q, k)),
                                    T("acr%d_%d" % (q, dj), "oif", lambda v, i, k, f, q=q, dj=dj: f == s.DG(E * (i - dj) + q, k)),
                                    T("acm%d_%d" % (q, dj), "oiF", lambda v, i, k, y, q=q, dj=dj: y.content[E * (i - dj) + q] == B[E * (i - dj) + q] - s.D(E * (i - dj) + q, k)),
                                    T("acn%d_%d" % (q, dj), "oif", lambda v, i, k, f, q=q, dj=dj: f == B[E * (i - dj) + q] - s.D(E * (i - dj) + q, k))]
        else:
            full = z3.And(0 <= t_, t_ < E * n)
            base = lambda j: (s.S(j, t_) if s.fwd else s.Rr(j, t_))
            s.templates = [T("sc", "kF", lambda v, j, y: forall(t_, z3.Implies(full, y.content[t_] == B[t_] - base(j)), [y.content[t_]])),
                           T("scs", "kF", lambda v, j, y: forall(t_, z3.Implies(full, y.content[t_] == B[t_] - base(j + 1)), [y.content[t_]])),
                           T("rng", "oi", lambda v, i, k: z3.And(P[i] <= k, k <= P[i + 1])), T("rngm", "oi", lambda v, i, k: z3.And(P[i - 1] <= k, k <= P[i]))]
            for dj in (0, 1):
                bj = lambda j, dj: base(j - dj if s.fwd else j - dj + 1)
                s.templates += [T("scf%d" % dj, "oiF", lambda v, j, k, y, dj=dj: forall(t_, z3.Implies(full, y.content[t_] == B[t_] - bj(j, dj) - s.F(j - dj, k, t_)), [y.content[t_]])),
                                T("scg%d" % dj, "oiF", lambda v, j, k, y, dj=dj: forall(t_, z3.Implies(full, y.content[t_] == B[t_] - bj(j, dj) - s.G(j - dj, k, t_)), [y.content[t_]]))]
            st.assume(forall(t_, s.S(0, t_) == 0, [s.S(0, t_)])); st.assume(forall(t_, s.Rr(n, t_) == 0, [s.Rr(n, t_)]))
            s.fin = (lambda t: s.S(n, t)) if s.fwd else (lambda t: s.Rr(0, t))
            st.assume(forall(t_, z3.Implies(full, X(t_) == B[t_] - s.fin(t_)), [X(t_)]))
            s.lemmas(ex, st)
        return [n, ex.ptr(A.ptr), ex.ptr(A.ind), ex.ptr(A.val), ex.ptr(s.y)]
    def lemmas(s, ex, st):
        """later majors never touch a component that has been read: S(n,t) = S(j,t) (Rr(0,t) = Rr(j+1,t)) for component rows j"""
        E, A, n = s.E, s.A, s.n
        i, k, j = z3.Ints("li lk lj")
        for q in range(E):
            t = E * j + q
            rel = (i >= j) if s.fwd else (i <= j)
            h = s.defs(i, k) + [s.tri(i, k), rel, 0 <= j, j < n, 0 <= i, i < n, A.P[i] <= k, k < A.P[i + 1], A.Ix[k] >= 0]
            inst = [z3.substitute_vars(f.body(), t) if z3.is_quantifier(f) and f.num_vars() == 1 else f for f in s.defs(i, k, raw=True)]
            ex.valid("entry of a later major leaves component %d of row j alone (forward partial)" % q, inst + h, z3.Implies(s.F(i, k, t) == 0, s.F(i, k + 1, t) == 0))
            h2 = h + [f for f in s.majdefs(i)]
            Sx = (lambda a: s.S(a, t)) if s.fwd else (lambda a: s.Rr(a, t))
            a, b = (i, i + 1) if s.fwd else (i + 1, i)
            ex.valid("a major without contribution leaves component %d alone" % q, s.majdefs(i) + [z3.substitute_vars(f.body(), t) for f in s.majdefs(i, raw=True) if z3.is_quantifier(f)] + [s.M(i, t) == 0, s.F(i, A.P[i], t) == 0], Sx(b) == Sx(a))
        if s.fwd: st.assume(forall([j, t_], z3.Implies(z3.And(0 <= j, j < n, E * j <= t_, t_ < E * j + E), s.fin(t_) == s.S(j, t_)), [(s.S(j, t_), s.X(t_))]))
        else: st.assume(forall([j, t_], z3.Implies(z3.And(1 <= j, j <= n, E * j - E <= t_, t_ < E * j), s.fin(t_) == s.Rr(j, t_)), [(s.Rr(j, t_), s.X(t_))]))
    def bounds(s, ex, st): return {"n": s.n, "nnz": s.A.nnz}
    def term(s, k, xr):
        A, X = s.A, s.X; out = []
        for j in range(s.rhs):
            if s.vc == 1: out.append(mulf(A.V[k], X(s.E * xr + j)))
            else:
                a, b = A.V[2 * k], A.V[2 * k + 1]
                if s.tran: b = -b
                c, d = X(s.E * xr + 2 * j), X(s.E * xr + 2 * j + 1)
                out += [mulf(a, c) - mulf(b, d), mulf(a, d) + mulf(b, c)]
        return out
    def defs(s, i, k, raw=False):
        """recurrences at entry k of major i (guarded)"""
        E, A = s.E, s.A; g = z3.And(0 <= i, i < s.n, A.P[i] <= k, k < A.P[i + 1]); out = []
        if s.gather:
            tm = s.term(k, A.Ix[k])
            for q in range(E):
                t = E * i + q
                out += [z3.Implies(g, s.D(t, k + 1) == s.D(t, k) + tm[q]), z3.Implies(g, s.DG(t, k) == s.DG(t, k + 1) + tm[q]), z3.Implies(g, s.D(t, k) + s.DG(t, k) == s.TG(t)), z3.Implies(g, s.D(t, k + 1) + s.DG(t, k + 1) == s.TG(t))]
            return out
        tm = s.term(k, i); c = A.Ix[k]
        if raw: return [forall(t_, z3.Implies(z3.And(g, z3.Or(t_ < E * c, t_ >= E * c + E)), s.F(i, k + 1, t_) == s.F(i, k, t_)), [s.F(i, k + 1, t_)])]
        nin = z3.Or(t_ < E * c, t_ >= E * c + E)
        out.append(z3.Implies(g, forall(t_, z3.Implies(nin, s.F(i, k + 1, t_) == s.F(i, k, t_)), [s.F(i, k + 1, t_)])))
        out.append(z3.Implies(g, forall(t_, z3.Implies(nin, s.G(i, k, t_) == s.G(i, k + 1, t_)), [s.G(i, k, t_)])))
        for q in range(E):
            out += [z3.Implies(g, s.F(i, k + 1, E * c + q) == s.F(i, k, E * c + q) + tm[q]), z3.Implies(g, s.G(i, k, E * c + q) == s.G(i, k + 1, E * c + q) + tm[q])]
        return out
    def majdefs(s, i, raw=False):
        E, A = s.E, s.A; out = []
        if s.gather:
            for q in range(E):
                t = E * i + q
                out += [s.D(t, A.P[i]) == 0, s.DG(t, A.P[i + 1]) == 0, s.TG(t) == s.D(t, A.P[i + 1]), s.DG(t, A.P[i]) == s.TG(t), z3.Implies(z3.And(0 <= i, i < s.n), s.X(t) == s.B[t] - s.TG(t))]
            return out
        g = z3.And(0 <= i, i < s.n)
        return [forall(t_, s.F(i, A.P[i], t_) == 0, [s.F(i, A.P[i], t_)]), forall(t_, s.G(i, A.P[i + 1], t_) == 0, [s.G(i, A.P[i + 1], t_)]),
                forall(t_, s.F(i, A.P[i + 1], t_) == s.M(i, t_), [s.F(i, A.P[i + 1], t_)]), forall(t_, s.G(i, A.P[i], t_) == s.M(i, t_), [s.G(i, A.P[i], t_)]),
                forall(t_, s.S(i + 1, t_) == s.S(i, t_) + s.M(i, t_), [s.S(i + 1, t_)]), forall(t_, s.Rr(i, t_) == s.Rr(i + 1, t_) + s.M(i, t_), [s.Rr(i, t_)])]
    def unfold(s, ex, st, x):
        A = s.A
        cur = st.loops[-1].vals if st.loops else {}
        if any(v is x for v in cur.values()):
            pass
        for i in (x, x - 1): st.assume(s.majdefs(i))
        rows = [l.vals[nm] for l in st.loops for nm in ex.int_vars(l.vals) if isz(l.vals[nm]) and l.vals[nm] is not x]
        for i0 in rows:
            for i in (i0, i0 - 1):
                for k in (x, x - 1): st.assume(s.defs(i, k))
    def ensure(s, ex, st, tag, args):
        E = s.E; Y = st.regs[s.y.id].content
        ex.prove(st, forall(t_, z3.Implies(z3.And(0 <= t_, t_ < E * s.n), Y[t_] == s.X(t_))), "post: y is the solution of the unit-triangular system")
        if s.gather: return
def mk(nm, fn_, **kw): return type(nm, (Tri,), dict(name=nm, fn=fn_, **kw))
TASKS = []
for pre, vc, rhs in (("d", 1, 1), ("z", 2, 1), ("d2", 1, 2), ("z2", 2, 2)):
    for cs in ("crs", "ccs"):
        for up in (False, True):
            for tr in (False, True):
                nm = "%s_%s_%s%s" % (pre, cs, "upper" if up else "lower", "_tran" if tr else "")
                TASKS.append(mk("tri_" + nm, "drv_" + nm, vc=vc, rhs=rhs, ccs=cs == "ccs", upper=up, tran=tr))
