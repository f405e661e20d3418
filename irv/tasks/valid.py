"""P05: the validity check ends normally exactly for valid matrices; an error is reached exactly for invalid ones; every read stays inside the arrays."""
from .common import *
i_, j_ = z3.Int("i"), z3.Int("j"); MX = 1 << 31
class Valid(Task):
    driver = "valid.cpp"; must_cover = (1,); wrap = False
    def setup(s, ex, st):
        m, n = s.m, s.n = ex.int_(st, "m", 0, MX), ex.int_(st, "n", 0, MX)
        if s.wrap: s.np, s.ni, s.nv = m + 1, None, None
        else: s.np, s.ni, s.nv = ex.int_(st, "np", 0, 1 << 40), ex.int_(st, "ni", 0, 1 << 40), ex.int_(st, "nv", 0, 1 << 40); st.assume(s.np >= 1)
        s.p = ex.region(st, "ptr", "i64", s.np)
        if s.wrap:
            s.ni = ex.int_(st, "ni", 0, 1 << 40); P = s.p.content; st.assume(z3.Implies(z3.And(P[0] == 0, P[m] >= 0), s.ni == P[m])); st.assume(z3.Implies(P[m] < 0, s.ni == 0)); s.nv = s.ni
        s.i = ex.region(st, "ind", "i32", s.ni); s.v = ex.region(st, "val", "double", s.nv)
        s.P, s.X = s.p.content, s.i.content; P, X = s.P, s.X
        if s.wrap: st.assume(forall(i_, z3.And(P[i_] >= -(1 << 61), P[i_] <= (1 << 61)), [P[i_]]))
        s.templates = [T("rows", "k", lambda v, k: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), z3.And(P[i_] <= P[i_ + 1], P[i_ + 1] <= P[s.m], P[i_ + 1] <= s.ni)), [P[i_]])),
                       T("mono", "k", lambda v, k: forall(i_, z3.Implies(z3.And(0 <= i_, i_ <= k), z3.And(P[i_] >= 0, P[i_] <= P[k])), [P[i_]])),
                       T("idx", "k", lambda v, k: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < P[k]), z3.And(X[j_] >= 0, X[j_] < n)), [X[j_]])),
                       T("srt", "k", lambda v, k: forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < k, P[i_] <= j_, j_ + 1 < P[i_ + 1]), X[j_] < X[j_ + 1]), [(P[i_], X[j_])])),
                       T("adj", "ki", lambda v, k, i: forall(j_, z3.Implies(z3.And(P[k] <= j_, j_ < i), X[j_] < X[j_ + 1]), [X[j_]])),
                       T("adjo", "oi", lambda v, k, i: forall(j_, z3.Implies(z3.And(P[k] <= j_, j_ < i), X[j_] < X[j_ + 1]), [X[j_]])),
                       T("ixo", "oi", lambda v, k, i: forall(j_, z3.Implies(z3.And(P[k] <= j_, j_ < i), z3.And(X[j_] >= 0, X[j_] < n)), [X[j_]]))]
        if s.wrap: return [m, n, ex.ptr(s.p), ex.ptr(s.i), ex.ptr(s.v)]
        return [m, n, ex.ptr(s.p), s.np, ex.ptr(s.i), s.ni, ex.ptr(s.v), s.nv]
    def bounds(s, ex, st): return {"m": s.m, "n": s.n}
    def unfold(s, ex, st, k): trig(st, s.P[k], s.P[k + 1])
    def valid(s):
        P, X = s.P, s.X
        return [("the start array is long enough, starts at zero and ends inside the entry arrays", z3.And(s.np >= s.m + 1, P[0] == 0, P[s.np - 1] >= 0, P[s.np - 1] <= s.ni, P[s.np - 1] <= s.nv)),
                ("the start array never decreases nor exceeds the entries", forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.m), z3.And(P[i_] <= P[i_ + 1], P[i_ + 1] <= s.ni)), [P[i_]])),
                ("indices lie inside the matrix", forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < s.m, P[i_] <= j_, j_ < P[i_ + 1]), z3.And(X[j_] >= 0, X[j_] < s.n)), [(P[i_], X[j_])])),
                ("indices strictly increase inside every row/column", forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < s.m, P[i_] <= j_, j_ + 1 < P[i_ + 1]), X[j_] < X[j_ + 1]), [(P[i_], X[j_])]))]
    def on_error(s, ex, st, what):
        a, b, b1 = z3.Ints("a b b1"); ex.valid("monotone start array: induction step over the distance", [a <= b, b <= b1], a <= b1)
        v = s.valid(); st.assume(z3.Implies(v[1][1], forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ <= j_, j_ <= s.m), s.P[i_] <= s.P[j_]), [(s.P[i_], s.P[j_])]))); trig(st, s.P[s.m])
        # an error is only reported for an invalid matrix
        ex.prove(st, z3.Not(z3.And(*[c for _, c in s.valid()])), "post: a valid matrix is not rejected (%s)" % what)
    def ensure(s, ex, st, tag, a):
        w = fint("w"); z = fint("z"); st.assume(z3.And(0 <= w, w < s.m)); trig(st, s.P[w], s.P[w + 1], s.X[z], s.P[0], s.P[s.m])
        for nm, c in s.valid(): ex.prove(st, c, "post: accepted only if " + nm)
        for r, c, n in ((s.p, s.P, s.np), (s.i, s.X, s.ni), (s.v, s.v.content, s.nv)):
            nw = st.regs[r.id].content
            ex.prove(st, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < n), nw[i_] == c[i_])), "frame: the arrays are not modified")
        if tag == 2:
            ex.prove(st, z3.And(zi(a[0]) == s.m, zi(a[1]) == s.n, zi(a[3]) == s.m + 1, zi(a[5]) == s.ni, zi(a[7]) == s.ni), "post: the wrapped matrix has the given sizes")
            ex.prove(st, z3.And(*[z3.And(z3.BoolVal(isinstance(a[k], Ptr) and a[k].reg == r.id), a[k].off.z() == 0) for k, r in ((2, s.p), (4, s.i), (6, s.v))]), "post: the user's arrays are wrapped, not copied")
def mk(nm, wrap): return type("val_" + nm, (Valid,), dict(name="val_" + nm, fn="drv_" + nm, wrap=wrap, must_cover=(2,) if wrap else (1,)))
TASKS = [mk("valid_crs", False), mk("valid_ccs", False), mk("wrap_crs", True), mk("wrap_ccs", True)]
