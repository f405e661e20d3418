"""P12: the constant-mode filter.  Ghost prefix sums SUM (of the input) and SUMF (of the filtered vector)."""
from .common import *
class Filter(Task):
    driver = "nsp.cpp"; must_cover = (1, 2); default = False
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, 1 << 40)
        s.x = ex.region(st, "x", "double", n); s.X0 = s.x.content
        if s.default: s.a, s.e0 = z3.IntVal(0), z3.IntVal(-1)
        else:
            s.a = ex.int_(st, "start", 0, 1 << 62); s.e0 = z3.Int("end_")     # any 64-bit pattern; negative = huge unsigned
            st.assume(z3.And(s.e0 >= -1, s.e0 < 1 << 62))
        a = s.a
        s.e = z3.If(z3.Or(s.e0 == -1, s.e0 < a), n, s.e0)
        s.bad = z3.Or(s.e < a, s.e > n)
        s.SUM = z3.Function("SUM", I, R); s.SUMF = z3.Function("SUMF", I, R)
        st.assume(s.SUM(a) == 0)
        s.c = z3.ToReal(s.e - a)
        s.SH = s.SUM(s.e) * INV(s.c)
        s.templates = [T("acc", "if", lambda v, k, f: f == s.SUM(k)), T("acc2", "if", lambda v, k, f: f == s.SUMF(k)),
                       T("done", "kF", lambda v, k, x: s.filt(x.content, k)),
                       T("done2", "kF", lambda v, k, x: s.filt(x.content, s.e))]
        return ([n] if s.default else [a, s.e0, n]) + [ex.ptr(s.x)]
    def filt(s, X, k):
        i = z3.Int("i")
        return forall(i, X[i] == z3.If(z3.And(s.a <= i, i < k), s.X0[i] - s.SH, s.X0[i]), [X[i]])
    def bounds(s, ex, st): return {"n": s.n, "e": s.e, "a": s.a}
    def unfold(s, ex, st, k):
        st.assume(z3.Implies(s.a <= k, s.SUM(k + 1) == s.SUM(k) + s.X0[k]))
        if "x1" in st.ghost:
            st.assume(z3.Implies(s.a <= k, s.SUMF(k + 1) == s.SUMF(k) + st.ghost["x1"][k]))
    def on_error(s, ex, st, what): ex.prove(st, s.bad, "post: the filter is refused only for a range that does not fit (end > n or end < start)")
    def irv(s, ex, st, name, v, ins):
        r = super().irv(ex, st, name, v, ins)
        if name == "irv_ensure" and v[0] == 1:
            st.ghost["x1"] = st.regs[s.x.id].content
            a, e, SUM, SUMF = s.a, s.e, s.SUM, s.SUMF
            st.assume(SUMF(a) == 0)
            # lemma: SUMF(k) = SUM(k) - (k-a)*SH, by induction over k (base case trivial), hence SUMF(e) = 0
            k = z3.Int("lk"); S, F, S1, F1, xk, sh, iv, ck = z3.Reals("S F S1 F1 xk sh iv ck")
            ex.valid("sum of the shifted range, induction step", [F == S - ck * sh, S1 == S + xk, F1 == F + (xk - sh)], F1 == S1 - (ck + 1) * sh)
            ex.valid("the shifted range sums to zero", [ck != 0, ck * iv == 1, sh == S * iv, F == S - ck * sh], F == 0)
            st.assume(z3.Implies(z3.And(e >= a), SUMF(e) == 0))
        return r
    def ensure(s, ex, st, tag, args):
        X = st.regs[s.x.id].content; i = z3.Int("i")
        if tag == 1:
            ex.prove(st, z3.Not(s.bad), "post: a range that does not fit is refused")
            ex.prove(st, forall(i, z3.Implies(z3.And(s.a <= i, i < s.e), X[i] == s.X0[i] - s.SH)), "post: every entry of the range has the mean of the range subtracted")
            ex.prove(st, forall(i, z3.Implies(z3.And(0 <= i, i < s.n, z3.Or(i < s.a, i >= s.e)), X[i] == s.X0[i])), "post: entries outside the range unchanged")
        else:
            x1 = st.ghost["x1"]
            ex.prove(st, forall(i, z3.Implies(z3.And(0 <= i, i < s.n), X[i] == x1[i])), "post: filtering again changes nothing (the range sums to zero)")
def mk(nm, fn_, **kw): return type(nm, (Filter,), dict(name=nm, fn=fn_, **kw))
TASKS = [mk("nsp_ctor", "drv_filter"), mk("nsp_set", "drv_filter_set"), mk("nsp_default", "drv_filter_default", default=True)]
