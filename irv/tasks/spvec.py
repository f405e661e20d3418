"""P07: sparse accumulator and dropping.  C(j) counts the surviving entries among the first j."""
from .common import *
i_, j_ = z3.Int("i"), z3.Int("j"); MX = 1 << 30
class SvTask(Task):
    driver = "spvec.cpp"; must_cover = (1,); flags = False
    def setup(s, ex, st):
        d = s.d = ex.int_(st, "d", 0, MX); sn = s.sn = ex.int_(st, "sn", 0, MX); c = s.c = ex.int_(st, "cnt", 0); st.assume(c <= sn)
        s.v = ex.region(st, "v", "double", d); s.ind = ex.region(st, "ind", "i32", sn); s.dt = ex.region(st, "dt", "i32", d); s.tg = ex.region(st, "tg", "i8", sn)
        s.V, s.X, s.D, s.G = s.v.content, s.ind.content, s.dt.content, s.tg.content
        r = lambda k: z3.And(0 <= k, k < c)
        s.r = r
        st.assume(forall(i_, z3.Implies(r(i_), z3.And(s.X[i_] >= 0, s.X[i_] < d)), [s.X[i_]]))                       # listed indices are valid
        st.assume(forall([i_, j_], z3.Implies(z3.And(r(i_), r(j_), i_ != j_), s.X[i_] != s.X[j_]), [(s.X[i_], s.X[j_])]))   # and listed once
        if not s.flags: st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < sn), s.G[i_] == 0), [s.G[i_]]))
        else: st.assume(forall(i_, z3.And(s.G[i_] >= 0, s.G[i_] <= 1), [s.G[i_]]))
        s.C = z3.Function("C", I, I); st.assume(s.C(0) == 0)
        k, k2 = z3.Int("k"), z3.Int("k2")
        # consequences of C(j+1) = C(j) + [j survives], proved by induction in facts()
        s.more(ex, st)
        return [d, sn, ex.ptr(s.v), ex.ptr(s.ind), ex.ptr(s.dt), ex.ptr(s.tg), c] + s.extra(ex, st)
    def keepf(s, j): return s.G[j] == 0
    def more(s, ex, st): pass
    def extra(s, ex, st): return []
    def bounds(s, ex, st): return {"c": s.c}
    def cur(s, st): return st.regs[s.v.id].content, st.regs[s.ind.id].content, st.regs[s.dt.id].content, st.regs[s.tg.id].content
    def same(s, ex, st, which):
        for nm, old, new, n in zip(("values", "indices", "dense tags", "drop marks"), (s.V, s.X, s.D, s.G), s.cur(st), (s.d, s.sn, s.d, s.sn)):
            if nm in which: ex.prove(st, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < n), new[i_] == old[i_])), "frame: %s unchanged" % nm)
class Push(SvTask):
    must_cover = (1, 2)
    def more(s, ex, st):
        s.at = z3.Function("at", I, I); s.stp = ex.int_(st, "step", 0, MX)
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.d), (s.D[i_] == s.stp) == z3.And(s.r(s.at(i_)), s.X[s.at(i_)] == i_)), [s.D[i_]]))   # tagged with this step iff listed
        st.assume(forall(i_, z3.Implies(s.r(i_), s.D[s.X[i_]] == s.stp), [s.X[i_]]))
    def extra(s, ex, st):
        s.i = ex.int_(st, "ii", 0); st.assume(z3.And(s.i < s.d, z3.Implies(s.D[s.i] != s.stp, s.c < s.sn)))      # room: the list holds distinct indices of the vector
        return [s.i, s.stp]
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st); n = zi(a[1])
        if tag == 2: ex.prove(st, n == 0, "post: reset empties the list"); return
        new = s.D[s.i] != s.stp
        ex.prove(st, (zi(a[0]) != 0) == new, "post: reports a new index exactly when it was not listed"); ex.prove(st, n == s.c + z3.If(new, 1, 0), "post: size grows by one for a new index only")
        ex.prove(st, forall(j_, z3.Implies(s.r(j_), X[j_] == s.X[j_])), "post: listed indices stay"); ex.prove(st, z3.Implies(new, X[s.c] == s.i), "post: the new index is appended")
        w, z = fint("w"), fint("z"); st.assume(z3.And(0 <= w, w < n, 0 <= z, z < n, w != z)); trig(st, s.X[w], s.X[z])
        ex.prove(st, X[w] != X[z], "post: no index is listed twice"); ex.prove(st, D[X[w]] == s.stp, "post: listed indices carry the tag of the step")
        t = fint("t"); st.assume(z3.And(0 <= t, t < s.d, t != s.i)); ex.prove(st, D[t] == s.D[t], "post: no other tag changes"); ex.prove(st, D[s.i] == s.stp, "post: the index is tagged")
        s.same(ex, st, ("values", "drop marks"))
class Restore(SvTask):
    must_cover = (1, 2)
    def more(s, ex, st):
        EM = z3.IntVal(-1)
        s.templates = [T("done", "kI", lambda v, k, b: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), b.content[s.X[j_]] == EM), [s.X[j_]])),
                       T("rest", "kI", lambda v, k, b: forall(j_, z3.Or(b.content[j_] == s.D[j_], b.content[j_] == EM), [b.content[j_]])),
                       T("fr", "kI", lambda v, k, b: forall(j_, z3.Implies(z3.Not(s.L(j_)), b.content[j_] == s.D[j_]), [b.content[j_]]))]
        s.L = z3.Function("listed", I, z3.BoolSort()); st.assume(forall(j_, z3.Implies(s.r(j_), s.L(s.X[j_])), [s.X[j_]]))
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st)
        if tag == 2: ex.prove(st, zi(a[0]) == 0, "post: reset empties the list"); return
        ex.prove(st, zi(a[0]) == s.c, "post: the list itself stays")
        ex.prove(st, forall(j_, z3.Implies(s.r(j_), D[s.X[j_]] == -1)), "post: no listed index carries a tag any more")
        ex.prove(st, forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.d, z3.Not(s.L(j_))), D[j_] == s.D[j_])), "post: other tags unchanged")
        s.same(ex, st, ("values", "indices", "drop marks"))
class Compress(SvTask):
    flags = True
    def more(s, ex, st):
        C, k, k2 = s.C, z3.Int("k"), z3.Int("k2")
        # lemma (induction over k2): C is monotone, C(k) <= k, a surviving k < k2 has C(k) < C(k2)
        a, b, b1, e = z3.Ints("a b b1 e")
        ex.valid("count: induction step of monotonicity", [a <= b, z3.Or(b1 == b, b1 == b + 1)], a <= b1)
        ex.valid("count: induction step of C(k) <= k", [b <= e, z3.Or(b1 == b, b1 == b + 1)], b1 <= e + 1)
        st.assume(forall([k, k2], z3.Implies(z3.And(0 <= k, k < k2), z3.And(C(k) <= C(k2), z3.Implies(s.keepf(k), C(k) + 1 <= C(k2)))), [(C(k), C(k2))]))
        st.assume(forall([k], z3.Implies(k >= 0, z3.And(0 <= C(k), C(k) <= k)), [C(k)]))
        s.templates = s.ctempl()
    def ctempl(s):
        C = s.C
        return [T("cnt", "ki", lambda v, k, i: i == C(k)),
                T("kept", "kI", lambda v, k, b: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k, s.keepf(j_)), b.content[C(j_)] == s.X[j_]), [C(j_)])),
                T("tail", "kI", lambda v, k, b: forall(j_, z3.Implies(j_ >= k, b.content[j_] == s.X[j_]), [b.content[j_]])),
                T("clr", "kI", lambda v, k, b: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), b.content[j_] == 0), [b.content[j_]])),
                T("flg", "kI", lambda v, k, b: forall(j_, z3.Implies(z3.And(j_ >= k, j_ < s.sn), b.content[j_] == s.flag0(j_)), [b.content[j_]]))]
    def flag0(s, j): return s.G[j]
    def unfold(s, ex, st, k): st.assume(z3.Implies(k >= 0, s.C(k + 1) == s.C(k) + z3.If(s.keepf(k), 1, 0)))
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st); n = zi(a[0])
        ex.prove(st, n == s.C(s.c), "post: as many entries as survive")
        w = fint("w"); st.assume(z3.And(s.r(w), s.keepf(w))); trig(st, s.C(w), s.C(s.c), s.X[w])
        ex.prove(st, z3.And(X[s.C(w)] == s.X[w], 0 <= s.C(w), s.C(w) < n), "post: every surviving entry is listed, in the old order")
        s.flags_clean(ex, st, G); s.same(ex, st, ("values", "dense tags"))
    def flags_clean(s, ex, st, G): ex.prove(st, forall(j_, z3.Implies(s.r(j_), G[j_] == 0)), "post: drop marks are cleared")
class Mark(SvTask):
    flags = True
    def extra(s, ex, st): s.i = ex.int_(st, "mi", 0); st.assume(s.i < s.c); return [s.i]
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st); ex.prove(st, zi(a[0]) == s.c, "post: nothing is removed yet"); ex.prove(st, forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.sn), (G[j_] != 0) == z3.Or(s.G[j_] != 0, j_ == s.i))), "post: exactly this entry is marked in addition"); s.same(ex, st, ("values", "indices", "dense tags"))
def mag(x): return z3.If(x >= 0, x, -x)
class Num(Compress):
    flags = False; must_cover = (1,)
    def keepf(s, j): return z3.Not(mag(s.V[s.X[j]]) <= s.coeff)
    def more(s, ex, st):
        s.tau, s.kap = z3.Real("tau"), z3.Real("kappa"); st.assume(s.kap >= 1)
        s.coeff = s.tau * INV(s.kap)
        st.assume(z3.And(INV(s.kap) > 0, s.kap * INV(s.kap) == 1))
        Compress.more(s, ex, st)
        s.templates = s.ctempl() + [T("mk", "kI", lambda v, k, b: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), b.content[j_] == s.flag0(j_)), [b.content[j_]])),
                                    T("mk0", "kI", lambda v, k, b: forall(j_, z3.Implies(z3.And(j_ >= k, j_ < s.sn), b.content[j_] == 0), [b.content[j_]]))]
    def flag0(s, j): return z3.If(z3.And(s.r(j), mag(s.V[s.X[j]]) <= s.coeff), 1, 0)
    def extra(s, ex, st): return [s.tau, s.kap]
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st); n = zi(a[0]); off = s.tau <= 0
        st.assume(z3.Implies(s.tau <= 0, s.coeff <= 0)); st.assume(z3.Implies(s.tau > 0, s.coeff > 0))     # sign of tau/kappa, kappa >= 1 (checked below)
        ex.valid("sign of a quotient", [z3.Real("q") * s.kap == s.tau, s.kap >= 1], z3.And(z3.Implies(s.tau <= 0, z3.Real("q") <= 0), z3.Implies(s.tau > 0, z3.Real("q") > 0)))
        st2 = st.copy(); st2.assume(off)
        ex.prove(st2, n == s.c, "post: a non-positive threshold drops nothing"); ex.prove(st2, forall(j_, z3.Implies(s.r(j_), X[j_] == s.X[j_])), "post: a non-positive threshold changes nothing")
        st.assume(z3.Not(off)); trig(st, s.C(s.c)); Compress.ensure(s, ex, st, tag, a)
class Space(SvTask):
    def extra(s, ex, st):
        s.nnz, s.al, s.start = ex.int_(st, "nnz", 0, MX), z3.Real("alpha"), ex.int_(st, "start", 0, MX); st.assume(s.al <= 1000000)
        return [s.nnz, s.al, s.start]
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st); n = zi(a[0])
        ce = z3.Int("lim"); st.assume(z3.Implies(s.al > 0, z3.And(z3.ToReal(ce) >= s.al * z3.ToReal(s.nnz), z3.ToReal(ce) < s.al * z3.ToReal(s.nnz) + 1)))   # ceil(alpha * nnz)
        N = z3.If(s.start >= ce, 1, ce - s.start); act = z3.And(s.al > 0, s.c > N)
        ex.prove(st, n == z3.If(act, N, s.c), "post: exactly the requested number of entries is kept")
        w, z = fint("w"), fint("z"); st.assume(s.r(w)); trig(st, s.X[w], X[w])
        on = fint("on"); po = z3.Function("posn", I, I)
        ex.prove(st, z3.And(X[w] >= 0, X[w] < s.d), "post: listed indices stay valid")
        st.assume(s.r(z)); trig(st, X[z], s.X[z]); ex.prove(st, z3.Implies(w != z, X[w] != X[z]), "post: no index twice, so the kept and dropped ones together are the old entries")
        st.assume(z3.And(w < n, n <= z)); ex.prove(st, mag(V[X[w]]) >= mag(V[X[z]]), "post: no dropped entry is larger than a kept one")
        s.same(ex, st, ("values", "dense tags", "drop marks"))
class Sort(SvTask):
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st); w, z = fint("w"), fint("z"); st.assume(z3.And(s.r(w), s.r(z))); trig(st, X[w], X[z], s.X[w], s.X[z])
        ex.prove(st, zi(a[0]) == s.c, "post: same size"); ex.prove(st, z3.Implies(w < z, X[w] < X[z]), "post: indices strictly increasing"); ex.prove(st, z3.And(X[w] >= 0, X[w] < s.d), "post: indices valid"); s.same(ex, st, ("values", "dense tags", "drop marks"))
class Scale(SvTask):
    def more(s, ex, st):
        s.al = z3.Real("al"); s.L = z3.Function("listed", I, z3.BoolSort()); s.ix = z3.Function("where", I, I)
        st.assume(forall(j_, z3.Implies(s.r(j_), s.ix(s.X[j_]) == j_), [s.X[j_]]))
        t = z3.Int("t"); lst = lambda t, k: z3.And(0 <= s.ix(t), s.ix(t) < k, s.X[s.ix(t)] == t)
        s.lst = lst
        s.templates = [T("sc", "kF", lambda v, k, b: forall(t, b.content[t] == z3.If(lst(t, k), s.V[t] * s.al, s.V[t]), [b.content[t]]))]
    def extra(s, ex, st): return [s.al]
    def ensure(s, ex, st, tag, a):
        V, X, D, G = s.cur(st); t = z3.Int("t"); ex.prove(st, forall(t, z3.Implies(z3.And(0 <= t, t < s.d), V[t] == z3.If(s.lst(t, s.c), s.V[t] * s.al, s.V[t]))), "post: exactly the listed values are scaled"); s.same(ex, st, ("indices", "dense tags", "drop marks"))
def mk(cls, nm, **kw): return type("sv_" + nm, (cls,), dict(name="sv_" + nm, fn="drv_sv_" + nm, **kw))
TASKS = [mk(Push, "push"), mk(Restore, "restore"), mk(Compress, "compress"), mk(Mark, "mark"), mk(Num, "num"), mk(Space, "space"), mk(Sort, "sort"), mk(Scale, "scale")]
