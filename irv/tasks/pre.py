"""P14: preprocessing."""
from .common import *
from .perm import bijection, Reorder as _Reorder
from ..sym import INV, PUSHED
import re
from fractions import Fraction
BIGD = (1 << 31) - 1
i_, j_, k_, x_ = z3.Ints("i j k x")
ab = lambda x: z3.If(x < 0, -x, x)
EPS = z3.RealVal("1/%d" % 2**52)
class Defer(Task):
    """defer_tiny_diags: positions whose diagonal entry is missing or negligible move behind the others, order kept"""
    name = "pre_defer_rows"; cost = 50; driver = "pre.cpp"; dfn = "drv_defer"; fn = "drv_defer"; must_cover = (1,)
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); C = s.C = Comp(ex, st, "c", n, n, facts=s.part == "test"); R = s.R = Comp(ex, st, "r", n, n, facts=s.part == "test")
        if s.part == "test": C.sorted_facts(st)
        m0 = s.m0 = ex.int_(st, "m0", 0, BIGD); st.assume(m0 <= n); rs = s.rs = [ex.region(st, x, "i32", n) for x in ("p", "q", "wp", "wq")]; p, q = s.p, s.q = rs[0].content, rs[1].content
        inr = lambda i: z3.And(0 <= i, i < n)
        for a in (p, q): st.assume(forall(i_, z3.Implies(inr(i_), inr(a[i_])), [a[i_]]))
        F = lambda nm, *t: z3.Function(nm, *t); B, Q = z3.BoolSort(), z3.RealSort()
        rmax, rat, cmax, cat, has, dp, good, G, mark = s.rmax, s.rat, s.cmax, s.cat, s.has, s.dp, s.good, s.G, s.mark = F("rmax", I, Q), F("rat", I, I), F("cmax", I, Q), F("cat", I, I), F("has", I, B), F("dp", I, I), F("good", I, B), F("G", I, I), F("mk", I, I)
        for M, mx, at in ((R, rmax, rat), (C, cmax, cat)) if s.part == "test" else ():  # largest magnitude of a row / column, zero when it has no entries
            P, V = M.P, M.V
            st.assume(forall(i_, z3.Implies(inr(i_), z3.If(P[i_] == P[i_ + 1], mx(i_) == 0, z3.And(P[i_] <= at(i_), at(i_) < P[i_ + 1], mx(i_) == ab(V[at(i_)])))), [mx(i_)]))
            st.assume(forall([i_, k_], z3.Implies(z3.And(inr(i_), P[i_] <= k_, k_ < P[i_ + 1]), ab(V[k_]) <= mx(i_)), [(mx(i_), V[k_])]))
        if s.part == "test":
            P, X, V = C.P, C.Ix, C.V
            st.assume(forall(i_, z3.Implies(z3.And(inr(i_), has(i_)), z3.And(P[q[i_]] <= dp(i_), dp(i_) < P[q[i_] + 1], X[dp(i_)] == p[i_])), [has(i_)]))
            st.assume(forall([i_, k_], z3.Implies(z3.And(inr(i_), P[q[i_]] <= k_, k_ < P[q[i_] + 1], X[k_] == p[i_]), has(i_)), [(has(i_), X[k_])]))
            mx = lambda i: z3.If(rmax(p[i]) >= cmax(q[i]), rmax(p[i]), cmax(q[i]))
            st.assume(forall(i_, z3.Implies(inr(i_), good(i_) == z3.And(has(i_), ab(V[dp(i_)]) > z3.If(mx(i_) == 0, 1, mx(i_)) * EPS)), [good(i_)]))
        else:
            st.assume(G(0) == 0); st.assume(forall(i_, z3.Implies(inr(i_), G(i_ + 1) == G(i_) + z3.If(good(i_), 1, 0)), [good(i_)]))
            a, b, u, y = z3.Ints("a b u y"); ex.valid("counts grow by at most one per position (induction step)", [0 <= a, 0 <= b, b <= u, z3.Or(y == 0, y == 1)], z3.And(a <= a + y, a + b + y <= a + u + 1, b + y >= 0))
            st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ <= j_, j_ <= n), z3.And(G(i_) <= G(j_), G(j_) - G(i_) <= j_ - i_)), [(G(i_), G(j_))])); st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ <= n), z3.And(0 <= G(i_), G(i_) <= i_)), [G(i_)]))
        rng = lambda v, x: z3.And(0 <= x, x < v)
        s.templates = []
        for nm, a0 in (("p", p), ("q", q)):
            if s.part != "test" and nm != s.arr: continue
            s.templates.append(T("un" + nm, "kJ", lambda v, k, f, a0=a0, nm=nm: forall(x_, z3.Implies(z3.And(k <= x_, x_ < n), f.content[x_] == a0[x_]), [f.content[x_]]), only=(nm,)))
            if s.part == "test": continue
            s.templates += [T("gd" + nm, "kiJ", lambda v, k, i, f, a0=a0, nm=nm: forall(x_, z3.Implies(z3.And(rng(k + i, x_), good(x_)), f.content[G(x_)] == a0[x_]), [good(x_)]), only=(nm,), sym=True),
                            T("bd" + nm, "kiJ", lambda v, k, i, f, a0=a0, nm=nm: forall(x_, z3.Implies(z3.And(rng(k + i, x_), z3.Not(good(x_))), f.content[x_ - G(x_)] == a0[x_]), [good(x_)]), only=("w" + nm,), sym=True),
                            T("gf" + nm, "J", lambda v, f, a0=a0, nm=nm: forall(x_, z3.Implies(z3.And(rng(m0, x_), good(x_)), f.content[G(x_)] == a0[x_]), [good(x_)]), only=(nm,)),
                            T("ut" + nm, "J", lambda v, f, a0=a0, nm=nm: forall(x_, z3.Implies(z3.And(m0 <= x_, x_ < n), f.content[x_] == a0[x_]), [f.content[x_]]), only=(nm,)),
                            T("cp" + nm, "kJ", lambda v, k, f, a0=a0, nm=nm: forall(x_, z3.Implies(z3.And(rng(m0, x_), z3.Not(good(x_)), x_ - G(x_) < k), f.content[G(m0) + x_ - G(x_)] == a0[x_]), [good(x_)]), only=(nm,))]
        if s.part != "test": s.templates += [T("cnt", "ki", lambda v, k, i: G(k + i) == k), T("cnto", "ko", lambda v, k, o: G(k + o) == o)]
        s.templates += [T("sum", "ki", lambda v, k, i: z3.And(0 <= k, 0 <= i, k + i == m0), sym=True), T("slt", "ki", lambda v, k, i: z3.And(0 <= k, 0 <= i, k + i < m0), sym=True)]
        s.templates.append(T("cnt2", "ki", lambda v, k, i: z3.And(0 <= k, 0 <= i, k + i <= m0), sym=True))
        return [n, ex.ptr(C.ptr), C.nnz, ex.ptr(C.ind), ex.ptr(C.val), ex.ptr(R.ptr), R.nnz, ex.ptr(R.ind), ex.ptr(R.val), m0] + [ex.ptr(r) for r in rs]
    def bounds(s, ex, st): return {"n": s.n, "m0": s.m0}
    def unfold(s, ex, st, k):
        if s.part == "test": trig(st, s.good(k), s.has(k), s.rmax(s.p[k]), s.cmax(s.q[k]), s.rat(s.p[k]), s.cat(s.q[k]))
        else: trig(st, s.G(k), s.good(k))
    # the diagonal test is used by its contract here; DeferTest proves the contract at every call
    def isgood(s, ex, st, ins, v):
        c = zi(v[1]); ex.prove(st, z3.And(0 <= c, c < s.m0), "pre: position inside the block"); f, g = st.regs[s.rs[0].id].content, st.regs[s.rs[1].id].content
        ex.prove(st, z3.And(f[c] == s.p[c], g[c] == s.q[c]) if s.part == "test" else f[c] == s.p[c] if s.arr == "p" else g[c] == s.q[c], "pre: the position still holds its original row and column"); trig(st, s.good(c), s.G(c))
        if s.part == "test":
            s.unfold(ex, st, c)
            def ret(st2, r):
                ex.prove(st2, zb(r) == s.good(c), "post: the test accepts exactly stored diagonal entries above round-off of the largest entry of their row and column"); st2.frames[-1].env[ins.res] = r
            f = ex.mod.funcs[ins.a[0][1]]; ex.push_frame(st, f, v, ret); return PUSHED
        return s.good(c)
    @property
    def contracts(s): return [(re.compile(r"defer_tiny_diags.*::'lambda0'\(unsigned long\)::operator\(\)\(unsigned long\) const$"), s.isgood)]
    part = "order"; arr = "p"; opts = dict(hout=15000, timeout=30000)
    def ensure(s, ex, st, tag, a):
        if s.part == "test": return
        m, m0, G = zi(a[0]), s.m0, s.G; w, z = fint("w"), fint("z"); st.assume(z3.And(0 <= w, w < m0, m0 <= z, z < s.n)); trig(st, G(m0), G(w), G(w + 1), s.good(w), G(z))
        ex.prove(st, m == G(m0), "post: the leading size is the number of sound diagonal entries")
        ex.prove(st, z3.And(0 <= m, m <= m0), "post: the leading size does not exceed the requested one")
        for r, a0, nm in ((s.rs[0], s.p, "row"), (s.rs[1], s.q, "column")):
            if nm != ("row" if s.arr == "p" else "column"): continue
            f = st.regs[r.id].content
            ex.prove(st, z3.Implies(s.good(w), f[G(w)] == a0[w]), "post: sound positions keep their order in front (%s)" % nm)
            ex.prove(st, z3.Implies(z3.Not(s.good(w)), f[m + w - G(w)] == a0[w]), "post: deferred positions follow in order (%s)" % nm)
            ex.prove(st, f[z] == a0[z], "post: positions beyond the block are unchanged (%s)" % nm)
class DeferTest(Defer):
    name = "pre_defer_test"; part = "test"; opts = {}
class DeferCols(Defer):
    name = "pre_defer_cols"; arr = "q"
TASKS = [Defer, DeferCols, DeferTest]
class Scale(Task):
    """scaling vectors stay strictly positive; the (copied) matrix keeps its pattern"""
    driver = "pre.cpp"; must_cover = (1,); kind = "eye"
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); M = s.M = Comp(ex, st, "r", n, n, writable=True); M.sorted_facts(st)
        s.sr, s.tr = ex.region(st, "s", "double", n), ex.region(st, "t", "double", n)
        pos = lambda f, k: forall(x_, z3.Implies(z3.And(0 <= x_, x_ < k), f.content[x_] > 0), [f.content[x_]])
        nn = lambda f, k: forall(x_, z3.Implies(z3.And(0 <= x_, x_ < k), f.content[x_] >= 0), [f.content[x_]])
        P, Ix = M.P, M.Ix
        oth = lambda f: f != "rval"
        sh = lambda nm, a0: [T("sh" + nm, "k" + ("W" if nm == "rptr" else "J"), lambda v, k, f: forall(x_, f.content[x_] == a0[x_] + z3.If(z3.And(0 <= x_, x_ < k), 1, 0), [f.content[x_]]), only=(nm,))]
        s.templates = [T("posk", "kF", lambda v, k, f: pos(f, k), only=oth), T("posn", "F", lambda v, f: pos(f, n), only=oth), T("nnn", "F", lambda v, f: nn(f, n), only=oth), T("nnf", "f", lambda v, f: f >= 0),
                       T("rk", "ki", lambda v, k, i: z3.And(P[i] <= k, k <= P[i + 1]))] + sh("rptr", P) + sh("rind", Ix)
        if s.kind == "eye": s.templates += [T("onek", "kF", lambda v, k, f: forall(x_, z3.Implies(z3.And(0 <= x_, x_ < k), f.content[x_] == 1), [f.content[x_]]), only=oth), T("onen", "F", lambda v, f: forall(x_, z3.Implies(z3.And(0 <= x_, x_ < n), f.content[x_] == 1), [f.content[x_]]), only=oth)]
        return [n, ex.ptr(M.ptr), M.nnz, ex.ptr(M.ind), ex.ptr(M.val), ex.ptr(s.sr), ex.ptr(s.tr)]
    def bounds(s, ex, st): return {"n": s.n, "nnz": s.M.nnz}
    def unfold(s, ex, st, k): trig(st, s.M.P[k], s.M.P[k + 1])
    def ensure(s, ex, st, tag, a):
        w, z, k = fint("w"), fint("z"), fint("k"); n, M = s.n, s.M; st.assume(z3.And(0 <= w, w < n, 0 <= z, z <= n, 0 <= k, k < M.nnz))
        for r in (s.sr, s.tr):
            f = st.regs[r.id].content
            ex.prove(st, f[w] == 1 if s.kind == "eye" else f[w] > 0, "post: every scaling factor is %s" % ("one" if s.kind == "eye" else "strictly positive"))
        if s.kind == "symm": ex.prove(st, st.regs[s.sr.id].content[w] == st.regs[s.tr.id].content[w], "post: row and column scaling agree")
        f, g = st.regs[M.ptr.id].content, st.regs[M.ind.id].content
        ex.prove(st, f[z] == M.P[z] + 1, "post: start positions are shifted by one"); ex.prove(st, g[k] == M.Ix[k] + 1, "post: indices are shifted by one")
class Poor(Task):
    name = "pre_poor"; driver = "pre.cpp"; fn = "drv_poor"; must_cover = (1,)
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); m0 = s.m0 = ex.int_(st, "m0", 0, BIGD); st.assume(m0 <= n); s.lv = ex.int_(st, "level", 1, 1 << 20)
        p, q = [ex.region(st, x, "i32", n, False) for x in "pq"]; s.sr, s.tr = ex.region(st, "s", "double", n), ex.region(st, "t", "double", n); s.S, s.T0 = s.sr.content, s.tr.content
        pos = lambda f: forall(x_, z3.Implies(z3.And(0 <= x_, x_ < n), f[x_] > 0), [f[x_]])
        for a in (p, q): c = a.content; st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(0 <= c[i_], c[i_] < n)), [c[i_]]))
        for a in (s.S, s.T0): st.assume(pos(a))
        s.templates = [T("pos", "F", lambda v, f: pos(f.content))]
        return [n, m0, s.lv, ex.ptr(p), ex.ptr(q), ex.ptr(s.sr), ex.ptr(s.tr), z3.Real("beta")]
    def bounds(s, ex, st): return {"n": s.n, "m0": s.m0}
    def ensure(s, ex, st, tag, a):
        w = fint("w"); st.assume(z3.And(0 <= w, w < s.n))
        for r, a0 in ((s.sr, s.S), (s.tr, s.T0)):
            f = st.regs[r.id].content; ex.prove(st, f[w] > 0, "post: scaling factors stay strictly positive"); ex.prove(st, z3.Implies(s.lv == 1, f[w] == a0[w]), "post: the first level keeps the scaling of the matching")
TASKS += [Poor] + [type("pre_" + n, (Scale,), dict(name="pre_" + n, fn=f, kind=k)) for n, f, k in (("eye", "drv_eye", "eye"), ("ext", "drv_ext", "gen"), ("exts", "drv_exts", "symm"), ("iter", "drv_iter", "gen"), ("iters", "drv_iters", "symm"))]
