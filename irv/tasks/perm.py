"""P08: permutations with inverse.  Ghost inverse functions make 'f is a permutation of 0..n-1' first-order."""
from .common import *
BIGD = 1 << 31
i_, j_ = z3.Ints("i j")

def bijection(st, A, g, n):
    """array A restricted to [0,n) is a permutation with inverse g"""
    st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(A[i_] >= 0, A[i_] < n, g(A[i_]) == i_)), [A[i_]]))
    st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < n), z3.And(g(i_) >= 0, g(i_) < n, A[g(i_)] == i_)), [g(i_)]))

class PermTask(Task):
    driver = "perm.cpp"; must_cover = (1,); inverse_given = False; eye = False; swap = None
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD)
        s.f = ex.region(st, "f", "i32", n); s.g = ex.region(st, "g", "i32", n)
        s.F0, s.G0 = s.f.content, s.g.content; s.h = z3.Function("finv", I, I)
        a = [n, ex.ptr(s.f), ex.ptr(s.g)]
        if not s.eye: bijection(st, s.F0, s.h, n)
        if s.inverse_given: st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < n), s.G0[i_] == s.h(i_)), [s.G0[i_]], ))
        if s.swap:
            s.i = ex.int_(st, "pi", 0); s.j = ex.int_(st, "pj", 0); st.assume(z3.And(s.i < n, s.j < n)); a += [s.i, s.j]
        s.templates = [T("inv", "kI", lambda v, k, g: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), g.content[s.F0[i_]] == i_), [s.F0[i_]])),
                       T("eye", "kI", lambda v, k, f: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), f.content[i_] == i_), [f.content[i_]]))]
        return a
    def bounds(s, ex, st): return {"n": s.n}
    def ensure(s, ex, st, tag, args):
        n = s.n; F, G = st.regs[args[0].reg].content, st.regs[args[1].reg].content
        r = lambda x: z3.And(0 <= x, x < n)
        w = fint("w"); st.assume(r(w)); trig(st, s.h(w), F[w], G[w])     # an arbitrary position
        ex.prove(st, z3.And(F[w] >= 0, F[w] < n, G[w] >= 0, G[w] < n), "post: both maps stay inside 0..n-1")
        ex.prove(st, G[F[w]] == w, "post: the inverse undoes the permutation")
        ex.prove(st, F[G[w]] == w, "post: the permutation undoes the inverse")
        if s.eye: ex.prove(st, forall(i_, z3.Implies(r(i_), F[i_] == i_)), "post: identity")
        elif s.swap == "p":
            ex.prove(st, forall(i_, z3.Implies(r(i_), F[i_] == z3.If(i_ == s.i, s.F0[s.j], z3.If(i_ == s.j, s.F0[s.i], s.F0[i_])))), "post: exactly positions i and j are exchanged")
        elif s.swap == "inv":
            ex.prove(st, forall(i_, z3.Implies(r(i_), G[i_] == z3.If(i_ == s.i, s.G0[s.j], z3.If(i_ == s.j, s.G0[s.i], s.G0[i_])))), "post: exactly inverse positions i and j are exchanged")
        else: ex.prove(st, forall(i_, z3.Implies(r(i_), F[i_] == s.F0[i_])), "post: the permutation itself is unchanged")

class Reorder(Task):
    """do_preprocessing after the matching: applies the reordering to the first m positions only, for p and q"""
    driver = "perm.cpp"; must_cover = (1,)
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); m = s.m = ex.int_(st, "m", 0); st.assume(m <= n)
        s.ro = ex.int_(st, "reorder", 0, s.REORDER_NULL - 1)
        s.F, s.h = [], []; s.reg = []
        for q in "pq":
            f = ex.region(st, "f" + q, "i32", n); g = ex.region(st, "g" + q, "i32", n); h = z3.Function("inv_" + q, I, I)
            bijection(st, f.content, h, n); s.F.append(f.content); s.h.append(h); s.reg.append((f, g))
        s.P = ex.region(st, "P", "i64", m, writable=False); s.Pi = z3.Function("P_inv", I, I)
        bijection(st, s.P.content, s.Pi, m)
        P = s.P.content
        s.templates = []
        for w in (0, 1):
            for done in (0, 1):
                s.templates += [
                    T("lead%d" % w, "kI", lambda v, k, b, w=w: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k, i_ < m), b.content[i_] == s.F[w][P[i_]]), [b.content[i_]])),
                    T("tail%d" % w, "kI", lambda v, k, b, w=w: forall(i_, z3.Implies(z3.And(m <= i_, i_ < k), b.content[i_] == s.F[w][i_]), [b.content[i_]])),
                    T("leadm%d" % w, "I", lambda v, b, w=w: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < m), b.content[i_] == s.F[w][P[i_]]), [b.content[i_]]))]
            # build_inv runs over the already reordered forward array (the one not written in the loop)
            s.templates += [T("inv%d" % w, "kI", lambda v, k, b, w=w: s.invt(v, k, b, w)), T("inw%d" % w, "kI", lambda v, k, b, w=w: s.invt0(v, k, b, w))]
        return [n, m, ex.int_(st, "m0", 0, BIGD), ex.int_(st, "nr", 0, BIGD), ex.int_(st, "level", 0, 1000), s.ro, ex.ptr(s.reg[0][0]), ex.ptr(s.reg[0][1]), ex.ptr(s.reg[1][0]), ex.ptr(s.reg[1][1]), ex.ptr(s.P), z3.Bool("symm")]
    REORDER_NULL = 4
    def invt(s, v, k, b, w):
        # forward array lives in the former inverse buffer g
        fw = v.st.regs[s.reg[w][1].id].content
        if b.id != s.reg[w][0].id: raise KeyError
        return forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), b.content[fw[i_]] == i_), [fw[i_]])
    def invt0(s, v, k, b, w):
        fw = v.st.regs[s.reg[w][0].id].content
        if b.id != s.reg[w][1].id: raise KeyError
        return forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), b.content[fw[i_]] == i_), [fw[i_]])
    def bounds(s, ex, st): return {"n": s.n, "m": s.m}
    def ensure(s, ex, st, tag, args):
        n, m, P = s.n, s.m, s.P.content
        r = lambda x: z3.And(0 <= x, x < n)
        ex.prove(st, zi(args[4]) == m, "post: returns the leading block size of the matching")
        for w in (0, 1):
            F, G = st.regs[args[2 * w].reg].content, st.regs[args[2 * w + 1].reg].content; F0, h = s.F[w], s.h[w]; nm = "pq"[w]
            # s.ro == 0 is REORDER_OFF
            ex.prove(st, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < m), F[i_] == z3.If(s.ro == 0, F0[i_], F0[P[i_]]))), "post: %s = old %s composed with the reordering on the leading block" % (nm, nm))
            ex.prove(st, forall(i_, z3.Implies(z3.And(m <= i_, i_ < n), F[i_] == F0[i_])), "post: positions of %s behind the leading block unchanged" % nm)
            x = fint("w"); st.assume(r(x))
            src = z3.If(z3.And(h(x) < m, s.ro != 0), s.Pi(h(x)), h(x))      # the position that must now hold x
            trig(st, h(x), s.Pi(h(x)), F[src], F[x])
            ex.prove(st, z3.And(F[x] >= 0, F[x] < n, G[F[x]] == x), "post: inverse of %s undoes it" % nm)
            ex.prove(st, z3.And(src >= 0, src < n, F[src] == x), "post: %s is onto" % nm)
            ex.prove(st, z3.And(G[x] >= 0, G[x] < n, F[G[x]] == x), "post: %s undoes its inverse" % nm)
def mk(cls, nm, fn_, **kw): return type(nm, (cls,), dict(name=nm, fn=fn_, **kw))
TASKS = [mk(PermTask, "perm_build_inv", "drv_build_inv"), mk(PermTask, "perm_make_eye", "drv_make_eye", eye=True),
         mk(PermTask, "perm_interchange", "drv_interchange", inverse_given=True, swap="p"), mk(PermTask, "perm_interchange_inv", "drv_interchange_inv", inverse_given=True, swap="inv"),
         mk(Reorder, "perm_reorder_prefix", "drv_reorder")]
