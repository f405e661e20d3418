"""P15: linked lists and value positions of the augmented storage."""
from .common import *
from .perm import bijection
BIGD = (1 << 31) - 1; NIL = (1 << 63) - 1
a_, b_, c_, j_, r_ = z3.Ints("a b c j r")
class Aug(Task):
    """N nodes in L lists.  lst(k) is the list of node k; prv(k) the preceding node of the same list (or -1), as a ghost
    function of the positions alone: the arrays are right iff they agree with it"""
    driver = "aug.cpp"; must_cover = (1,); vp = True
    def setup(s, ex, st):
        L = s.L = ex.int_(st, "L", 0, BIGD); N = s.N = ex.int_(st, "N", 0, NNZ); cap = s.cap = ex.int_(st, "cap", 0, NNZ); st.assume(N <= cap)
        s.ni = ex.region(st, "ni", "i32", cap); s.st_ = ex.region(st, "start", "i64", L); s.nx = ex.region(st, "next", "i64", cap); s.en = ex.region(st, "end", "i64", L)
        s.vp_ = ex.region(st, "vp", "i64", cap); s.vi = ex.region(st, "vpi", "i64", cap); s.ct = ex.region(st, "cnt", "i32", L)
        s.arr = [s.ni, s.st_, s.nx, s.en, s.vp_, s.vi, s.ct]; s.old = {r.id: r.content for r in s.arr}
        s.templates = []
        a = s.more(ex, st)
        return [L, N, cap] + [ex.ptr(r) for r in s.arr] + a
    def bounds(s, ex, st): return {"L": s.L, "N": s.N, "cap": s.cap}
    def now(s, st, r): return st.regs[r.id].content
    def same(s, ex, st, rs, n=None):
        for r in rs: ex.prove(st, forall(r_, z3.Implies(z3.And(0 <= r_, r_ < (s.N if r.id not in (s.st_.id, s.en.id, s.ct.id) else s.L)), s.now(st, r)[r_] == s.old[r.id][r_])), "frame: %s unchanged" % r.name)
    def sizes(s, ex, st, a, n): ex.prove(st, z3.And([zi(a[i]) == (s.L if i in (1, 3, 6) else n) for i in range(7)]), "post: lengths of all arrays")
class Push(Aug):
    name = "aug_push"; fn = "drv_push"
    def lists(s, st, k, c, pre=""):
        """the list arrays agree with the first k nodes"""
        st0, nx, en, ct = c; lst, prv = s.lst, s.prv
        return dict(
          nxt=forall(b_, z3.Implies(z3.And(0 <= b_, b_ < k, prv(b_) >= 0), nx[prv(b_)] == b_), [prv(b_)]),
          nxr=forall(a_, z3.Implies(z3.And(0 <= a_, a_ < k), z3.Or(nx[a_] == NIL, z3.And(a_ < nx[a_], nx[a_] < k, prv(nx[a_]) == a_))), [nx[a_]]),
          end=forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.L), z3.Or(en[j_] == NIL, z3.And(0 <= en[j_], en[j_] < k, lst(en[j_]) == j_))), [en[j_]]),
          last=forall(b_, z3.Implies(z3.And(0 <= b_, b_ < k), z3.And(en[lst(b_)] != NIL, b_ <= en[lst(b_)])), [lst(b_)]),
          sta=forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.L), z3.Or(st0[j_] == NIL, z3.And(0 <= st0[j_], st0[j_] < k, lst(st0[j_]) == j_))), [st0[j_]]),
          fst=forall(b_, z3.Implies(z3.And(0 <= b_, b_ < k), z3.And(st0[lst(b_)] != NIL, st0[lst(b_)] <= b_)), [lst(b_)]),
          cnt=forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.L), ct[j_] == s.C(j_, k)), [ct[j_]]))
    def more(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, NNZ); st.assume(s.N + n <= s.cap); e = s.e = ex.int_(st, "entry", 0, BIGD - 1); tot = s.tot = s.N + n
        f = s.f = ex.region(st, "first", "i32", n, writable=False); st.assume(forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), z3.And(0 <= f.content[r_], f.content[r_] < s.L)), [f.content[r_]]))
        lst, prv, C = s.lst, s.prv, s.C = z3.Function("lst", I, I), z3.Function("prv", I, I), z3.Function("C", I, I, I)
        s.inn = lambda k: z3.And(0 <= k, k < tot)
        st.assume(forall(r_, z3.Implies(z3.And(s.N <= r_, r_ < tot), lst(r_) == f.content[r_ - s.N]), [lst(r_)]))
        st.assume(forall(r_, z3.Implies(s.inn(r_), z3.And(0 <= lst(r_), lst(r_) < s.L)), [lst(r_)]))
        st.assume(forall(r_, z3.Implies(s.inn(r_), z3.And(prv(r_) < r_, z3.Implies(prv(r_) >= 0, lst(prv(r_)) == lst(r_)))), [prv(r_)]))
        st.assume(forall([b_, r_], z3.Implies(z3.And(s.inn(r_), prv(r_) < b_, 0 <= b_, b_ < r_), lst(b_) != lst(r_)), [(prv(r_), lst(b_))]))
        st.assume(forall(j_, C(j_, 0) == 0, [C(j_, 0)]))
        st.assume(forall([j_, r_], z3.Implies(z3.And(s.inn(r_), 0 <= j_, j_ < s.L), z3.And(0 <= C(j_, r_), C(j_, r_) <= r_)), [C(j_, r_)]))
        # number of nodes fits the count type (int)
        st.assume(forall([j_, r_], z3.Implies(z3.And(0 <= r_, r_ <= tot), C(j_, r_) < BIGD), [C(j_, r_)]))
        c0 = [s.old[r.id] for r in (s.st_, s.nx, s.en, s.ct)]
        for f_ in s.lists(st, s.N, c0).values(): st.assume(f_)
        st.assume(forall(r_, z3.Implies(z3.And(0 <= r_, r_ < s.N), s.old[s.ni.id][r_] >= 0), [s.old[s.ni.id][r_]]))
        bijection(st, s.old[s.vp_.id], lambda x: s.old[s.vi.id][x], s.N)
        reg = (s.st_.id, s.nx.id, s.en.id, s.ct.id)
        def t(nm, which):
            def fn(v, k, b):
                if b.id != reg[which]: raise KeyError
                return s.lists(v.st, k, [v.st.regs[x].content for x in reg])[nm]
            return T(nm, "kW" if which != 3 else "kI", fn)
        s.templates = [t("nxt", 1), t("nxr", 1), t("end", 2), t("last", 2), t("sta", 0), t("fst", 0), t("cnt", 3),
                       T("vp", "kW", lambda v, k, b: forall(r_, z3.Implies(z3.And(s.N <= r_, r_ < k), b.content[r_] == r_), [b.content[r_]])),
                       T("vpo", "W", lambda v, b: forall(r_, z3.Implies(z3.And(0 <= r_, r_ < s.N), b.content[r_] == s.old[b.id][r_]), [b.content[r_]])),
                       T("nxo", "kW", lambda v, k, b: z3.And(s.N <= k, k <= tot))]
        return [e, ex.ptr(f), n]
    def unfold(s, ex, st, k):
        trig(st, s.lst(k), s.prv(k), s.prv(k + 1)); st.assume(z3.Implies(s.inn(k), forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.L), s.C(j_, k + 1) == s.C(j_, k) + z3.If(s.lst(k) == j_, 1, 0)), [s.C(j_, k + 1)])))
    def ensure(s, ex, st, tag, a):
        s.sizes(ex, st, a, s.tot); c = [s.now(st, r) for r in (s.st_, s.nx, s.en, s.ct)]
        for nm, f in s.lists(st, s.tot, c).items(): ex.prove(st, f, "post: " + dict(nxt="every node is linked to from the preceding node of its list", nxr="no node links outside its list", end="every list end is a node of the list", last="the list end is the last node", sta="every list head is a node of the list", fst="the list head is the first node", cnt="list lengths")[nm])
        w = fint("w"); st.assume(z3.And(0 <= w, w < s.tot)); ni, vp, vi = s.now(st, s.ni), s.now(st, s.vp_), s.now(st, s.vi); trig(st, vp[w], vi[w], s.old[s.vp_.id][w], s.old[s.vi.id][w])
        ex.prove(st, ni[w] == z3.If(w < s.N, s.old[s.ni.id][w], s.e), "post: new nodes carry the new primary index, old ones keep theirs")
        for A, B, nm in ((vp, vi, "positions"), (vi, vp, "inverse positions")): ex.prove(st, z3.And(0 <= A[w], A[w] < s.tot, B[A[w]] == w), "post: %s stay inverse to each other" % nm)
        ex.prove(st, z3.And(vp[w] == z3.If(w < s.N, s.old[s.vp_.id][w], w)), "post: new nodes sit at their own position, old ones keep theirs")
class Begin(Aug):
    name = "aug_begin"; fn = "drv_begin"
    def more(s, ex, st): return [0]
    def ensure(s, ex, st, tag, a):
        s.sizes(ex, st, a, 0)
        ex.prove(st, forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.L), z3.And(s.now(st, s.st_)[j_] == NIL, s.now(st, s.en)[j_] == NIL, s.now(st, s.ct)[j_] == 0))), "post: every list is empty")
class Pos(Aug):
    """operations on the value positions: N entries, vp and vpi mutually inverse"""
    lo = hi = None
    def more(s, ex, st):
        s.g = z3.Function("vpinv", I, I); VP, VI = s.old[s.vp_.id], s.old[s.vi.id]; inn = lambda x: z3.And(0 <= x, x < s.N)
        for A, B in ((VP, VI), (VI, VP)): st.assume(forall(r_, z3.Implies(inn(r_), z3.And(0 <= A[r_], A[r_] < s.N, B[A[r_]] == r_)), [A[r_]]))
        a = ex.int_(st, "a", 0); b = ex.int_(st, "b", 0); s.a, s.b = a, b
        x, y = z3.Ints("x y")
        if s.kind == "swap": st.assume(z3.And(a < s.N, b < s.N)); s.src = lambda x: z3.If(x == a, b, z3.If(x == b, a, x)); s.dst = s.src; args = [a, b]; s.lo = None
        elif s.kind == "left": st.assume(z3.And(a >= 1, b + a <= s.N)); s.src = lambda x: z3.If(z3.And(b <= x, x < b + a - 1), x + 1, z3.If(x == b + a - 1, b, x)); s.dst = lambda x: z3.If(z3.And(b < x, x < b + a), x - 1, z3.If(x == b, b + a - 1, x)); args = [a, b]; s.lo = b
        else: st.assume(z3.And(a >= 1, b < s.N, b + 1 - a >= 0)); s.src = lambda x: z3.If(z3.And(b + 1 - a < x, x <= b), x - 1, z3.If(x == b + 1 - a, b, x)); s.dst = lambda x: z3.If(z3.And(b + 1 - a <= x, x < b), x + 1, z3.If(x == b, b + 1 - a, x)); args = [a, b]; s.lo = b + 1 - a
        if s.lo is not None:
            done = lambda y, k: z3.And(s.lo <= y, y < s.lo + k)
            s.templates = [T("pos", "kW", lambda v, k, B: forall(r_, z3.Implies(inn(r_), B.content[r_] == z3.If(done(s.dst(VP[r_]), k), s.dst(VP[r_]), VP[r_])), [B.content[r_]]), None),
                           T("poso", "kW", lambda v, k, B: forall(r_, z3.Implies(inn(r_), B.content[r_] == z3.If(done(s.dst(VP[r_]), k), s.dst(VP[r_]), VP[r_])), [VP[r_]]), None)]
        return args
    def unfold(s, ex, st, k):
        if s.lo is not None: trig(st, s.old[s.vi.id][s.src(s.lo + k)], s.old[s.vp_.id][s.old[s.vi.id][s.src(s.lo + k)]])
    def ensure(s, ex, st, tag, a):
        s.sizes(ex, st, a, s.N); s.same(ex, st, [s.ni, s.st_, s.nx, s.en, s.ct]); w = fint("w"); st.assume(z3.And(0 <= w, w < s.N)); VP, VI = s.old[s.vp_.id], s.old[s.vi.id]; vp, vi = s.now(st, s.vp_), s.now(st, s.vi)
        trig(st, VP[w], VI[w], vp[w], vi[w], VI[s.src(w)], vp[vi[w]], vi[vp[w]], VP[VI[s.src(w)]], VI[VP[w]])
        ex.prove(st, vi[w] == VI[s.src(w)], "post: the nodes of the positions are moved as stated"); ex.prove(st, vp[w] == s.dst(VP[w]), "post: the positions of the nodes are moved as stated")
        ex.prove(st, z3.And(0 <= vp[w], vp[w] < s.N, vi[vp[w]] == w), "post: inverse positions undo positions"); ex.prove(st, z3.And(0 <= vi[w], vi[w] < s.N, vp[vi[w]] == w), "post: positions undo inverse positions")
class Heads(Aug):
    name = "aug_heads"; fn = "drv_heads"
    def more(s, ex, st): s.i = ex.int_(st, "i", 0); s.k = ex.int_(st, "k", 0); st.assume(z3.And(s.i < s.L, s.k < s.L)); return [s.i, s.k]
    def ensure(s, ex, st, tag, a):
        s.sizes(ex, st, a, s.N); s.same(ex, st, [s.ni, s.nx, s.vp_, s.vi])
        for r in (s.st_, s.en, s.ct): ex.prove(st, forall(j_, z3.Implies(z3.And(0 <= j_, j_ < s.L), s.now(st, r)[j_] == s.old[r.id][z3.If(j_ == s.i, s.k, z3.If(j_ == s.k, s.i, j_))])), "post: %s of the two lists exchanged, all others kept" % r.name)
def mk(c, nm, fn_, **kw): return type(nm, (c,), dict(name=nm, fn=fn_, **kw))
TASKS = [Push, Begin, Heads, mk(Pos, "aug_swap", "drv_swap", kind="swap"), mk(Pos, "aug_rotl", "drv_rotl", kind="left"), mk(Pos, "aug_rotr", "drv_rotr", kind="right")]
