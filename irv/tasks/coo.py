"""P01/P21: coordinate entries into compressed storage: every entry exactly once, rows sorted"""
from .common import *
from .count import *
from .. import ir
from ..sym import lin_of
from ..sym import Lin, Ptr, zi, zr, isz
import re
BIG = (1 << 31) - 1; p_, i_, j_ = z3.Int("p"), z3.Int("i"), z3.Int("j")
class Coo(Task):
    name = "coo2cs"; driver = "coo.cpp"; fn = "drv_coo"; must_cover = (1,); prop = "P01"
    def setup(s, ex, st):
        n, k, nz = s.n, s.k, s.nz = ex.int_(st, "nprim", 0, BIG), ex.int_(st, "nsec", 0, BIG), ex.int_(st, "nnz", 0, 1 << 40)
        R = s.R = ex.region(st, "pidx", "i32", nz); Q = s.Q = ex.region(st, "sids", "i32", nz); V = s.V = ex.region(st, "coov", "double", nz)
        for r in (R, Q, V): r.writable = False
        s.r, s.c, s.v = r, c, v = R.content, Q.content, V.content
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < nz), z3.And(0 <= r[i_], r[i_] < n)), [r[i_]])); st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < nz), z3.And(0 <= c[i_], c[i_] < k)), [c[i_]]))
        C = s.C = Count(ex, st, nz, n, lambda q: r[q]); st.assume(C.tot(nz) == nz); ex.valid("every position is taken: tot(q) = q (induction step)", [z3.Int("a") == z3.Int("b")], z3.Int("a") + 1 == z3.Int("b") + 1)
        # no position of the matrix occurs twice: H(row, column) is the entry there, M its value
        H, M = s.H, s.M = z3.Function("H", I, I, I), z3.Function("M", I, I, z3.RealSort())
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < nz), z3.And(H(r[i_], c[i_]) == i_, M(r[i_], c[i_]) == v[i_])), [C.D(i_)]))
        # the entry that lands at position p, and its row
        s.inv, s.row = z3.Function("inv", I, I), z3.Function("rowat", I, I); inv, row = s.inv, s.row
        a, c0, c1, t, kk = z3.Ints("a c0 c1 t kk")
        ex.valid("counting: the t-th entry of a row exists (induction step over positions)", [c1 == c0 + z3.If(kk == a, 1, 0), 0 <= t, t < c1, t >= c0], z3.And(kk == a, t == c0))
        st.assume(forall([c_, p_], z3.Implies(z3.And(0 <= c_, c_ < n, C.S(c_) <= p_, p_ < C.S(c_ + 1)), z3.And(row(p_) == c_)), [(C.S(c_), row(p_))]))
        st.assume(forall(p_, z3.Implies(z3.And(0 <= p_, p_ < nz), z3.And(0 <= row(p_), row(p_) < n, C.S(row(p_)) <= p_, p_ < C.S(row(p_) + 1), 0 <= inv(p_), inv(p_) < nz, r[inv(p_)] == row(p_), C.D(inv(p_)) == p_)), [row(p_)]))
        s.templates = s.tmpl()
        return [n, k, nz, ex.ptr(R), ex.ptr(Q), ex.ptr(V)]
    def isent(s, i, b):
        """column b is an entry of row i"""
        h = s.H(i, b); return z3.And(0 <= h, h < s.nz, s.r[h] == i, s.c[h] == b, 0 <= b, b < s.k)
    def tmpl(s):
        C, n, nz, row, M = s.C, s.n, s.nz, s.row, s.M; cin = z3.And(0 <= c_, c_ < n); S = C.S
        inp = z3.And(0 <= p_, p_ < nz)
        return [T("zero", "W", lambda v, b: b.content[0] == 0), T("last", "W", lambda v, b: b.content[n] == S(n)),
                T("fill", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ < q), b.content[c_] == 0), [b.content[c_]])),
                T("hist", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(1 <= c_, c_ <= n), b.content[c_] == C.cnt(c_ - 1, q)), [b.content[c_]])),
                T("accL", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= q), b.content[c_] == S(c_)), [b.content[c_]])),
                T("accR", "kW", lambda v, q, b: forall(c_, z3.Implies(z3.And(q < c_, c_ <= n), b.content[c_] == C.cnt(c_ - 1, nz)), [b.content[c_]])),
                T("curr", "kW", lambda v, q, b: forall(c_, z3.Implies(cin, b.content[c_] == S(c_) + C.cnt(c_, q)), [b.content[c_]])),
                T("idx", "kJ", lambda v, q, b: forall(r_, z3.Implies(z3.And(0 <= r_, r_ < q), b.content[C.D(r_)] == s.c[r_]), [C.D(r_)])),
                T("val", "kF", lambda v, q, b: forall(r_, z3.Implies(z3.And(0 <= r_, r_ < q), b.content[C.D(r_)] == s.v[r_]), [C.D(r_)])),
                T("shL", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(0 <= c_, c_ < i), b.content[c_] == S(c_) + C.cnt(c_, nz)), [b.content[c_]])),
                T("shR", "kW", lambda v, i, b: forall(c_, z3.Implies(z3.And(i < c_, c_ <= n), b.content[c_] == S(c_)), [b.content[c_]])),
                # sorting the rows
                T("ent", "J", lambda v, b: forall(p_, z3.Implies(inp, s.isent(row(p_), b.content[p_])), [b.content[p_]])),
                T("dist", "J", lambda v, b: forall([p_, r_], z3.Implies(z3.And(0 <= p_, p_ < r_, r_ < nz, row(p_) == row(r_)), b.content[p_] != b.content[r_]), [(b.content[p_], b.content[r_])])),
                T("vale", "JF", lambda v, b, x: forall(p_, z3.Implies(inp, x.content[p_] == M(row(p_), b.content[p_])), [b.content[p_]], [x.content[p_]]) if False else forall(p_, z3.Implies(inp, x.content[p_] == M(row(p_), b.content[p_])), [row(p_)])),
                T("bkp", "koFJ", lambda v, k, o, x, b: forall(p_, z3.Implies(z3.And(S(o) <= p_, p_ < k), x.content[b.content[p_]] == M(o, b.content[p_])), [b.content[p_]])),
                T("cpy", "koFJ", lambda v, k, o, x, b: forall(p_, z3.Implies(z3.And(inp, z3.Or(p_ < k, p_ >= S(o + 1))), x.content[p_] == M(row(p_), b.content[p_])), [row(p_)])),
                T("kin", "ko", lambda v, k, o: z3.And(S(o) <= k, k <= S(o + 1))),
                T("srt", "kJ", lambda v, i, b: forall([p_, r_], z3.Implies(z3.And(0 <= p_, p_ < r_, r_ < S(i), row(p_) == row(r_)), b.content[p_] < b.content[r_]), [(b.content[p_], b.content[r_])]))]
    def bounds(s, ex, st): return {"n": s.n, "nz": s.nz}
    def unfold(s, ex, st, q):
        s.C.unfold(ex, st, q); s.C.unfold(ex, st, q - 1); trig(st, s.row(q), s.C.S(q), s.C.S(q + 1))
    def ensure(s, ex, st, tag, a):
        C = s.C; O = st.regs[a[0].reg].content; ex.prove(st, z3.And(zi(a[1]) == s.n + 1, zi(a[3]) == s.nz, zi(a[5]) == s.nz), "post: sizes")
        ex.prove(st, forall(c_, z3.Implies(z3.And(0 <= c_, c_ <= s.n), O[c_] == C.S(c_))), "post: start array counts the entries of every row"); trig(st, C.S(s.n)); ex.prove(st, O[s.n] == s.nz, "post: as many entries as the source")
        if not (isinstance(a[2], Ptr) and a[2].reg): ex.prove(st, s.nz == 0, "post: data is there"); return
        X, V = st.regs[a[2].reg].content, st.regs[a[4].reg].content; w, z = fint("w"), fint("z"); st.assume(z3.And(0 <= w, w < s.nz, 0 <= z, z < s.nz)); trig(st, s.row(w), s.row(z), X[w], X[z])
        ex.prove(st, s.isent(s.row(w), X[w]), "post: what is stored in a row is an entry of the source in that row"); ex.prove(st, V[w] == s.v[s.H(s.row(w), X[w])], "post: with its value")
        ex.prove(st, z3.Implies(z3.And(w < z, s.row(w) == s.row(z)), X[w] < X[z]), "post: rows are sorted, no entry is stored twice")
    # ------------------------------------------------------------ callees
    def loc(s, st, v):
        """a local array of the function: by its contract (a size and as many elements)"""
        return st.ghost.get(("arr", v[0].reg))
    def ctor(s, ex, st, ins, v):
        if st.regs[v[0].reg].name.startswith("drv_"): return NotImplemented
        w = ex.region(st, fresh_name("buf"), "double", z3.IntVal(1 << 62)); z = ex.cells(st, fresh_name("bufsize"), 8); z.content[0] = (8, z3.IntVal(0)); st.ghost[("arr", v[0].reg)] = (w.id, z.id); return None
    def size_(s, st, l): return zi(st.regs[l[1]].content[0][1])
    def resize(s, ex, st, ins, v):
        l = s.loc(st, v)
        if l is None: return NotImplemented
        if len(v) > 2 and v[2] is not True and v[2] != 1: raise Unsupported("resize without preserving")
        ex.prove(st, zi(v[1]) >= 0, "pre: size"); ex.store(st, Ptr(l[1]), ir.INT(64), v[1]); return None
    def at(s, ex, st, ins, v):
        l = s.loc(st, v)
        if l is None: return NotImplemented
        ex.prove(st, z3.And(0 <= zi(v[1]), zi(v[1]) < s.size_(st, l)), "in-bounds element of the buffer"); return Ptr(l[0], Lin(8) * 1 if False else lin_of(v[1]).scale(8))
    def status(s, ex, st, ins, v):
        l = s.loc(st, v)
        if l is None: return NotImplemented
        x = ex.int_(st, fresh_name("status"), 0, 3); st.assume(z3.Implies(s.size_(st, l) > 0, x != UNDEFD)); return x
    def size(s, ex, st, ins, v):
        l = s.loc(st, v); return NotImplemented if l is None else s.size_(st, l)
    def dtor(s, ex, st, ins, v): return NotImplemented if s.loc(st, v) is None else None
    def rng(s, ex, st, v):
        a, b = v[0], v[1]
        if a.reg == 0 and b.reg == 0: return None, 0, 0
        r = st.regs[a.reg]; lo, hi = s.elem(a), s.elem(b); ex.prove(st, z3.And(z3.BoolVal(a.reg == b.reg), 0 <= lo, lo <= hi, hi <= zi(r.len)), "pre: a range of the array"); return r, lo, hi
    def elem(s, p): return p.off.div(4).z() if hasattr(p.off, "div") else p.off.z() / 4
    def sorted_(s, ex, st, ins, v):
        r, lo, hi = s.rng(ex, st, v); x = z3.Bool(fresh_name("sorted"))
        if r is not None: c = r.content; st.assume(z3.Implies(x, forall([p_, r_], z3.Implies(z3.And(lo <= p_, p_ < r_, r_ < hi), c[p_] <= c[r_]), [(c[p_], c[r_])])))
        return x
    def sort(s, ex, st, ins, v):
        r, lo, hi = s.rng(ex, st, v)
        if r is None: return None
        c = r.content; w, z = fint("w"), fint("z"); st2 = st.copy(); st2.assume(z3.And(lo <= w, w < z, z < hi)); trig(st2, c[w], c[z], s.row(w), s.row(z)); ex.prove(st2, c[w] != c[z], "the indices of a row differ")
        pi = z3.Function(fresh_name("perm"), I, I); ex.mark_write(st, r); r = r.copy(); d = r.content = z3.Const(fresh_name("sorted"), c.sort()); st.regs[r.id] = r
        st.assume(forall(p_, z3.If(z3.And(lo <= p_, p_ < hi), z3.And(d[p_] == c[pi(p_)], lo <= pi(p_), pi(p_) < hi), d[p_] == c[p_]), [d[p_]]))
        st.assume(forall([p_, r_], z3.Implies(z3.And(lo <= p_, p_ < r_, r_ < hi), d[p_] < d[r_]), [(d[p_], d[r_])]))
        return None
    @property
    def contracts(s):
        a = r"^hif::Array<double>::"
        return [(re.compile(a + r"Array\(\)"), s.ctor), (re.compile(a + "~Array"), s.dtor), (re.compile(a + "resize"), s.resize), (re.compile(a + r"operator\[\]"), s.at), (re.compile(a + "status"), s.status), (re.compile(a + "size"), s.size),
                (re.compile(r"^bool std::is_sorted<int const\*>\("), s.sorted_), (re.compile(r"^void std::sort<int\*>\("), s.sort)]
UNDEFD = 0
TASKS = [Coo]
