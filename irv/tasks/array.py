"""P06: the Array container.  Every operation is run on an arbitrary state (owning n of c elements, shared, wrapping, moved-from)."""
from .common import *
i_ = z3.Int("i"); MX = 1 << 40
UNDEF, WRAP, OWN = 0, 1, 2
class S:
    """observed state of one array"""
    def __init__(s, st, a):
        s.p, s.size, s.cap, s.status, s.empty = a[0], zi(a[1]), zi(a[2]), zi(a[3]), zi(a[4])
        s.null = not (isinstance(s.p, Ptr) and s.p.reg); s.reg = None if s.null else st.regs[s.p.reg]
class ArrTask(Task):
    driver = "array.cpp"
    def havoc(s, ex, st, name, v, ins):
        if isinstance(v[0], Ptr) and v[0].reg: st.ghost.setdefault("own", []); st.ghost["own"] = st.ghost["own"] + [(v[0].reg, st.regs[v[0].reg].content)]
    def setup(s, ex, st): s.v = {}; s.x = {}; return s.args(ex, st)
    def n(s, ex, st, nm): s.v[nm] = ex.int_(st, nm, 0, MX); return s.v[nm]
    def buf(s, ex, st, nm, n, writable=False, ty="double"): s.x[nm] = ex.region(st, nm, ty, n, writable=writable); return ex.ptr(s.x[nm])
    def nc(s, ex, st, a="n", b="c"):
        r = [s.n(ex, st, a), s.n(ex, st, b)]; st.assume(r[0] <= r[1]); return r
    def bounds(s, ex, st): return dict(s.v)
    def wf(s, ex, st, a, want=None):
        ex.prove(st, z3.And(a.size >= 0, a.size <= a.cap, (a.empty != 0) == (a.size == 0)), "post: size, capacity and emptiness are consistent")
        if want is not None: ex.prove(st, a.status == want, "post: status")
        if a.null: ex.prove(st, z3.And(a.size == 0, a.cap == 0), "post: an array without data is empty")
        else:
            ex.prove(st, z3.And(a.reg.freed == False if isz(a.reg.freed) else z3.BoolVal(not a.reg.freed), a.p.off.z() == 0, a.cap <= zi(a.reg.len)), "post: capacity is backed by a live buffer")
            ex.prove(st, (a.status == OWN) == z3.BoolVal(a.reg.heap == "new"), "post: owned data is heap data, wrapped data is external")
    def holds(s, ex, st, a, G, n, what):
        w = fint("w"); st2 = st
        c = a.reg.content if a.reg is not None else None
        ex.prove(st, z3.Implies(zi(n) > 0, z3.BoolVal(c is not None)), what)
        if c is not None: ex.prove(st, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < n), c[i_] == G[i_]), [c[i_]]), what)
    def kept(s, ex, st, a, k, n, what="post: exactly the surviving elements are preserved"): s.holds(ex, st, a, st.ghost["own"][k][1], n, what)
    def isbuf(s, ex, st, a, k, what): ex.prove(st, z3.BoolVal(not a.null and a.p.reg == st.ghost["own"][k][0]), what)
    def on_return(s, ex, st, v):
        for r in st.regs.values():
            if r.heap == "new": ex.prove(st, z3.BoolVal(r.freed is True), "every owned buffer and counter is released (exactly once: a second release fails its own obligation)", "end of " + s.fn)
    def ensure(s, ex, st, tag, args): s.post(ex, st, tag, args)
mn = lambda a, b: z3.If(a <= b, a, b)
class Resize(ArrTask):
    must_cover = (1, 2)
    def args(s, ex, st): return s.nc(ex, st) + [s.n(ex, st, "n2"), z3.Bool("presv")]
    def post(s, ex, st, tag, a):
        A = S(st, a); v = s.v; s.wf(ex, st, A, OWN)
        if tag == 1:
            ex.prove(st, A.size == v["n2"], "post: new size"); ex.prove(st, z3.Implies(v["n2"] <= v["c"], A.cap == v["c"]), "post: capacity kept when it suffices")
            s.kept(ex, st, A, 0, z3.If(z3.Bool("presv"), mn(v["n"], v["n2"]), 0))
        else: ex.prove(st, A.size == 0, "post: new size")
class ResizeShared(ArrTask):
    must_cover = (1, 2)
    def args(s, ex, st): return s.nc(ex, st) + [s.n(ex, st, "n2")]
    def post(s, ex, st, tag, a):
        A = S(st, a); v = s.v; s.wf(ex, st, A, OWN); ex.prove(st, A.size == v["n2"], "post: new size"); s.kept(ex, st, A, 0, mn(v["n"], v["n2"]))
        if tag == 1:
            B = S(st, a[5:]); s.wf(ex, st, B, OWN); ex.prove(st, z3.And(B.size == v["n"], B.cap == v["c"]), "post: the shallow copy keeps its size"); s.kept(ex, st, B, 0, v["n"], "post: the shallow copy keeps its elements")
class ResizeEmpty(ArrTask):
    must_cover = (1,)
    def args(s, ex, st): return [s.n(ex, st, "n")]
    def post(s, ex, st, tag, a): A = S(st, a); s.wf(ex, st, A); ex.prove(st, A.size == s.v["n"], "post: new size")
class Reserve(ArrTask):
    must_cover = (1, 2)
    def args(s, ex, st): return s.nc(ex, st) + [s.n(ex, st, "c2")]
    def post(s, ex, st, tag, a):
        A = S(st, a); v = s.v; s.wf(ex, st, A, OWN); ex.prove(st, z3.And(A.size == v["n"], A.cap >= v["c2"], A.cap >= v["c"]), "post: size kept, capacity as requested"); s.kept(ex, st, A, 0, v["n"])
class Push(ArrTask):
    must_cover = (1,); rng = False
    def args(s, ex, st):
        r = s.nc(ex, st); s.v["k"] = 1
        if s.rng: k = ex.int_(st, "k", 0, MX); s.v["k"] = k; return r + [s.buf(ex, st, "x", k), k]
        return r + [z3.Real("v")]
    def post(s, ex, st, tag, a):
        A = S(st, a); v = s.v; n = v["n"]; s.wf(ex, st, A, OWN); ex.prove(st, A.size == n + v["k"], "post: size grows by the number of appended elements"); s.kept(ex, st, A, 0, n)
        if s.rng:
            X = s.x["x"].content; w = fint("w"); st.assume(z3.And(0 <= w, w < v["k"])); ex.prove(st, z3.BoolVal(not A.null), "post: has data")
            if not A.null: trig(st, A.reg.content[n + w], X[w]); ex.prove(st, A.reg.content[n + w] == X[w], "post: the appended elements follow in order")
        elif not A.null: ex.prove(st, A.reg.content[n] == z3.Real("v"), "post: the appended element is last")
class CtorCopy(ArrTask):
    must_cover = (1,)
    def args(s, ex, st): n = s.n(ex, st, "n"); return [s.buf(ex, st, "x", n), n]
    def post(s, ex, st, tag, a): A = S(st, a); s.wf(ex, st, A, OWN); ex.prove(st, A.size == s.v["n"], "post: size"); s.holds(ex, st, A, s.x["x"].content, s.v["n"], "post: copies the external data")
class CtorWrap(ArrTask):
    must_cover = (1, 2, 3, 4, 5, 6)
    def args(s, ex, st): n = s.n(ex, st, "n"); return [s.buf(ex, st, "x", n), n]     # read-only region: any write to it fails
    def post(s, ex, st, tag, a):
        A = S(st, a); s.wf(ex, st, A, OWN if tag == 6 else WRAP); ex.prove(st, A.size == s.v["n"], "post: size"); s.holds(ex, st, A, s.x["x"].content, s.v["n"], "post: shows the external data")
        if tag != 6: ex.prove(st, z3.BoolVal(not A.null and A.p.reg == s.x["x"].id), "post: wraps, no copy is made")
class CtorFill(ArrTask):
    must_cover = (1,)
    def args(s, ex, st): return [s.n(ex, st, "n"), z3.Real("v")]
    def post(s, ex, st, tag, a):
        A = S(st, a); s.wf(ex, st, A, OWN); ex.prove(st, A.size == s.v["n"], "post: size"); c = A.reg.content
        ex.prove(st, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.v["n"]), c[i_] == z3.Real("v")), [c[i_]]), "post: every element has the given value")
class Convert(ArrTask):
    must_cover = (1,)
    def args(s, ex, st): return s.nc(ex, st)
    def post(s, ex, st, tag, a): A = S(st, a); s.wf(ex, st, A, OWN); ex.prove(st, A.size == s.v["n"], "post: size"); s.kept(ex, st, A, 0, s.v["n"], "post: converted elements equal the source")
class Copy(ArrTask):
    must_cover = (1, 2, 3)
    def args(s, ex, st): return s.nc(ex, st) + [z3.Bool("deep")]
    def post(s, ex, st, tag, a):
        v = s.v; A = S(st, a); s.wf(ex, st, A, OWN); s.kept(ex, st, A, 0, v["n"], "post: the source is unchanged"); s.isbuf(ex, st, A, 0, "post: the source keeps its buffer"); ex.prove(st, z3.And(A.size == v["n"], A.cap == v["c"]), "post: the source keeps its size")
        if tag == 3: return
        B = S(st, a[5:]); s.wf(ex, st, B, OWN); ex.prove(st, B.size == v["n"], "post: copy has the same size"); s.kept(ex, st, B, 0, v["n"], "post: copy has the same elements")
        ex.prove(st, z3.BoolVal((A.p.reg == B.p.reg) == (tag == 2)), "post: shallow copies share, deep copies are independent")
class Assign(ArrTask):
    must_cover = (1, 2)
    def args(s, ex, st): return s.nc(ex, st) + s.nc(ex, st, "n2", "c2")
    def post(s, ex, st, tag, a):
        for A in [S(st, a)] + ([S(st, a[5:])] if tag == 1 else []):
            s.wf(ex, st, A, OWN); s.isbuf(ex, st, A, 1, "post: both share the assigned buffer"); ex.prove(st, z3.And(A.size == s.v["n2"], A.cap == s.v["c2"]), "post: size and capacity of the source"); s.kept(ex, st, A, 1, s.v["n2"], "post: the elements of the source")
class AssignStale(ArrTask):
    must_cover = (1,)
    def args(s, ex, st): return s.nc(ex, st) + [s.n(ex, st, "n2")]
    def post(s, ex, st, tag, a):
        A, B = S(st, a), S(st, a[5:])
        for X in (A, B): s.wf(ex, st, X, OWN); ex.prove(st, X.size == s.v["n2"], "post: assignment takes over the size of the source"); s.kept(ex, st, X, 0, mn(s.v["n"], s.v["n2"]), "post: the elements of the source")
class Move(ArrTask):
    must_cover = (1, 2, 3)
    def args(s, ex, st): return s.nc(ex, st) + s.nc(ex, st, "n2", "c2") + [s.n(ex, st, "n3")]
    def post(s, ex, st, tag, a):
        A = S(st, a)
        if tag == 3: s.wf(ex, st, A); ex.prove(st, A.size == s.v["n3"], "post: a moved array can be reused"); return
        if tag == 2: s.wf(ex, st, A); ex.prove(st, z3.And(z3.BoolVal(A.null), A.size == 0), "post: a moved array is empty"); return
        s.wf(ex, st, A, OWN); s.isbuf(ex, st, A, 0, "post: moving takes over the buffer"); ex.prove(st, z3.And(A.size == s.v["n2"], A.cap == s.v["c2"]), "post: moving takes over size and capacity"); s.kept(ex, st, A, 0, s.v["n2"], "post: moving keeps the elements")
        B = S(st, a[5:]); s.wf(ex, st, B); ex.prove(st, z3.And(z3.BoolVal(B.null), B.size == 0), "post: a moved array is empty")
class Swap(ArrTask):
    must_cover = (1, 2)
    def args(s, ex, st): n2 = None; r = s.nc(ex, st); n2 = s.n(ex, st, "n2"); return r + [n2, s.buf(ex, st, "w", n2)]
    def post(s, ex, st, tag, a):
        A = S(st, a)
        if tag == 1:
            s.wf(ex, st, A, WRAP); ex.prove(st, z3.And(z3.BoolVal(not A.null and A.p.reg == s.x["w"].id), A.size == s.v["n2"]), "post: swap exchanges buffers"); s.holds(ex, st, A, s.x["w"].content, s.v["n2"], "post: the wrapped data is untouched")
            A = S(st, a[5:])
        s.wf(ex, st, A, OWN); s.isbuf(ex, st, A, 0, "post: swap exchanges buffers"); ex.prove(st, z3.And(A.size == s.v["n"], A.cap == s.v["c"]), "post: swap exchanges sizes"); s.kept(ex, st, A, 0, s.v["n"], "post: swap keeps elements")
class AssignWrap(ArrTask):
    must_cover = (1, 2)
    def args(s, ex, st): r = s.nc(ex, st); n2 = s.n(ex, st, "n2"); st.assume(n2 >= r[0]); return r + [n2, s.buf(ex, st, "w", n2)]
    def post(s, ex, st, tag, a):
        A = S(st, a)
        if tag == 1: s.wf(ex, st, A, WRAP); ex.prove(st, z3.And(z3.BoolVal(not A.null and A.p.reg == s.x["w"].id), A.size == s.v["n2"]), "post: assignment wraps the same data")
        else: s.wf(ex, st, A, OWN); ex.prove(st, A.size == s.v["c"], "post: a wrapper can be replaced by owned data")
class Steal(ArrTask):
    must_cover = (1, 2, 3, 4)
    def args(s, ex, st): return s.nc(ex, st) + [s.n(ex, st, "n2")]
    def post(s, ex, st, tag, a):
        if tag == 2: A = S(st, a); s.wf(ex, st, A); ex.prove(st, A.size == s.v["n2"], "post: usable after stealing"); return
        p = a[0]; null = not (isinstance(p, Ptr) and p.reg)
        if tag == 4: ex.prove(st, z3.And(z3.BoolVal(null), zi(a[1]) == 0, zi(a[2]) == 0, z3.BoolVal(isinstance(a[3], Ptr) and a[3].reg != 0)), "post: wrapped data cannot be stolen"); return
        ex.prove(st, z3.And(z3.BoolVal(not null and p.reg == st.ghost["own"][0][0] and not st.regs[p.reg].freed), zi(a[1]) == s.v["n"], zi(a[2]) == s.v["c"]), "post: the buffer now belongs to the caller")
        ex.prove(st, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < s.v["n"]), st.regs[p.reg].content[i_] == st.ghost["own"][0][1][i_])), "post: with its elements")
        if tag == 1: A = S(st, a[3:]); s.wf(ex, st, A); ex.prove(st, A.size == 0, "post: the array is empty")
def mk(cls, nm, **kw): return type("arr_" + nm, (cls,), dict(name="arr_" + nm, fn="drv_" + nm, **kw))
TASKS = [mk(Resize, "resize"), mk(ResizeShared, "resize_shared"), mk(ResizeEmpty, "resize_empty"), mk(Reserve, "reserve"), mk(Push, "push"), mk(Push, "push_range", rng=True), mk(Push, "push_n", rng=True),
         mk(CtorCopy, "ctor_copy"), mk(CtorWrap, "ctor_wrap"), mk(CtorFill, "ctor_fill"), mk(Convert, "convert"), mk(Copy, "copy"), mk(Assign, "assign"), mk(AssignStale, "assign_stale"), mk(Move, "move"), mk(Swap, "swap"), mk(AssignWrap, "assign_wrap"), mk(Steal, "steal")]
