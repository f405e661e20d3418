"""P21: reading and writing MatrixMarket files.  A file is a sequence of scans: the t-th scan delivers the tokens of the t-th entry, or fails."""
from .common import *
from .. import ir
from ..sym import Lin, Ptr, END, zi, zr, isz
import re
i_, j_ = z3.Int("i"), z3.Int("j"); MX = 1 << 40; IMAX = (1 << 31) - 1
GEN, SYMM, HERM, SKEW = range(4)
def cstring(ex, st, p):
    """text of a constant string"""
    nm = st.regs[p.reg].name.lstrip("@").strip('"'); d = ex.mod.globals.get(nm, "")
    m = re.search(r'\[\d+ x i8\] c"(.*?)"', d)
    if not m: raise Unsupported("format string")
    s = re.sub(r"\\([0-9A-F]{2})", lambda x: chr(int(x.group(1), 16)), m.group(1))
    return s.split("\0")[0]
KINDS = {"%d": ("i", 4), "%i": ("i", 4), "%u": ("u", 4), "%ld": ("i", 8), "%lld": ("i", 8), "%lu": ("u", 8), "%llu": ("u", 8), "%zu": ("u", 8), "%zd": ("i", 8), "%lg": ("d", 8), "%lf": ("d", 8), "%le": ("d", 8), "%g": ("d", 4), "%f": ("d", 4)}
class IoTask(Task):
    driver = "io.cpp"; must_cover = (1,); prop = "P21"; templates = ()
    def file(s, ex, st):
        s.F = ex.cells(st, "file", 8); s.F.content[0] = (8, z3.IntVal(0)); s.F.heap = None
        st.ghost["closed"] = 0; return Ptr(s.F.id)
    def scanned(s, st): return zi(st.regs[s.F.id].content[0][1])
    def fmt(s, ex, st, p):
        t = cstring(ex, st, p).split()
        if any(x not in KINDS for x in t): raise Unsupported("scan format %r" % t)
        return [KINDS[x] for x in t]
    def put(s, ex, st, dst, kind, val):
        k, z = kind
        if k == "d": ex.store(st, dst, ir.F64 if z == 8 else ir.F32, val); return
        if z == 8: ex.store(st, dst, ir.INT(64), val); return
        w = ex.int_(st, "narrow", -(1 << 31), IMAX); st.assume(z3.Implies(z3.And(val >= -(1 << 31), val <= IMAX), w == val)); ex.store(st, dst, ir.INT(32), w)   # a token outside of the range of int is mangled
    def fclose(s, ex, st, ins, v): st.ghost["closed"] = st.ghost.get("closed", 0) + 1; return 0
    def fscanf(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(isinstance(v[0], Ptr) and v[0].reg == s.F.id and st.ghost["closed"] == 0), "pre: reads from the open file")
        t = s.scanned(st); k = s.fmt(ex, st, v[1]); ex.prove(st, z3.BoolVal([x[0] for x in k] == s.toks), "pre: the format reads one entry (%s)" % s.toks)
        if [x[0] for x in k] != s.toks: raise Unsupported("format")
        got = s.Got(t); st.assume(z3.And(got >= -1, got <= len(k)))
        for q, (kd, dst) in enumerate(zip(k, v[2:])): s.put(ex, st, dst, kd, s.tok(q, t))
        ex.store(st, Ptr(s.F.id), ir.INT(64), t + 1)
        return got
    def error(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(st.ghost["closed"] == 1), "the file is closed once before an error is reported"); return END
    @property
    def contracts(s): return [(re.compile(r"^(__isoc\d+_|__isoc23_)?fscanf$"), s.fscanf), ("fclose", s.fclose), (re.compile(r"^hif::error\("), s.error)] + s.more()
    def more(s): return []
class Sparse(IoTask):
    type = GEN; real = True
    def setup(s, ex, st):
        s.R, s.C = z3.Function("row", I, I), z3.Function("col", I, I); s.VR, s.VI = z3.Function("re", I, z3.RealSort()), z3.Function("im", I, z3.RealSort()); s.Got = z3.Function("got", I, I)
        s.pos = z3.Function("pos", I, I); s.nt = 3 if s.real else 4; s.toks = ["i", "i", "d"] + ([] if s.real else ["d"])
        m, n, nz = s.m, s.n, s.nz = ex.int_(st, "m", 0, IMAX), ex.int_(st, "n", 0, IMAX), ex.int_(st, "nnz", 0, MX)
        if s.type: st.assume(m == n)
        b = 1 << 62; st.assume(forall(i_, z3.And(s.R(i_) >= -b, s.R(i_) <= b), [s.R(i_)])); st.assume(forall(i_, z3.And(s.C(i_) >= -b, s.C(i_) <= b), [s.C(i_)]))
        pos = s.pos; st.assume(pos(0) == 0)
        if s.type == GEN: st.assume(forall(i_, pos(i_) == i_, [pos(i_)]))
        else:
            a, c, c1, x = z3.Ints("a c c1 x")
            ex.valid("positions: induction step of pos(i)+width(i) <= pos(j)", [a <= c, z3.Or(c1 == c + 1, c1 == c + 2)], a <= c1)
            ex.valid("positions: induction step of i <= pos(i) <= 2i", [x <= c, c <= 2 * x, z3.Or(c1 == c + 1, c1 == c + 2)], z3.And(x + 1 <= c1, c1 <= 2 * (x + 1)))
            st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_), pos(i_) + s.w(i_) <= pos(j_)), [(pos(i_), pos(j_))]))
            st.assume(forall(i_, z3.Implies(i_ >= 0, z3.And(i_ <= pos(i_), pos(i_) <= 2 * i_)), [pos(i_)]))
        s.templates = s.tmpl()
        return [s.file(ex, st), m, n, nz]
    def w(s, i): return z3.If(s.R(i) == s.C(i), 1, 2) if s.type else z3.IntVal(1)
    def tok(s, q, t): return [s.R, s.C, s.VR, s.VI][q](t)
    def good(s, i): return z3.And(s.Got(i) == s.nt, s.R(i) >= 1, s.R(i) <= s.m, s.C(i) >= 1, s.C(i) <= s.n)
    def unfold(s, ex, st, k):
        if s.type: st.assume(z3.Implies(k >= 0, s.pos(k + 1) == s.pos(k) + s.w(k)))
        trig(st, s.pos(k), s.R(k), s.C(k))
    def mir(s, i):
        """value of the mirrored entry"""
        r, q = s.VR(i), s.VI(i)
        return (r, q) if s.type == SYMM else (r, -q) if s.type == HERM else (-r, -q)
    def have(s, b, what, j):
        """entry j in array b"""
        p = s.pos(j); off = z3.And(s.type != GEN, s.R(j) != s.C(j)) if s.type else z3.BoolVal(False)
        A, B = (s.R, s.C) if what == "r" else (s.C, s.R)
        if what in "rc": return z3.And(b[p] == A(j) - 1, z3.Implies(off, b[p + 1] == B(j) - 1))
        a, c = s.mir(j)
        if s.real: return z3.And(b[p] == s.VR(j), z3.Implies(off, b[p + 1] == a))
        return z3.And(b[2 * p] == s.VR(j), b[2 * p + 1] == s.VI(j), z3.Implies(off, z3.And(b[2 * p + 2] == a, b[2 * p + 3] == c)))
    def upto(s, b, what, k): return forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), s.have(b, what, j_)), [s.pos(j_)])
    def tmpl(s):
        z = [] if s.real else [T("even", "k", lambda v, k: k % 2 == 0), T("lt", "k", lambda v, k: k < 2 * s.nz * (2 if s.type else 1))]
        return z + [T("cnt", "ki", lambda v, k, i: i == k), T("at", "ki", lambda v, k, i: i == s.pos(k)),
                T("okG", "k", lambda v, k: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), s.Got(j_) == s.nt), [s.Got(j_)])),
                T("okR", "k", lambda v, k: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), z3.And(s.R(j_) >= 1, s.R(j_) <= s.m)), [s.R(j_)])),
                T("okC", "k", lambda v, k: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), z3.And(s.C(j_) >= 1, s.C(j_) <= s.n)), [s.C(j_)])),
                T("row", "kJ", lambda v, k, b: s.upto(b.content, "r", k)), T("col", "kJ", lambda v, k, b: s.upto(b.content, "c", k)), T("val", "kF", lambda v, k, b: s.upto(b.content, "v", k))]
    def bounds(s, ex, st): return {"nnz": s.nz}
    def ensure(s, ex, st, tag, a):
        k = s.nz; s.unfold(ex, st, k); r, nr, c, nc, v, nv = a
        ex.prove(st, z3.BoolVal(st.ghost["closed"] == 0), "post: the file stays open for the caller")
        ex.prove(st, s.scanned(st) == k, "post: every announced entry is read")
        ex.prove(st, z3.And(zi(nr) == s.pos(k), zi(nc) == s.pos(k), zi(nv) == s.pos(k)), "post: sizes are those of the expanded matrix")
        w = fint("w"); st.assume(z3.And(0 <= w, w < k)); s.unfold(ex, st, w); trig(st, s.Got(w))
        ex.prove(st, s.good(w), "post: nothing malformed is accepted (complete entries inside of the matrix)")
        for p, what, nm in ((r, "r", "row"), (c, "c", "column"), (v, "v", "value")):
            if isinstance(p, Ptr) and p.reg: ex.prove(st, s.have(st.regs[p.reg].content, what, w), "post: %s of every entry and of its mirror image" % nm)
            else: ex.prove(st, k == 0, "post: data is there")
def mk(base, nm, fn_, **kw): return type(nm, (base,), dict(name=nm, fn=fn_, **kw))
TASKS = [mk(Sparse, "mm_sparse_%d%d" % (t, r), "drv_sp_%d%d" % (t, r), type=t, real=bool(r)) for r in (1, 0) for t in range(4)]
class Vec(IoTask):
    real = True
    def setup(s, ex, st):
        s.VR, s.VI = z3.Function("re", I, z3.RealSort()), z3.Function("im", I, z3.RealSort()); s.Got = z3.Function("got", I, I); s.toks = ["d"] * (1 if s.real else 2)
        s.n = ex.int_(st, "n", 0, MX); q = 1 if s.real else 2
        s.templates = [T("cnt", "ki", lambda v, k, i: i == k), T("ok", "k", lambda v, k: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), s.Got(j_) == q), [s.Got(j_)])),
                       T("val", "kF", lambda v, k, b: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), b.content[q * j_] == s.VR(j_)), [s.VR(j_)])),
                       T("im", "kF", lambda v, k, b: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < k), b.content[q * j_ + 1] == s.VI(j_)), [s.VI(j_)]) if q == 2 else z3.BoolVal(True)),
                       T("even", "k", lambda v, k: k % 2 == 0), T("lt", "k", lambda v, k: k < 2 * s.n)]
        return [s.file(ex, st), s.n]
    def tok(s, q, t): return (s.VR, s.VI)[q](t)
    def unfold(s, ex, st, k): trig(st, s.Got(k), s.VR(k), s.VI(k))
    def bounds(s, ex, st): return {"n": s.n}
    def ensure(s, ex, st, tag, a):
        ex.prove(st, z3.BoolVal(st.ghost["closed"] == 0), "post: the file stays open for the caller"); ex.prove(st, s.scanned(st) == s.n, "post: every announced value is read"); ex.prove(st, zi(a[1]) == s.n, "post: size of the vector")
        w = fint("w"); st.assume(z3.And(0 <= w, w < s.n)); trig(st, s.Got(w), s.VR(w), s.VI(w))
        ex.prove(st, s.Got(w) == len(s.toks), "post: nothing malformed is accepted (complete values)")
        if isinstance(a[0], Ptr) and a[0].reg: b = st.regs[a[0].reg].content; q = len(s.toks); ex.prove(st, b[q * w] == s.VR(w), "post: every value is the one of the file"); s.real or ex.prove(st, b[q * w + 1] == s.VI(w), "post: every value is the one of the file (imaginary part)")
        else: ex.prove(st, s.n == 0, "post: data is there")
class Sizes(IoTask):
    """lines: the t-th line starts with ch(t); scanning it yields got(t) of the numbers tok(q,t)"""
    nt = 3
    def setup(s, ex, st):
        s.Tk = z3.Function("tok", I, I, I); s.Ch = z3.Function("ch", I, I); s.Got = z3.Function("got", I, I); s.toks = ["i"] * s.nt
        b = 1 << 62; st.assume(forall([i_, j_], z3.And(s.Tk(i_, j_) >= -b, s.Tk(i_, j_) <= b), [s.Tk(i_, j_)]))
        st.assume(forall(i_, z3.And(s.Ch(i_) >= -128, s.Ch(i_) < 128), [s.Ch(i_)]))
        o = [ex.region(st, nm, "i64", 1) for nm in ("om", "on", "ok")[:s.nt]]
        return [s.file(ex, st)] + [ex.ptr(x) for x in o]
    def tok(s, q, t): return s.Tk(q, t)
    def fgets(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(isinstance(v[2], Ptr) and v[2].reg == s.F.id and st.ghost["closed"] == 0), "pre: reads from the open file")
        t = s.scanned(st); st2 = st.copy(); r = st.regs[v[0].reg]
        ex.prove(st, z3.And(zi(r.len) >= zi(v[1]), v[0].off.z() == 0), "pre: the line buffer is large enough")
        ex.mark_write(st, r); r = r.copy(); r.content = z3.Const(fresh_name("line"), r.content.sort()); st.regs[r.id] = r
        st.assume(r.content[0] == s.Ch(t)); ex.store(st, Ptr(s.F.id), ir.INT(64), t + 1); ex.store(st2, Ptr(s.F.id), ir.INT(64), t + 1); st.ghost["buf"] = r.id
        return Forks([(st, v[0]), (st2, NULL)])
    def sscanf(s, ex, st, ins, v):
        k = s.fmt(ex, st, v[1])
        if [x[0] for x in k] != s.toks: raise Unsupported("format")
        t = s.scanned(st) - 1; got = s.Got(t); st.assume(z3.And(got >= -1, got <= len(k)))
        for q, (kd, dst) in enumerate(zip(k, v[2:])): s.put(ex, st, dst, kd, s.tok(q, t))
        return got
    def strspn(s, ex, st, ins, v): return ex.int_(st, fresh_name("span"), 0, 1024)
    def more(s): return [("fgets", s.fgets), (re.compile(r"^(__isoc\d+_)?sscanf$"), s.sscanf), ("strspn", s.strspn)]
    def ensure(s, ex, st, tag, a):
        t = s.scanned(st) - 1; ex.prove(st, z3.BoolVal(st.ghost["closed"] == 0), "post: the file stays open for the caller")
        ex.prove(st, z3.And(s.Got(t) == s.nt, s.Ch(t) != ord("%")), "post: sizes come from the first line that is no comment, and from a complete one")
        for q in range(s.nt): ex.prove(st, z3.And(zi(a[q]) == s.Tk(q, t), s.Tk(q, t) >= 0), "post: the announced size, never negative")
from ..sym import Forks, NULL
TASKS += [mk(Vec, "mm_vec_1", "drv_vec_1"), mk(Vec, "mm_vec_0", "drv_vec_0", real=False), mk(Sizes, "mm_ssize", "drv_ssize"), mk(Sizes, "mm_dsize", "drv_dsize", nt=2)]
class Read(Task):
    """the file is opened once, its header and sizes are read in order, exactly one reader (the one of the kind the header announces) gets these sizes, and the file is closed once"""
    driver = "io.cpp"; must_cover = (1,); prop = "P21"; templates = (); real = True; dense = False
    def setup(s, ex, st):
        s.fnm = ex.cells(st, "fname", 8)
        for g in ("opened", "closed", "stage"): st.ghost[g] = 0
        if s.dense: return [Ptr(s.fnm.id)]
        s.om, s.on = ex.region(st, "om", "i64", 1), ex.region(st, "on", "i64", 1); return [Ptr(s.fnm.id), ex.ptr(s.om), ex.ptr(s.on)]
    def fopen(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(st.ghost["opened"] == 0 and isinstance(v[0], Ptr) and v[0].reg == s.fnm.id), "pre: opens the given file once")
        st2 = st.copy(); f = ex.cells(st, "file", 8); st.ghost["opened"] = 1; st.ghost["f"] = f.id
        return Forks([(st, Ptr(f.id)), (st2, NULL)])
    def same(s, ex, st, p, stage):
        ex.prove(st, z3.BoolVal(st.ghost["opened"] == 1 and st.ghost["closed"] == 0 and isinstance(p, Ptr) and p.reg == st.ghost["f"]), "pre: works on the open file")
        ex.prove(st, z3.BoolVal(st.ghost["stage"] == stage), "pre: first line, sizes and data are read in this order"); st.ghost["stage"] = stage + 1
    def fclose(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(st.ghost["opened"] == 1 and st.ghost["closed"] == 0 and isinstance(v[0], Ptr) and v[0].reg == st.ghost["f"]), "pre: closes the open file")
        st.ghost["closed"] = 1; return 0
    def first(s, ex, st, ins, v):
        s.same(ex, st, v[0], 0); sp, rl, ty = st.ghost["kind"] = ex.int_(st, "sparse", 0, 1), ex.int_(st, "real", 0, 1), ex.int_(st, "type", 0, 3)
        for p, t, x in zip(v[1:], (8, 8, 32), (sp, rl, ty)): ex.store(st, p, ir.INT(t), x)
        return 0
    def sizes(s, ex, st, ins, v):
        s.same(ex, st, v[0], 1); sz = st.ghost["sz"] = [ex.int_(st, nm, 0, (1 << 63) - 1) for nm in ("m", "n", "nz")[:len(v) - 1]]
        for p, x in zip(v[1:], sz): ex.store(st, p, ir.INT(64), x)
        return 0
    def dsizes(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(s.dense), "pre: sizes of a vector"); return s.sizes(ex, st, ins, v)
    def ssizes(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(not s.dense), "pre: sizes of a matrix"); return s.sizes(ex, st, ins, v)
    def data(s, ex, st, ins, v):
        T_, R_ = s.inst(ex, ins)
        s.same(ex, st, v[0], 2); (m, n, nz), (sp, rl, ty) = st.ghost["sz"], st.ghost["kind"]
        ex.prove(st, z3.And(sp == 1, rl == (1 if s.real else 0), rl == R_), "pre: kind of file matches the arrays")
        ex.prove(st, ty == T_, "pre: the reader of the announced storage scheme")
        ex.prove(st, z3.And(zi(v[1]) == m, zi(v[2]) == n, zi(v[3]) == nz), "pre: announced sizes")
        ex.prove(st, z3.And(m <= IMAX, n <= IMAX, z3.Or(ty == 0, m == n)), "pre: sizes are representable, symmetric kinds are square")
        q = [p.reg for p in v[4:7]]; ex.prove(st, z3.BoolVal(q == sorted(q) and len(set(q)) == 3), "pre: rows, columns, values in this order")
        return 0
    def vdata(s, ex, st, ins, v):
        T_, R_ = s.inst(ex, ins); s.same(ex, st, v[0], 2); sp, rl, ty = st.ghost["kind"]
        ex.prove(st, z3.And(sp == 0, rl == (1 if s.real else 0), rl == R_), "pre: kind of file matches the array"); ex.prove(st, zi(v[1]) == st.ghost["sz"][0], "pre: announced size"); return 0
    def inst(s, ex, ins):
        nm = ex.mod.demangled.get(ins.a[0][1], ""); m = re.search(r"mm_read_(sparse|vector)_data<(.*)", nm); q = m.group(2).split(",")
        return (int(q[0]), q[1].strip() == "true") if m.group(1) == "sparse" else (0, q[0].strip() == "true")
    def error(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(st.ghost["closed"] == st.ghost["opened"]), "the file is closed once before an error is reported"); return END
    @property
    def contracts(s):
        p = r"^(void )?hif::internal::mm_read_"
        return [("fopen", s.fopen), ("fclose", s.fclose), (re.compile(p + r"firstline\("), s.first), (re.compile(p + r"sparse_size\("), s.ssizes), (re.compile(p + r"dense_size\("), s.dsizes), (re.compile(p + "sparse_data<"), s.data), (re.compile(p + "vector_data<"), s.vdata), (re.compile(r"^hif::error\("), s.error)]
    def ensure(s, ex, st, tag, a):
        ex.prove(st, z3.BoolVal(st.ghost["stage"] == 3 and st.ghost["closed"] == 1), "post: header, sizes and data read, file closed once")
        if not s.dense: ex.prove(st, z3.And(zi(a[0]) == st.ghost["sz"][0], zi(a[1]) == st.ghost["sz"][1]), "post: sizes of the matrix are those of the file")
TASKS += [mk(Read, "mm_read_%s%s" % ("v" if d else "s", nm), "drv_r%s_%s" % ("v" if d else "d", nm), real=nm == "d", dense=d) for d in (False, True) for nm in "dz"]
class Write(Task):
    """what is written: a header (lines up to the first that is no comment: the sizes), then one line per entry.  Every number is checked when it is written, against the entry and the place in the line it stands for"""
    driver = "io.cpp"; must_cover = (1,); prop = "P21"; kind = "v"; real = True; single = False
    NEW, SEP, ENT, COL, SCI, PREC = range(0, 48, 8)
    def get(s, st, c): return zi(st.regs[s.o.id].content[c][1])
    def set(s, ex, st, c, x): ex.store(st, Ptr(s.o.id, Lin(c)), ir.INT(64), x)
    def setup(s, ex, st):
        s.fnm = ex.cells(st, "fname", 8); o = s.o = ex.cells(st, "out", 48); o.heap = None
        for c, x in ((s.NEW, 0), (s.SEP, 1), (s.ENT, 0), (s.COL, 0), (s.SCI, 0), (s.PREC, 6)): o.content[c] = (8, z3.IntVal(x))
        st.ghost["hdr"] = ("",); st.ghost["closed"] = None; st.ghost["open"] = None; s.nt = (0 if s.kind == "v" else 2) + (1 if s.real else 2)
        ev = "float" if s.single else "double"; q = 1 if s.real else 2
        if s.kind == "v":
            n = s.n = ex.int_(st, "n", 0, MX); x = s.X = ex.region(st, "x", ev, q * n); s.tot = n; s.first = z3.IntVal(0)
            s.templates = [T("ent", "ki", lambda v, k, i: k == q * i), T("bol", "k", lambda v, k: k == 0), T("sep", "k", lambda v, k: k == 1)]
            return [Ptr(s.fnm.id), n, ex.ptr(x)]
        m, n, k = s.m, s.n, s.k = ex.int_(st, "m", 0, IMAX), ex.int_(st, "n", 0, IMAX), ex.int_(st, "nnz", 0, MX)
        row = s.kind == "r"; s.pr, s.ot = (m, n) if row else (n, m)
        P, J, X = s.P, s.J, s.X = ex.region(st, "p", "i64", s.pr + 1), ex.region(st, "j", "i32", k), ex.region(st, "x", ev, q * k)
        for r in (P, J, X): r.writable = False
        p = P.content; s.rowof = z3.Function("rowof", I, I)
        st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ <= j_, j_ <= s.pr), p[i_] <= p[j_]), [(p[i_], p[j_])])); st.assume(z3.And(p[0] >= 0, p[s.pr] <= k)); trig(st, p[0], p[s.pr])
        st.assume(forall(i_, z3.Implies(z3.And(p[0] <= i_, i_ < p[s.pr]), z3.And(J.content[i_] >= 0, J.content[i_] < s.ot)), [J.content[i_]]))
        st.assume(forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < s.pr, p[i_] <= j_, j_ < p[i_ + 1]), s.rowof(j_) == i_), [(p[i_], s.rowof(j_))]))
        s.first = p[0]; s.tot = p[s.pr] - p[0]
        s.templates = [T("ent", "ki", lambda v, k, i: i == k - p[0]), T("row", "ki", lambda v, k, i: i == p[k] - p[0]), T("le", "ko", lambda v, k, o: k <= p[o + 1]), T("ge", "ko", lambda v, k, o: k >= p[o]), T("bol", "k", lambda v, k: k == 0), T("sep", "k", lambda v, k: k == 1)]
        return [Ptr(s.fnm.id), m, n, ex.ptr(P), k, ex.ptr(J), ex.ptr(X)]
    def unfold(s, ex, st, k):
        if s.kind != "v": trig(st, s.P.content[k], s.P.content[k + 1], s.P.content[0], s.P.content[s.pr])
    def bounds(s, ex, st): return {"n": s.n} if s.kind == "v" else {"pr": s.pr}
    # --------------------------------------------------------------- stream
    def ctor(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(st.ghost["open"] is None and isinstance(v[1], Ptr) and v[1].reg == s.fnm.id), "pre: opens the given file")
        vt = ex.cells(st, "ovt", 64); vt.content[0] = (8, z3.IntVal(248)); ex.store(st, v[0], ir.PTR, Ptr(vt.id, Lin(24))); st.ghost["open"] = ex.int_(st, "isopen", 0, 1); st.ghost["f"] = v[0].reg; return 0
    def is_open(s, ex, st, ins, v): return st.ghost["open"] == 1
    def close(s, ex, st, ins, v): st.ghost["closed"] = ex.int_(st, "lost", 0, 1); return 0
    def failed(s, ex, st, ins, v):
        c = st.ghost["closed"]; c = ex.int_(st, "failing", 0, 1) if c is None else c
        return (c == 1)
    def good(s, ex, st, ins, v): return z3.Not(s.failed(ex, st, ins, v))
    def setf(s, ex, st, ins, v):
        if isz(v[1]): raise Unsupported("format flags")
        if v[1] & (4 | 256): s.set(ex, st, s.SCI, 1 if v[1] & 260 == 256 else 2)
        return 0
    def prec(s, ex, st, ins, v): s.set(ex, st, s.PREC, v[1]); return 0
    def text(s, ex, st, t):
        for ch in t:
            if st.ghost["hdr"] is not None: s.hchar(ex, st, ch); continue
            if ch in " \t": s.set(ex, st, s.SEP, 1)
            elif ch == "\n":
                ex.prove(st, s.get(st, s.COL) == s.nt, "every line has the whole entry"); s.set(ex, st, s.SEP, 1); s.set(ex, st, s.COL, 0); s.set(ex, st, s.ENT, s.get(st, s.ENT) + 1)
            else: raise Unsupported("text %r between numbers" % t)
    def hchar(s, ex, st, ch):
        h = st.ghost["hdr"]
        if ch != "\n": st.ghost["hdr"] = h[:-1] + (h[-1] + ch if isinstance(h[-1], str) else h[-1],) if isinstance(h[-1], str) else h + (ch,); return
        # the last line is complete
        line = []; 
        for x in reversed(h):
            if isinstance(x, str) and "\n" in x: line.insert(0, x.rsplit("\n", 1)[1]); break
            line.insert(0, x)
        if all(x == "" for x in line if isinstance(x, str)) and not [x for x in line if not isinstance(x, str)] or isinstance(line[0], str) and line[0].startswith("%") or (len(line) > 1 and line[0] == "" and isinstance(line[1], str) and line[1].startswith("%")):
            st.ghost["hdr"] = h + ("\n",) if not isinstance(h[-1], str) else h[:-1] + (h[-1] + "\n",); return
        want = "%%%%MatrixMarket matrix %s %s general\n" % ("array" if s.kind == "v" else "coordinate", "real" if s.real else "complex")
        ex.prove(st, z3.BoolVal(isinstance(h[0], str) and h[0].lower().startswith(want.lower()) and h[0].startswith("%%MatrixMarket")), "the first line announces what follows")
        toks, cur = [], []
        for x in line:
            if isinstance(x, str):
                for c in x:
                    if c in " \t":
                        if cur: toks.append(cur)
                        cur = []
                    else: cur.append(c)
            else: cur.append(x)
        if cur: toks.append(cur)
        val = []
        for t in toks:
            if len(t) == 1 and not isinstance(t[0], str): val.append(zi(t[0][1]))
            elif all(isinstance(c, str) and c.isdigit() for c in t): val.append(z3.IntVal(int("".join(t))))
            else: val.append(None)
        exp = [s.n, z3.IntVal(1)] if s.kind == "v" else [s.m, s.n, s.tot]
        ok = len(val) == len(exp) and None not in val
        ex.prove(st, z3.And(*[a == b for a, b in zip(val, exp)]) if ok else z3.BoolVal(False), "the line of sizes")
        st.ghost["hdr"] = None
    def strs(s, ex, st, ins, v): s.text(ex, st, cstring(ex, st, v[1])); return v[0]
    def chr(s, ex, st, ins, v):
        if isz(v[1]): raise Unsupported("character")
        s.text(ex, st, chr(v[1])); return v[0]
    def number(s, ex, st):
        ex.prove(st, z3.And(s.get(st, s.SEP) == 1, s.get(st, s.ENT) < s.tot), "a separator before every number, and no more lines than announced")
        c = s.get(st, s.COL); s.set(ex, st, s.SEP, 0); s.set(ex, st, s.COL, c + 1); return c, s.get(st, s.ENT) + s.first
    def int(s, ex, st, ins, v):
        if st.ghost["hdr"] is not None: st.ghost["hdr"] = st.ghost["hdr"] + (("n", v[1]),); return v[0]
        c, e = s.number(ex, st)
        if s.kind == "v": raise Unsupported("integer in a vector")
        A, B = s.rowof(e), s.J.content[e]; trig(st, A, B)
        if s.kind == "c": A, B = B, A
        ex.prove(st, z3.Or(z3.And(c == 0, zi(v[1]) == A + 1), z3.And(c == 1, zi(v[1]) == B + 1)), "row and column of the entry, counted from 1"); return v[0]
    def flt(s, ex, st, ins, v):
        ex.prove(st, z3.BoolVal(st.ghost["hdr"] is None), "values come after the sizes")
        if st.ghost["hdr"] is not None: raise Unsupported("value in the header")
        c, e = s.number(ex, st); d = s.nt - (1 if s.real else 2); x = s.X.content; sci, pr = s.get(st, s.SCI), s.get(st, s.PREC); need = 8 if s.single else 16
        ex.prove(st, z3.Or(z3.And(sci == 1, pr >= need), z3.And(sci == 0, pr >= need + 1)), "values are written with digits enough to read them back")
        w = zr(v[1])
        ex.prove(st, z3.And(c == d, w == x[e]) if s.real else z3.Or(z3.And(c == d, w == x[2 * e]), z3.And(c == d + 1, w == x[2 * e + 1])), "the value of the entry"); return v[0]
    @property
    def contracts(s):
        o = r"^std::basic_ofstream<.*>::"
        return [(re.compile(r"^hif::error\("), lambda *a: END), (re.compile(o + r"basic_ofstream\(char const\*"), s.ctor), (re.compile(o + r"is_open\("), s.is_open), (re.compile(o + r"close\("), s.close), (re.compile(o + "~"), lambda *a: 0),
                (re.compile(r"^std::basic_ios<.*>::(operator!|fail|bad)\("), s.failed), (re.compile(r"^std::basic_ios<.*>::(good|operator bool)\("), s.good),
                (re.compile(r"^std::ios_base::setf\(std::_Ios_Fmtflags\)"), s.setf), (re.compile(r"^std::ios_base::precision\(long\)"), s.prec),
                (re.compile(r"^std::ostream::operator<<\((int|long|unsigned int|unsigned long|long long|unsigned long long)\)"), s.int), (re.compile(r"^std::ostream::operator<<\((double|float)\)"), s.flt),
                (re.compile(r"std::operator<< ?<.*, char const\*\)$"), s.strs), (re.compile(r"std::operator<< ?<.*, char\)$"), s.chr)]
    def ensure(s, ex, st, tag, a):
        ex.prove(st, z3.BoolVal(st.ghost["hdr"] is None), "post: header written"); ex.prove(st, z3.And(s.get(st, s.ENT) == s.tot, s.get(st, s.COL) == 0), "post: one line per entry")
        c = st.ghost["closed"]; ex.prove(st, z3.And(c == 0, st.ghost["open"] == 1) if c is not None else z3.BoolVal(False), "post: returns normally only if everything reached the file")
TASKS += [mk(Write, "mm_write_%s%s" % (k, t), "drv_w%s_%s" % (k, t), kind=k, real=t != "z", single=t == "f") for k in "vrc" for t in "dzf"]
