"""P20: the C interface.  The C++ functions it calls are contracts: they are given the stated arguments, and either return or throw."""
from .common import *
from .. import ir
from ..sym import THROW, Forks, END, Lin, Ptr, NULL, UNDEF, zr, zi, isz
from .params import PTask, CSLOT, OPTS, OFF, KIND, expect_params, Lin
import re
SUCCESS, NULL_OBJ, MISMATCH, BAD, ERROR = range(5)
VT = {"d": ("double", "i64"), "s": ("float", "float"), "z": ("double", "double"), "c": ("float", "float")}
R_STR = r"basic_string<char.*>::"
def isnull(p): return isinstance(p, Ptr) and p.reg == 0
class CTask(Task):
    driver = "params.cpp"; prop = "P20"; templates = (); must_cover = (1,); fp2int_checked = False; p = "d"
    # ------------------------------------------------------------- ghost strings
    def sget(s, st, p):
        k = ("str", p.reg, p.off.c)
        if k not in st.ghost: st.ghost[k] = z3.Int("str_%d_%d" % k[1:])
        return st.ghost[k]
    def sset(s, st, p, v): st.ghost[("str", p.reg, p.off.c)] = v
    def s_assign(s, ex, st, ins, v):
        w = v[1]
        if isinstance(w, Ptr) and "what" in st.ghost and w.reg == st.ghost["what"].reg: s.sset(st, v[0], s.MSG)
        elif isinstance(w, Ptr) and w.reg: s.sset(st, v[0], s.sget(st, w))
        else: raise Unsupported("string assignment")
        return v[0]
    def s_clear(s, ex, st, ins, v): s.sset(st, v[0], z3.IntVal(0)); return None
    def s_empty(s, ex, st, ins, v): return s.sget(st, v[0]) == 0
    def s_cstr(s, ex, st, ins, v):
        r = ex.cells(st, "cstr", 8); st.ghost[("cstr", r.id)] = s.sget(st, v[0]); return Ptr(r.id)
    # ------------------------------------------------------------- C++ callees
    def outcome(s, ex, st, ret=None):
        """returns normally or throws"""
        st2 = st.copy(); st.ghost["ok"] = True; st2.ghost["ok"] = False
        return Forks([(st, ret), (st2, THROW)])
    def call(s, st, what, **kw):
        st.ghost["call"] = st.ghost.get("call", ()) + ((what, kw),)
    def factorize(s, ex, st, ins, v, rm):
        # (this, n, indptr, indices, vals, params, ...)
        o = v[5]; g = ex.global_ptr(st, "_ZN3hifL14DEFAULT_PARAMSE")
        dflt = isinstance(o, Ptr) and o.reg == g.reg and o.off.key() == g.off.key()
        vals = None if dflt else {n: ex.load(st, o.add(Lin(OFF[n])), ir.F64 if k == "d" else ir.INT(32)) for n, k in OPTS}
        s.call(st, "factorize", rm=rm, M=v[0], n=v[1], ip=v[2], ix=v[3], vals=v[4], dflt=dflt, opts=vals)
        return s.outcome(ex, st)
    def apply_(s, ex, st, ins, v, what):
        s.call(st, what, M=v[0], b=st.ghost.get(("arr", v[1].reg)), x=st.ghost.get(("arr", v[2].reg)), trans=v[3], r=v[4]); return s.outcome(ex, st)
    def hifir(s, ex, st, ins, v):
        # this, A, b, N, [betas,] x, trans, r   (pair result in registers)
        bet = len(v) == 8; k = 1 if bet else 0
        ret = None
        if bet:
            it, fl = ex.int_(st, "iters", 0, (1 << 31) - 1), ex.int_(st, "flag", -5, 5); s.res = (it, fl); ret = [it, fl]
        s.call(st, "hifir", M=v[0], A=st.ghost.get(("mat", v[1].reg)), b=st.ghost.get(("arr", v[2].reg)), N=v[3], betas=v[4] if bet else None, x=st.ghost.get(("arr", v[4 + k].reg)), trans=v[5 + k], r=v[6 + k])
        return s.outcome(ex, st, ret)
    def arr_ctor(s, ex, st, ins, v): st.ghost[("arr", v[0].reg)] = (v[1], v[2], v[3]); return None
    def wrapm(s, ex, st, ins, v, rm): st.ghost[("mat", v[0].reg)] = (rm,) + tuple(v[1:7]); return None
    def query(s, ex, st, ins, v, nm):
        k = nm if len(v) == 1 else "%s%s" % (nm, v[1])
        return s.Q(ex, st, k)
    def Q(s, ex, st, k):
        x = z3.Int("M." + k); st.assume(z3.And(x >= 0, x < 1 << 40)); return x
    def malloc(s, ex, st, ins, v):
        st2 = st.copy(); st2.ghost["oom"] = True
        r = ex.heap_alloc(st, v[0], "malloc"); st.ghost["handle"] = r.id
        return Forks([(st, Ptr(r.id)), (st2, NULL)])
    def newhif(s, ex, st, ins, v):
        st2 = st.copy(); st2.ghost["oom"] = True
        r = ex.heap_alloc(st, v[0], "hif"); st.ghost["newM"] = r.id
        return Forks([(st, Ptr(r.id)), (st2, NULL)])
    @property
    def contracts(s):
        c = []
        def add(rx, f, *a): c.append((re.compile(rx) if not rx.startswith("=") else rx[1:], lambda ex, st, ins, v: f(ex, st, ins, v, *a)))
        add(R_STR + r"operator=", s.s_assign); add(R_STR + r"clear\(", s.s_clear); add(R_STR + r"empty\(", s.s_empty); add(R_STR + r"c_str\(", s.s_cstr)
        add(r"^void hif::HIF<[^()]*>::factorize<true", s.factorize, True); add(r"^void hif::HIF<[^()]*>::factorize<false", s.factorize, False)
        add(r"^void hif::HIF<[^()]*>::solve<", s.apply_, "solve"); add(r"^void hif::HIF<[^()]*>::mmultiply<", s.apply_, "mmultiply")
        add(r"hif::HIF<[^()]*>::hifir<", s.hifir)
        add(r"^hif::Array<[^()]*>::Array\(unsigned long, [^()]*\*, bool\)", s.arr_ctor); add(r"^hif::Array<[^()]*>::~Array\(", lambda ex, st, ins, v: None)
        add(r"hif::wrap_const_crs<", s.wrapm, True); add(r"hif::wrap_const_ccs<", s.wrapm, False); add(r"::~CompressedStorage\(|^hif::C[RC]S<[^()]*>::~C[RC]S", lambda ex, st, ins, v: None)
        for q in ("nrows", "nnz", "stats", "levels", "rank", "schur_rank", "schur_size"): add(r"^hif::HIF<[^()]*>::%s\(" % q, s.query, q)
        add(r"^hif::HIF<[^()]*>::empty\(", lambda ex, st, ins, v: z3.Bool("M.empty"))
        add(r"^hif::HIF<[^()]*>::HIF\(\)", lambda ex, st, ins, v: None); add(r"^hif::HIF<[^()]*>::~HIF\(", lambda ex, st, ins, v: None)
        add("=malloc", s.malloc); add("=_ZnwmRKSt9nothrow_t", s.newhif)
        return c
    # ------------------------------------------------------------- objects
    def matrix(s, ex, st, nm):
        n = ex.int_(st, nm + ".n", 1, 1 << 31)
        ip = ex.region(st, nm + ".ip", "i64", n + 1, writable=False); ix = ex.region(st, nm + ".ix", "i32", ex.int_(st, nm + ".nz", 0, 1 << 40), writable=False)
        v = ex.region(st, nm + ".v", "double", ex.int_(st, nm + ".nv", 0, 1 << 41), writable=False)
        st.assume(ip.content[0] == 0); st.assume(z3.And(ip.content[n] >= 0, ip.content[n] < 1 << 40))
        r = ex.cells(st, nm, 40); rm = ex.int_(st, nm + ".rm", 0, 1)
        r.content = {0: (8, ex.ptr(ip)), 8: (8, ex.ptr(ix)), 16: (8, ex.ptr(v)), 24: (8, n), 32: (1, rm)}
        s.m[nm] = dict(reg=r.id, n=n, ip=ip.id, ix=ix.id, v=v.id, rm=rm, content=ip.content)
        return Ptr(r.id)
    def handle(s, ex, st, nm="H"):
        M = ex.cells(st, nm + ".M", 4096); A0 = ex.cells(st, nm + ".A0", 40); W0 = ex.cells(st, nm + ".W0", 40)
        r = ex.cells(st, nm, 24); r.content = {0: (8, Ptr(M.id)), 8: (8, Ptr(A0.id)), 16: (8, Ptr(W0.id))}
        s.H = r.id; s.M = M.id; s.A0 = A0.id; s.W0 = W0.id
        return Ptr(r.id)
    def b(s, nm): s.f[nm] = z3.Bool(nm); return s.f[nm]
    def params(s, ex, st):
        s.par = ex.region(st, "params", "double", len(CSLOT), writable=False)
        for k in range(len(CSLOT)): st.assume(z3.And(s.par.content[k] > -(1 << 31), s.par.content[k] < (1 << 31)))
        g = ex.global_ptr(st, "_ZN3hifL14DEFAULT_PARAMSE")
        return ex.ptr(s.par)
    def setup(s, ex, st):
        ex.global_ptr(st, "_ZN13libhifir_implL10error_msgsB5cxx11E"); s.m = {}; s.f = {}; s.MSG = z3.Int("message"); st.assume(s.MSG > 0); s.o = {}
        return s.args(ex, st)
    def sure(s, ex, st, f): return ex.qf_check(st, f)
    def chosen(s, ex, st, fl):
        """the value a boolean input has on this path"""
        x = s.f[fl]
        if ex.qf_check(st, x): return True
        if ex.qf_check(st, z3.Not(x)): return False
        return None
    def calls(s, st): return st.ghost.get("call", ())
    def same(s, p, reg): return isinstance(p, Ptr) and p.reg == reg and p.off.is_const() and p.off.c == 0
    def message(s, ex, st, tag, a):
        if tag == 8:
            p = a[0]; ex.prove(st, z3.BoolVal(not isnull(p)), "post: a failure leaves a retrievable message")
            if not isnull(p): ex.prove(st, st.ghost[("cstr", p.reg)] == s.MSG, "post: the message is the one of the failure")
        else: ex.prove(st, z3.BoolVal(isnull(a[0])), "post: the message is cleared once read")
    def ensure(s, ex, st, tag, a):
        if tag in (8, 9): return s.message(ex, st, tag, a)
        s.post(ex, st, tag, a)
    def status(s, ex, st, got, want, what="post: status code"): ex.prove(st, zi(got) == want, what)
    def check_fact(s, ex, st, mat, pr):
        c = s.calls(st)
        ex.prove(st, z3.BoolVal(len(c) == 1 and c[0][0] == "factorize"), "post: exactly one factorization")
        if len(c) != 1 or c[0][0] != "factorize": return
        k = c[0][1]; m = s.m[mat]
        ok = s.same(k["ip"], m["ip"]) and s.same(k["ix"], m["ix"]) and s.same(k["vals"], m["v"]) and isinstance(k["M"], Ptr) and k["M"].reg == s.Mreg(st)
        ex.prove(st, z3.And(z3.BoolVal(bool(ok)), zi(k["n"]) == m["n"]), "post: the given matrix is factorized")
        ex.prove(st, (m["rm"] == 1) == z3.BoolVal(k["rm"]), "post: the storage order is the one of the matrix")
        if pr is False: ex.prove(st, z3.BoolVal(k["dflt"]), "post: without parameters the defaults are used")
        elif k["dflt"]: ex.prove(st, False, "post: the given parameters are used")
        else:
            e = [zr(k["opts"][n]) == s.par.content[j] if KIND[n] == "d" else zi(k["opts"][n]) == z3.If(z3.And(s.par.content[j] < 0, z3.ToReal(z3.ToInt(s.par.content[j])) != s.par.content[j]), z3.ToInt(s.par.content[j]) + 1, z3.ToInt(s.par.content[j])) for j, n in enumerate(CSLOT)]
            ex.prove(st, z3.And(*e), "post: the given parameters are used")
    def Mreg(s, st): return st.ghost.get("newM", getattr(s, "M", None))
class ErrMsg(CTask):
    must_cover = (1, 2)
    def args(s, ex, st): return []
    def post(s, ex, st, tag, a):
        g = ex.global_ptr(st, "_ZN13libhifir_implL10error_msgsB5cxx11E"); m0 = z3.Int("str_%d_32" % g.reg); p = a[0]
        if tag == 1:
            if isnull(p): ex.prove(st, m0 == 0, "post: no message is reported only if there is none")
            else: ex.prove(st, z3.And(st.ghost[("cstr", p.reg)] == m0, m0 != 0), "post: the pending message is returned")
        else: ex.prove(st, z3.BoolVal(isnull(p)), "post: the message is cleared once read")
class Create(CTask):
    must_cover = (1, 2, 3)
    def args(s, ex, st):
        s.matrix(ex, st, "A"); s.n = ex.int_(st, "n", 0, 1 << 31); m = s.m["A"]; st.assume(z3.Implies(s.n > 0, s.n == m["n"]))
        s.rm = ex.int_(st, "rm", -5, 5)
        return [s.rm, s.n, s.b("a"), s.b("b"), s.b("c"), Ptr(m["ip"]), Ptr(m["ix"]), Ptr(m["v"])]
    def post(s, ex, st, tag, a):
        m = s.m["A"]; full = z3.And(s.n > 0, s.f["a"], s.f["b"], s.f["c"])
        if tag == 1: return ex.prove(st, z3.BoolVal("oom" in st.ghost), "post: no handle only without memory")
        if tag == 3: 
            s.status(ex, st, a[0], SUCCESS); return ex.prove(st, z3.BoolVal(all(r.freed for r in st.regs.values() if r.heap == "new")), "post: destroying releases the handle (and nothing else)")
        isset = s.same(a[0], m["ip"]) and s.same(a[1], m["ix"]) and s.same(a[2], m["v"])
        unset = isnull(a[0]) and isnull(a[1]) and isnull(a[2])
        ex.prove(st, z3.And(z3.Implies(full, z3.And(z3.BoolVal(isset), zi(a[3]) == s.n)), z3.Implies(z3.Not(full), z3.And(z3.BoolVal(unset), zi(a[3]) == 0))), "post: the handle wraps the given arrays, or is unset if any is missing")
        ex.prove(st, (zi(a[4]) != 0) == (s.rm != 0), "post: storage order")
        ex.prove(st, z3.And(zi(a[5]) == z3.If(full, s.n, 0), zi(a[6]) == z3.If(full, m["content"][m["n"]], 0)), "post: size and number of entries")
class Wrap(CTask):
    must_cover = (1, 2)
    def args(s, ex, st):
        s.matrix(ex, st, "A"); p0 = s.matrix(ex, st, "B"); m = s.m["A"]; s.n = ex.int_(st, "n", 0, 1 << 31); st.assume(z3.Implies(s.n > 0, s.n == m["n"]))
        return [s.b("h"), p0, s.n, s.b("a"), s.b("b"), s.b("c"), Ptr(m["ip"]), Ptr(m["ix"]), Ptr(m["v"])]
    def post(s, ex, st, tag, a):
        A, B = s.m["A"], s.m["B"]; full = z3.And(s.f["h"], s.n > 0, s.f["a"], s.f["b"], s.f["c"])
        if tag == 1:
            s.status(ex, st, a[0], z3.If(full, SUCCESS, NULL_OBJ)); isA = s.same(a[1], A["ip"]) and s.same(a[2], A["ix"]) and s.same(a[3], A["v"]); isB = s.same(a[1], B["ip"]) and s.same(a[2], B["ix"]) and s.same(a[3], B["v"])
            ex.prove(st, z3.If(full, z3.And(z3.BoolVal(isA), zi(a[4]) == s.n), z3.And(z3.BoolVal(isB), zi(a[4]) == B["n"])), "post: the handle wraps the given arrays, or keeps its arrays if refused")
            ex.prove(st, zi(a[5]) == B["rm"], "post: storage order kept")
        else: ex.prove(st, z3.And(zi(a[0]) == z3.If(full, s.n, z3.If(s.f["h"], B["n"], 0)), zi(a[1]) == z3.If(full, A["content"][A["n"]], z3.If(s.f["h"], B["content"][B["n"]], 0))), "post: size and number of entries")
class Setup(CTask):
    must_cover = (1, 8, 9)
    def args(s, ex, st): return [s.b("h"), s.b("a"), s.b("au"), s.b("f"), s.b("fu"), s.b("pr"), s.handle(ex, st), s.matrix(ex, st, "A"), s.matrix(ex, st, "S"), s.params(ex, st)]
    def post(s, ex, st, tag, a):
        h, A, au, f, fu = (s.chosen(ex, st, k) for k in ("h", "a", "au", "f", "fu"))
        if h is False:
            s.status(ex, st, a[0], NULL_OBJ, "post: null handle"); ex.prove(st, z3.BoolVal(not s.calls(st) and s.same(a[1], s.A0)), "post: nothing done for a null handle"); return
        fac = "S" if f else ("A" if A else None); unset = fu if f else au
        keep = s.same(a[1], s.m["A"]["reg"]) if A else (s.same(a[1], s.m["S"]["reg"]) if f else isnull(a[1]))
        ex.prove(st, z3.BoolVal(bool(keep)), "post: the user matrix is the given one, or the sparsified one")
        if fac is None or unset:
            s.status(ex, st, a[0], NULL_OBJ, "post: null or unset matrix"); ex.prove(st, z3.BoolVal(not s.calls(st)), "post: nothing factorized without a matrix"); return
        s.check_fact(ex, st, fac, s.chosen(ex, st, "pr")); s.status(ex, st, a[0], SUCCESS if st.ghost.get("ok") else ERROR)
class Refac(Setup):
    def args(s, ex, st): return [s.b("h"), s.b("f"), s.b("fu"), s.b("pr"), s.handle(ex, st), s.matrix(ex, st, "S"), s.params(ex, st)]
    def post(s, ex, st, tag, a):
        h, f, fu = (s.chosen(ex, st, k) for k in ("h", "f", "fu"))
        ex.prove(st, z3.BoolVal(s.same(a[1], s.A0)), "post: the user matrix is kept")
        if not h or not f or fu:
            s.status(ex, st, a[0], NULL_OBJ, "post: null or unset handle"); ex.prove(st, z3.BoolVal(not s.calls(st)), "post: nothing factorized"); return
        s.check_fact(ex, st, "S", s.chosen(ex, st, "pr")); s.status(ex, st, a[0], SUCCESS if st.ghost.get("ok") else ERROR)
class Update(CTask):
    mix = False
    def args(s, ex, st): return [s.b("h"), s.b("a"), s.handle(ex, st), s.matrix(ex, st, "A")]
    def post(s, ex, st, tag, a):
        h, A = s.chosen(ex, st, "h"), s.chosen(ex, st, "a"); m = s.m["A"]
        if h is False: s.status(ex, st, a[0], NULL_OBJ, "post: null handle"); return ex.prove(st, z3.BoolVal(s.same(a[1], s.W0 if s.mix else s.A0)), "post: nothing done for a null handle")
        ex.prove(st, z3.BoolVal(s.same(a[1], m["reg"]) if A else isnull(a[1])), "post: the user matrix is replaced")
        if A: s.status(ex, st, a[0], z3.If(z3.And(z3.Not(z3.Bool("M.empty")), m["n"] != z3.Int("M.nrows")), MISMATCH, SUCCESS))
        else: s.status(ex, st, a[0], SUCCESS)
class Apply(CTask):
    must_cover = (1, 8, 9)
    def args(s, ex, st):
        s.op = ex.int_(st, "op", 0, 3); s.N = ex.int_(st, "nirs", -5, 1 << 30); s.rank = ex.int_(st, "rank", -2, 1 << 30)
        r = [s.b("h"), s.op, s.b("a"), s.b("au"), s.b("be"), s.b("st"), s.handle(ex, st), s.matrix(ex, st, "A")]
        s.bb = ex.cells(st, "b", 8); s.xx = ex.cells(st, "x", 8); s.be = ex.region(st, "betas", "double", 2, writable=False); s.irs = ex.region(st, "irs", "i32", 2)
        s.bb.writable = False
        return r + [Ptr(s.bb.id), s.N, ex.ptr(s.be), s.rank, Ptr(s.xx.id), ex.ptr(s.irs)]
    def post(s, ex, st, tag, a):
        h, A, au, be, ir_ = (s.chosen(ex, st, k) for k in ("h", "a", "au", "be", "st"))
        c = s.calls(st); m = s.m["A"]
        if h is False: s.status(ex, st, a[0], NULL_OBJ, "post: null handle"); return ex.prove(st, z3.BoolVal(not c), "post: nothing done for a null handle")
        prod = z3.Or(s.op == 2, s.op == 3); trans = z3.Or(s.op == 1, s.op == 3); ref = z3.And(z3.Not(prod), s.N > 1)
        nr = z3.Int("M.nrows"); missing = (A is not True) or (au is True)
        rk = z3.If(s.rank == -2, z3.If(ref, -1, 0), s.rank)
        kind = c[0][0] if len(c) == 1 else None
        ex.prove(st, z3.BoolVal(len(c) <= 1), "post: at most one operation")
        if kind is None:
            ex.prove(st, z3.And(ref, z3.Or(z3.BoolVal(missing), nr != m["n"])), "post: only a refinement without a matching matrix is refused")
            s.status(ex, st, a[0], NULL_OBJ if missing else MISMATCH); return
        k = c[0][1]
        ex.prove(st, z3.BoolVal(isinstance(k["M"], Ptr) and k["M"].reg == s.M), "post: the operation uses the preconditioner of the handle")
        ex.prove(st, {"mmultiply": prod, "solve": z3.And(z3.Not(prod), s.N <= 1), "hifir": ref}[kind], "post: operation as requested")
        n = m["n"] if kind == "hifir" else nr
        def arr(x, reg): return z3.And(z3.BoolVal(x is not None and isinstance(x[1], Ptr) and s.same(x[1], reg) and x[2] in (True, 1)), zi(x[0]) == n)
        ex.prove(st, z3.And(arr(k["b"], s.bb.id), arr(k["x"], s.xx.id)), "post: right-hand side and solution are the given arrays of the system size")
        tr = k["trans"]; tr = tr if (isz(tr) and z3.is_bool(tr)) else (z3.BoolVal(bool(tr)) if not isz(tr) else tr != 0)
        ex.prove(st, tr == trans, "post: transposition as requested")
        if kind == "hifir":
            ex.prove(st, zi(k["r"]) == rk, "post: rank as requested"); ex.prove(st, zi(k["N"]) == s.N, "post: number of refinement steps")
            M = k["A"]; ok = M is not None and s.same(M[3], m["ip"]) and s.same(M[4], m["ix"]) and s.same(M[5], m["v"])
            ex.prove(st, z3.And(z3.BoolVal(bool(ok)), zi(M[1]) == m["n"], zi(M[2]) == m["n"], (m["rm"] == 1) == z3.BoolVal(M[0])), "post: refinement uses the user matrix in its storage order")
            ex.prove(st, z3.BoolVal((k["betas"] is not None and s.same(k["betas"], s.be.id)) if be else k["betas"] is None), "post: residual bounds as given")
            I0 = s.irs.content; I1 = st.regs[s.irs.id].content
            if be and ir_ and st.ghost.get("ok"): ex.prove(st, z3.And(I1[0] == s.res[0], I1[1] == s.res[1]), "post: refinement status reported")
            else: ex.prove(st, z3.And(I1[0] == I0[0], I1[1] == I0[1]), "post: refinement status untouched")
        else:
            w = z3.If(rk == -1, z3.Or(zi(k["r"]) == -1, zi(k["r"]) == (1 << 64) - 1), zi(k["r"]) == rk)
            ex.prove(st, w, "post: rank as requested")
        s.status(ex, st, a[0], SUCCESS if st.ghost.get("ok") else ERROR)
class Solve(CTask):
    must_cover = (1, 8, 9)
    def args(s, ex, st):
        r = [s.b("h"), s.handle(ex, st)]; s.bb = ex.cells(st, "b", 8); s.xx = ex.cells(st, "x", 8); s.bb.writable = False
        return r + [Ptr(s.bb.id), Ptr(s.xx.id)]
    def post(s, ex, st, tag, a):
        c = s.calls(st)
        if s.chosen(ex, st, "h") is False: s.status(ex, st, a[0], NULL_OBJ, "post: null handle"); return ex.prove(st, z3.BoolVal(not c), "post: nothing done for a null handle")
        ex.prove(st, z3.BoolVal(len(c) == 1 and c[0][0] == "solve"), "post: one plain solve")
        if len(c) != 1: return
        k = c[0][1]; nr = z3.Int("M.nrows")
        ok = all(k[q] is not None and s.same(k[q][1], r) and k[q][2] in (True, 1) for q, r in (("b", s.bb.id), ("x", s.xx.id))) and k["M"].reg == s.M
        ex.prove(st, z3.And(z3.BoolVal(bool(ok)), zi(k["b"][0]) == nr, zi(k["x"][0]) == nr, z3.Not(k["trans"] if isz(k["trans"]) else z3.BoolVal(bool(k["trans"]))), zi(k["r"]) == 0), "post: plain solve with the given arrays and the default rank")
        s.status(ex, st, a[0], SUCCESS if st.ghost.get("ok") else ERROR)
class Stats(CTask):
    must_cover = (1, 2)
    def args(s, ex, st): s.out = ex.region(st, "stats", "i64", 9); return [s.b("h"), s.handle(ex, st), ex.ptr(s.out)]
    def post(s, ex, st, tag, a):
        h = s.chosen(ex, st, "h"); q = lambda k: z3.Int("M." + k)
        if tag == 1:
            s.status(ex, st, a[0], SUCCESS); c = st.regs[s.out.id].content
            names = ["nnz", "stats0", "stats1", "stats4", "stats5", "levels", "rank", "schur_rank", "schur_size"]
            for k, nm in enumerate(names):
                ex.prove(st, c[k] == (0 if h is False else z3.If(z3.Bool("M.empty"), 0, q(nm))), "post: statistics slot %d" % k)
        else:
            for k, nm in enumerate(["nnz", "levels", "schur_size", "schur_rank"]): ex.prove(st, zi(a[k]) == (0 if h is False else q(nm)), "post: " + nm)
class New(Setup):
    must_cover = (1, 2, 3)
    def args(s, ex, st): return [s.b("a"), s.b("au"), s.b("f"), s.b("fu"), s.b("pr"), s.matrix(ex, st, "A"), s.matrix(ex, st, "S"), s.params(ex, st)]
    def post(s, ex, st, tag, a):
        A, au, f, fu = (s.chosen(ex, st, k) for k in ("a", "au", "f", "fu")); fac = "S" if f else ("A" if A else None); unset = fu if f else au
        released = all(r.freed for r in st.regs.values() if r.heap == "new")
        if tag == 1:
            ex.prove(st, z3.BoolVal("oom" in st.ghost or st.ghost.get("ok") is False), "post: no handle only without memory or after a failed factorization")
            return ex.prove(st, z3.BoolVal(released), "post: a failed creation releases everything")
        if tag == 3: s.status(ex, st, a[0], SUCCESS); return ex.prove(st, z3.BoolVal(released), "post: destroying releases the handle and the preconditioner (and no matrix)")
        keep = s.same(a[0], s.m["A"]["reg"]) if A else (s.same(a[0], s.m["S"]["reg"]) if f else isnull(a[0]))
        ex.prove(st, z3.BoolVal(bool(keep)), "post: the user matrix is the given one, or the sparsified one")
        if fac is None or unset: ex.prove(st, z3.BoolVal(not s.calls(st)), "post: nothing factorized without a matrix")
        else: s.check_fact(ex, st, fac, s.chosen(ex, st, "pr")); ex.prove(st, z3.BoolVal(st.ghost.get("ok") is True), "post: a handle only after success")
class Destroy0(CTask):
    def args(s, ex, st): return []
    def post(s, ex, st, tag, a): s.status(ex, st, a[0], SUCCESS)
from ..sym import Unsupported
def mk(base, nm, fn_, **kw): return type(nm, (base,), dict(name=nm, fn=fn_, **kw))
TASKS = [mk(ErrMsg, "api_errmsg", "drv_errmsg")]
for p in "dszc":
    for b, nm in ((Create, "create"), (Wrap, "wrap"), (Setup, "setup"), (Refac, "refac"), (Update, "update"), (Apply, "apply"), (Solve, "solve"), (Stats, "stats"), (New, "new"), (Destroy0, "destroy0")):
        TASKS.append(mk(b, "api_%s_%s" % (p, nm), "drv_%s_%s" % (p, nm), p=p))
for p in ("sd", "cz"):
    for b, nm in ((Update, "update"), (Apply, "apply"), (Solve, "solve")):
        TASKS.append(mk(b, "api_%s_%s" % (p, nm), "drv_%s_%s" % (p, nm), p=p, **(dict(mix=True) if nm == "update" else {})))
