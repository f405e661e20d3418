"""P09 / P10: one level of the multilevel solve and product.  The triangular solves, the off-diagonal products, the dense last level
and the next level are represented by contracts that demand exactly the ghost vector of the block formula and return its image."""
from .common import *
from .perm import bijection
BIGD = (1 << 31) - 1
i_, r_ = z3.Ints("i r")
RR = z3.RealSort()
L, U, E, F = 0, 1, 2, 3
class Level(Task):
    driver = "hier.cpp"; must_cover = (1,); mulf = True; NR = 1; tran = False; prod = False
    def gfun(s, nm): return z3.Function("g_" + nm, I, RR)
    def setup(s, ex, st):
        n = s.n = ex.int_(st, "n", 0, BIGD); m = s.m = ex.int_(st, "m", 0, BIGD); st.assume(m <= n); wl = s.wl = ex.int_(st, "wl", 0, 1 << 40); N = s.NR
        s.b = ex.region(st, "b", "double", N * n, writable=False); s.y = ex.region(st, "y", "double", N * n); s.w = ex.region(st, "work", "double", N * wl)
        d = s.d = ex.region(st, "d", "double", m, writable=False); s.s = ex.region(st, "s", "double", n, writable=False); s.t = ex.region(st, "t", "double", n, writable=False)
        for A, k in ((d, m), (s.s, n), (s.t, n)): st.assume(forall(r_, z3.Implies(z3.And(0 <= r_, r_ < k), A.content[r_] != 0), [A.content[r_]]))
        s.pr = []
        for nm in "pq":
            f = ex.region(st, nm, "i32", n, writable=False); g = ex.region(st, nm + "inv", "i32", n, writable=False)
            for A, B in ((f.content, g.content), (g.content, f.content)): st.assume(forall(r_, z3.Implies(z3.And(0 <= r_, r_ < n), z3.And(0 <= A[r_], A[r_] < n, B[A[r_]] == r_)), [A[r_]]))
            s.pr += [f, g]
        de, se = z3.Bool("dense_empty"), z3.Bool("symm_empty"); s.de, s.se = de, se; last = s.last = z3.Or(z3.Not(de), z3.Not(se), m == n)
        st.assume(z3.Implies(z3.And(last, m < n), z3.Or(z3.Not(de), z3.Not(se)))); st.assume(wl >= n)
        s.r = ex.int_(st, "last_dim", 0)
        s.vecs(ex, st)
        R = {"[0,k)": lambda k: (0, k, None), "[k,m)": lambda k: (k, m, None), "[m,k)": lambda k: (m, k, None), "[k,n)": lambda k: (k, n, None)}
        s.templates = []
        fl = lambda v: True
        for nm, f in s.V.items():
            for rn, rg in R.items():
                if rn in s.ranges.get(nm, R): s.templates.append(T(nm + rn, "kF", lambda v, k, b, f=f, rg=rg: s.rng(b.content, f, *rg(k)[:2])))
            for rn, lo, hi in (("lead", 0, m), ("tail", m, n)): s.templates.append(T(nm + rn, "F", lambda v, b, f=f, lo=lo, hi=hi: s.rng(b.content, f, lo, hi)))
        s.templates.append(T("ge", "k", lambda v, k: k >= m))
        return [m, n, ex.ptr(s.b), ex.ptr(s.y), ex.ptr(s.w), wl, ex.ptr(d), ex.ptr(s.s), ex.ptr(s.t)] + [ex.ptr(x) for x in s.pr] + [de, se, s.r]
    def rng(s, A, f, lo, hi): return forall(i_, z3.Implies(z3.And(lo <= i_, i_ < hi), A[i_] == f(i_)), [A[i_]])
    def bounds(s, ex, st): return {"n": s.n, "m": s.m}
    ranges = {}
    def vecs(s, ex, st):
        p, pi, q, qi = [x.content for x in s.pr]; B, S, Tt, D, n, m = s.b.content, s.s.content, s.t.content, s.d.content, s.n, s.m
        g = {k: s.gfun(k) for k in ("LC", "W1", "EW", "Y", "FY", "LG", "W2", "UW", "LW", "FW", "LF", "Zf", "EZ")}; s.g = g
        over = lambda x, i: mulf(x, INV(D[i]))
        if not s.prod:
            a, P, Pi = (S, p, qi) if not s.tran else (Tt, q, pi); post = Tt if not s.tran else S
            c = lambda i: mulf(a[P[i]], B[P[i]])
            r = lambda i: c(i) - g["EW"](i)
            G = lambda i: z3.If(m < n, c(i) - g["FY"](i), c(i))
            sol = lambda i: z3.If(i < m, g["W2"](i), g["Y"](i)); s.sol = sol
            s.V = dict(c=c, LC=g["LC"], LCd=lambda i: over(g["LC"](i), i), W1=g["W1"], EW=g["EW"], r=r, Y=g["Y"], FY=g["FY"], G=G, LG=g["LG"], LGd=lambda i: over(g["LG"](i), i), W2=g["W2"], out=lambda i: mulf(post[i], sol(Pi[i])))
            A1, A2 = (L, U) if not s.tran else (U, L); B1, B2 = (E, F) if not s.tran else (F, E); ks, kp = (0, 2) if not s.tran else (1, 3)
            big = m < n
            # (role, kind, nth) -> list of (condition, input, [lo,hi), output, [lo,hi))
            s.tab = {(A1, ks, 1): [(big, c, (0, m), g["LC"], (0, m)), (z3.Not(big), G, (0, m), g["LG"], (0, m))], (A2, ks, 1): [(big, s.V["LCd"], (0, m), g["W1"], (0, m)), (z3.Not(big), s.V["LGd"], (0, m), g["W2"], (0, m))],
                     (B1, kp, 0): [(True, g["W1"], (0, m), g["EW"], (m, n))], (B2, kp, 0): [(True, g["Y"], (m, n), g["FY"], (0, m))],
                     (A1, ks, 2): [(big, G, (0, m), g["LG"], (0, m))], (A2, ks, 2): [(big, s.V["LGd"], (0, m), g["W2"], (0, m))]}
            s.low = r
        else:
            a, P, Pi, post = (Tt, q, pi, S) if not s.tran else (S, p, qi, Tt)
            c = lambda i: mulf(B[P[i]], INV(a[P[i]]))
            over = lambda x, i: mulf(x, INV(D[i]))
            a1 = lambda i: mulf(g["UW"](i) + c(i), D[i]); h = lambda i: g["LW"](i) + a1(i); o = lambda i: z3.If(m < n, h(i) + g["FW"](i), h(i)); zz = lambda i: g["Zf"](i) + c(i); lo_ = lambda i: g["EZ"](i) + g["Y"](i)
            sol = lambda i: z3.If(i < m, o(i), lo_(i)); s.sol = sol
            s.V = dict(c=c, UW=g["UW"], a1=a1, LW=g["LW"], h=h, FW=g["FW"], o=o, LF=g["LF"], LFd=lambda i: over(g["LF"](i), i), Zf=g["Zf"], zz=zz, EZ=g["EZ"], Y=g["Y"], lo=lo_, out=lambda i: mulf(sol(Pi[i]), INV(post[i])))
            A1, A2 = (U, L) if not s.tran else (L, U); B1, B2 = (F, E) if not s.tran else (E, F); ks, kp = (0, 2) if not s.tran else (1, 3)
            s.tab = {(A1, kp, 0): [(True, c, (0, m), g["UW"], (0, m))], (A2, kp, 0): [(True, a1, (0, m), g["LW"], (0, m))], (B1, kp, 0): [(True, c, (m, n), g["FW"], (0, m))],
                     (A2, ks, 1): [(True, g["FW"], (0, m), g["LF"], (0, m))], (A1, ks, 1): [(True, s.V["LFd"], (0, m), g["Zf"], (0, m))], (B2, kp, 0): [(True, zz, (0, m), g["EZ"], (m, n))]}
            s.low = c
    def at(s, ex, st, p):
        r = st.regs[p.reg]; return r, z3.simplify(zi(ex.index(st, r, p, r.ety)))
    def put(s, ex, st, rid, off, f, lo, hi):
        """result written at off: element lo at position off .. hi"""
        D = st.regs[rid]; ex.wrote(st, D); D = st.regs[rid].copy(); old = D.content; new = z3.Const(fresh_name(D.name + "_op"), old.sort()); D.content = new; st.regs[rid] = D
        sh = z3.simplify(off - lo)
        st.assume(z3.Implies(sh == 0, forall(i_, new[i_] == z3.If(z3.And(lo <= i_, i_ < hi), f(i_), old[i_]), [new[i_]])))
    def havoc(s, ex, st, name, v, ins):
        ex.flush(st); n, m = s.n, s.m
        if name == "irv_havoc_op":
            role, kind, x, y, nth = v; ops = "LUEF"[role]; key = (role, kind, nth); nmk = "%s (%s)" % (ops, ("solve", "transposed solve", "product", "transposed product")[kind])
            if key not in s.tab: ex.prove(st, z3.BoolVal(False), "the formula applies %s here" % nmk); return None
            rx, ox = s.at(ex, st, x); ry, oy = s.at(ex, st, y)
            if kind >= 2: ex.prove(st, z3.Or(z3.BoolVal(rx.id != ry.id)), "pre %s: argument and result are different arrays" % nmk)
            for cond, fin, (a, b), fout, (lo, hi) in s.tab[key]:
                if cond is not True and not ex.qf_check(st, cond): continue
                ex.prove(st, z3.And(ox == a, oy == lo), "pre %s: applied at the right block position" % nmk)
                ex.prove(st, s.rng(rx.content, fin, a, b), "pre %s: applied to the vector of the block formula" % nmk)
                ex.range_ok(st, ry, oy, hi - lo, "write")
                s.put(ex, st, ry.id, oy, fout, lo, hi); return None
            ex.prove(st, z3.BoolVal(False), "the formula applies %s here (undecided case)" % nmk); return None
        if name == "irv_havoc_dense":
            symm, mul, x, k, r, tran = v; rx, ox = s.at(ex, st, x)
            ex.prove(st, z3.And(zi(k) == n - m, ox == m), "pre dense: applied to the whole trailing block"); ex.prove(st, s.last, "pre dense: only on the last level")
            ex.prove(st, zb(symm) == s.de if isz(symm) else (z3.Not(s.de) if not symm else s.de), "pre dense: the solver that holds the factorization"); ex.prove(st, zb_(mul) == z3.BoolVal(s.prod), "pre dense: solve or product"); ex.prove(st, zi(r) == s.r, "pre dense: the requested dimension is passed on")
            if not symm: ex.prove(st, zb_(tran) == z3.BoolVal(s.tran), "pre dense: transposition")
            ex.prove(st, s.rng(rx.content, s.low, m, n), "pre dense: applied to the vector of the block formula")
            s.put(ex, st, rx.id, ox, s.g["Y"], m, n); return None
        which, b, bn, r, y, yn, w = v
        rb, ob = s.at(ex, st, b); ry, oy = s.at(ex, st, y); rw, ow = s.at(ex, st, w)
        ex.prove(st, z3.BoolVal(which == s.which), "pre next level: same kind of operation"); ex.prove(st, z3.Not(s.last), "pre next level: exists")
        ex.prove(st, z3.And(zi(bn) == n - m, zi(yn) == n - m, ob == m if rb.id in (s.w.id, s.y.id) else ob == 0, oy == m), "pre next level: whole trailing block"); ex.prove(st, zi(r) == s.r, "pre next level: the requested dimension is passed on")
        ex.prove(st, z3.BoolVal(len({rb.id, ry.id}) == 2 and rw.id == s.w.id and ry.id == s.y.id), "pre next level: argument, result and work space are separate"); ex.prove(st, ow == n, "pre next level: work space behind this level's")
        ex.prove(st, s.rng(rb.content, s.low, m, n), "pre next level: applied to the vector of the block formula")
        # the next level may overwrite its own work space
        D = st.regs[s.w.id]; ex.wrote(st, D); D = st.regs[s.w.id].copy(); old = D.content; new = z3.Const(fresh_name("work_rec"), old.sort()); D.content = new; st.regs[D.id] = D
        st.assume(forall(i_, z3.Implies(i_ < n, new[i_] == old[i_]), [new[i_]]))
        s.put(ex, st, ry.id, oy, s.g["Y"], m, n); return None
    def ensure(s, ex, st, tag, a):
        y = st.regs[s.y.id].content; w = fint("w"); st.assume(z3.And(0 <= w, w < s.n)); trig(st, y[w], *[x.content[w] for x in s.pr])
        ex.prove(st, y[w] == s.V["out"](w), "post: the result is the unscaled, unpermuted solution of the block formula")
        ex.prove(st, forall(r_, z3.Implies(z3.And(0 <= r_, r_ < s.n), st.regs[s.b.id].content[r_] == s.b.content[r_])), "frame: right-hand side unchanged")
    def unfold(s, ex, st, k):
        trig(st, *[x.content[k] for x in s.pr]); trig(st, s.pr[1].content[k])
        D, S, Tt = s.d.content, s.s.content, s.t.content
def zb_(x): return x if isz(x) else z3.BoolVal(bool(x))
def mk(nm, fn_, which, **kw): return type(nm, (Level,), dict(name=nm, fn=fn_, which=which, **kw))
TASKS = [mk("lvl_solve", "drv_solve", 0, prop="P09"), mk("lvl_solve_tran", "drv_solve_tran", 1, tran=True, prop="P09"),
         mk("lvl_prod", "drv_prod", 2, prod=True, prop="P10"), mk("lvl_prod_tran", "drv_prod_tran", 3, prod=True, tran=True, prop="P10")]
