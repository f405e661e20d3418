"""Parser for the subset of textual LLVM IR (clang-18, opaque pointers) used by irv."""
import re, struct, subprocess
from fractions import Fraction

class IRError(Exception):
    pass

# ----------------------------------------------------------------- types
class T:
    __slots__ = ("k", "n", "el", "name", "packed")
    def __init__(s, k, n=0, el=None, name=None, packed=False):
        s.k, s.n, s.el, s.name, s.packed = k, n, el, name, packed
    def __repr__(s):
        return s.name or (s.k + (str(s.n) if s.n else "") + (repr(s.el) if s.el else ""))

VOID, PTR, F64, F32, META = T("void"), T("ptr"), T("double"), T("float"), T("metadata")
F80 = T("x86_fp80")
INTS = {}
def INT(n):
    if n not in INTS: INTS[n] = T("i", n)
    return INTS[n]

class Module:
    def __init__(s):
        s.structs = {}; s.funcs = {}; s.decls = {}; s.lines = {}; s.globals = {}; s.demangled = {}

    def resolve(s, t):
        if t.k == "named":
            r = s.structs.get(t.name)
            if r is None: raise IRError("opaque struct " + t.name)
            return r
        return t

    def align(s, t):
        t = s.resolve(t)
        if t.k == "i": return max(1, min(16, 1 << max(0, (((t.n + 7) // 8) - 1)).bit_length()))
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k in ("array", "vector"): return s.align(t.el)
        if t.k == "struct": return 1 if t.packed else max([s.align(e) for e in t.el] or [1])
        raise IRError("align " + repr(t))

    def size(s, t):
        t = s.resolve(t)
        if t.k == "i": 
            b = (t.n + 7) // 8
            a = s.align(t)
            return (b + a - 1) // a * a
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k in ("array", "vector"): return t.n * s.size(t.el)
        if t.k == "struct":
            off = 0
            for e in t.el:
                a = 1 if t.packed else s.align(e)
                off = (off + a - 1) // a * a + s.size(e)
            a = s.align(t)
            return (off + a - 1) // a * a
        raise IRError("size " + repr(t))

    def field_off(s, t, i):
        t = s.resolve(t); off = 0
        for j, e in enumerate(t.el):
            a = 1 if t.packed else s.align(e)
            off = (off + a - 1) // a * a
            if j == i: return off, e
            off += s.size(e)
        raise IRError("field")

    def flat(s, t):
        """list of primitive leaves (offset, type)"""
        t = s.resolve(t)
        if t.k == "struct":
            r = []
            for i in range(len(t.el)):
                o, e = s.field_off(t, i)
                r += [(o + oo, tt) for oo, tt in s.flat(e)]
            return r
        if t.k in ("array",):
            r = []; sz = s.size(t.el)
            if t.n > 4096: return None
            fl = s.flat(t.el)
            for i in range(t.n): r += [(i * sz + o, tt) for o, tt in fl]
            return r
        return [(0, t)]

# ----------------------------------------------------------------- lexer
TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<local>%(?:"[^"]*"|[-\w.$]+))|
  (?P<glob>@(?:"[^"]*"|[-\w.$]+))|
  (?P<meta>![\w.]*)|
  (?P<attr>\#\d+)|
  (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|
  (?P<word>[A-Za-z_.][\w.$-]*)|
  (?P<p>\.\.\.|[()\[\]{}<>,=*:;|])
)''', re.X)

def lex(line):
    out = []; i = 0; n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m or m.end() == i:
            if line[i:].strip() == "": break
            raise IRError("lex: " + line[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

class P:
    def __init__(s, toks): s.t = toks; s.i = 0
    def peek(s, d=0): return s.t[s.i + d][1] if s.i + d < len(s.t) else None
    def kind(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v
    def acc(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise IRError("expected %r got %r in %s" % (v, s.peek(), " ".join(x[1] for x in s.t)))

def unq(n):
    c = n[0]; b = n[1:]
    if b.startswith('"'): b = b[1:-1]
    return b

ATTRW = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext", "noalias",
         "returned", "immarg", "inreg", "nofree", "nest", "swiftself", "inalloca", "noreturn", "nounwind", "dso_local",
         "linkonce_odr", "internal", "private", "external", "weak_odr", "weak", "available_externally", "hidden", "local_unnamed_addr", "unnamed_addr",
         "fastcc", "ccc", "tail", "musttail", "notail", "allocptr", "writable", "dead_on_unwind", "protected", "default", "linkonce", "extern_weak"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}

def skip_attrs(p):
    while True:
        w = p.peek()
        if w in ATTRW: p.next(); continue
        if w == "align":
            p.next()
            if p.acc("("): p.next(); p.exp(")")
            else: p.next()
            continue
        if w in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "memory", "range", "allocsize", "vscale_range", "nofpclass", "preallocated", "elementtype"):
            p.next(); skip_par(p); continue
        break

def skip_par(p):
    if not p.acc("("): return
    d = 1
    while d:
        w = p.next()
        if w == "(": d += 1
        elif w == ")": d -= 1

def ptype(p):
    w = p.next()
    if w == "void": t = VOID
    elif w == "ptr": t = PTR
    elif w == "double": t = F64
    elif w == "float": t = F32
    elif w == "x86_fp80": t = F80
    elif w == "metadata": t = META
    elif w == "label": t = T("label")
    elif w == "token": t = T("token")
    elif re.fullmatch(r"i\d+", w): t = INT(int(w[1:]))
    elif w == "[":
        n = int(p.next()); p.exp("x"); el = ptype(p); p.exp("]"); t = T("array", n, el)
    elif w == "<":
        if p.acc("{"):
            els = []
            while not p.acc("}"):
                els.append(ptype(p)); p.acc(",")
            p.exp(">"); t = T("struct", 0, els, packed=True)
        else:
            n = int(p.next()); p.exp("x"); el = ptype(p); p.exp(">"); t = T("vector", n, el)
    elif w == "{":
        els = []
        while not p.acc("}"):
            els.append(ptype(p)); p.acc(",")
        t = T("struct", 0, els)
    elif w.startswith("%"): t = T("named", name=unq(w))
    else: raise IRError("type " + w)
    while p.peek() == "(":   # function type
        skip_par(p); t = T("fn", 0, t)
    return t

def fpconst(w, t):
    if w.startswith("0x"):
        if w[2] in "KLMHR":
            if w[2] == "K":
                v = int(w[3:], 16); e = (v >> 64) & 0x7fff; m = v & ((1 << 64) - 1)
                return Fraction(m) * Fraction(2) ** (e - 16383 - 63)
            raise IRError("fp " + w)
        d = struct.unpack(">d", bytes.fromhex(w[2:].rjust(16, "0")))[0]
        if d != d or d in (float("inf"), float("-inf")): return ("special", repr(d))
        return Fraction(d)
    return Fraction(float(w))

# operands: ("l",name) ("g",name) ("c",pythonvalue) ("null",) ("undef",) ("agg",[ops]) ("gep",...) ("zero",)
def pval(p, t):
    k = p.kind(); w = p.next()
    if k == "local": return ("l", unq(w))
    if k == "glob": return ("g", unq(w))
    if k == "num":
        if t.k in ("double", "float", "x86_fp80"): return ("c", fpconst(w, t))
        return ("c", int(w))
    if w == "true": return ("c", True)
    if w == "false": return ("c", False)
    if w == "null": return ("null",)
    if w in ("undef", "poison"): return ("undef",)
    if w == "zeroinitializer": return ("zero",)
    if w == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        p.exp("("); bt = ptype(p); p.exp(","); ops = []
        while True:
            while p.peek() == "inrange": p.next()
            ot = ptype(p); ops.append((ot, pval(p, ot)))
            if not p.acc(","): break
        p.exp(")")
        return ("gep", bt, ops)
    if w in ("{", "[", "<"):
        close = {"{": "}", "[": "]", "<": ">"}[w]
        els = []
        if w == "<" and p.acc("{"):
            while not p.acc("}"):
                et = ptype(p); els.append((et, pval(p, et))); p.acc(",")
            p.exp(">"); return ("agg", els)
        while not p.acc(close):
            et = ptype(p); els.append((et, pval(p, et))); p.acc(",")
        return ("agg", els)
    if w in ("inttoptr", "ptrtoint", "bitcast", "trunc", "sext", "zext"):
        p.exp("("); ft = ptype(p); v = pval(p, ft); p.exp("to"); tt = ptype(p); p.exp(")")
        return ("cast", w, ft, v, tt)
    if k == "str": return ("str", w)
    raise IRError("value %s %s" % (k, w))

def ptv(p):
    t = ptype(p); skip_attrs(p); return t, pval(p, t)

class Ins:
    __slots__ = ("op", "res", "ty", "a", "line", "flags", "scope")
    def __init__(s, op, res, ty, a, flags=()):
        s.op, s.res, s.ty, s.a, s.flags, s.line, s.scope = op, res, ty, a, flags, 0, None
    def __repr__(s): return "%s = %s %s %s" % (s.res, s.op, s.ty, s.a)

BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"}

def parse_ins(toks):
    p = P(toks); res = None
    if p.kind() == "local" and p.peek(1) == "=":
        res = unq(p.next()); p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    if op in BIN:
        fl = []
        while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FMF: fl.append(p.next())
        t = ptype(p); a = pval(p, t); p.exp(","); b = pval(p, t)
        return Ins(op, res, t, (a, b), tuple(fl))
    if op == "fneg":
        while p.peek() in FMF: p.next()
        t = ptype(p); return Ins(op, res, t, (pval(p, t),))
    if op in ("icmp", "fcmp"):
        while p.peek() in FMF or p.peek() == "samesign": p.next()
        pr = p.next(); t = ptype(p); a = pval(p, t); p.exp(","); b = pval(p, t)
        return Ins(op, res, t, (pr, a, b))
    if op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw"): p.next()
        t = ptype(p); v = pval(p, t); p.exp("to"); t2 = ptype(p)
        return Ins(op, res, t2, (t, v))
    if op == "phi":
        while p.peek() in FMF: p.next()
        t = ptype(p); inc = []
        while True:
            p.exp("["); v = pval(p, t); p.exp(","); l = unq(p.next()); p.exp("]"); inc.append((v, l))
            if p.peek() == "," and p.peek(1) == "[": p.next(); continue
            break
        return Ins(op, res, t, inc)
    if op == "select":
        while p.peek() in FMF: p.next()
        ct, c = ptv(p); p.exp(","); t, a = ptv(p); p.exp(","); t2, b = ptv(p)
        return Ins(op, res, t, (c, a, b))
    if op == "br":
        if p.acc("label"): return Ins(op, None, VOID, (unq(p.next()),))
        t = ptype(p); c = pval(p, t); p.exp(","); p.exp("label"); l1 = unq(p.next()); p.exp(","); p.exp("label"); l2 = unq(p.next())
        return Ins(op, None, VOID, (c, l1, l2))
    if op == "switch":
        t = ptype(p); v = pval(p, t); p.exp(","); p.exp("label"); d = unq(p.next()); p.exp("["); cs = []
        while not p.acc("]"):
            ct = ptype(p); cv = pval(p, ct); p.exp(","); p.exp("label"); cs.append((cv, unq(p.next())))
        return Ins(op, None, t, (v, d, cs))
    if op == "ret":
        if p.peek() == "void": return Ins(op, None, VOID, ())
        t, v = ptv(p); return Ins(op, None, t, (v,))
    if op == "unreachable": return Ins(op, None, VOID, ())
    if op == "alloca":
        p.acc("inalloca"); t = ptype(p); n = None
        if p.peek() == "," and p.peek(1) != "align":
            p.next(); n = ptv(p)
        return Ins(op, res, t, (n,))
    if op == "load":
        at = False
        while p.peek() in ("atomic", "volatile"): p.next()
        t = ptype(p); p.exp(","); pt, v = ptv(p)
        return Ins(op, res, t, (v,))
    if op == "store":
        while p.peek() in ("atomic", "volatile"): p.next()
        t, v = ptv(p); p.exp(","); pt, q = ptv(p)
        return Ins(op, None, t, (v, q))
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        bt = ptype(p); p.exp(","); ops = []
        while True:
            ops.append(ptv(p))
            if p.peek() == "," and p.t[p.i + 1][0] != "meta": p.next(); continue
            break
        return Ins(op, res, bt, ops)
    if op in ("call", "invoke"):
        while p.peek() in FMF: p.next()
        skip_attrs(p)
        rt = ptype(p); skip_attrs(p)
        if rt.k == "fn": rt = rt.el
        k = p.kind(); w = p.next()
        callee = ("g", unq(w)) if k == "glob" else (("l", unq(w)) if k == "local" else ("x", w))
        if callee[0] == "x":
            return Ins("call", res, rt, (callee, []))
        p.exp("("); args = []
        while not p.acc(")"):
            t = ptype(p); skip_attrs(p)
            if t.k == "metadata":
                # skip metadata operand
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    if x == "(": d += 1
                    elif x == ")": d -= 1
                args.append((t, ("undef",)))
            else:
                args.append((t, pval(p, t)))
            p.acc(",")
        fl = ()
        if op == "invoke":
            while p.peek() != "to": p.next()
            p.next(); p.exp("label"); nl = unq(p.next()); p.exp("unwind"); p.exp("label"); fl = ("invoke", nl, unq(p.next()))
        return Ins("call", res, rt, (callee, args), fl)
    if op == "landingpad":
        t = ptype(p); cl = []
        while p.i < len(p.t) and p.kind() != "meta":
            w = p.next()
            if w == "cleanup": cl.append(("cleanup", None))
            elif w == "catch":
                ct = ptype(p); cl.append(("catch", pval(p, ct)))
            elif w == ",": break
            else: raise IRError("landingpad " + w)
        return Ins(op, res, t, cl)
    if op == "resume":
        t, v = ptv(p); return Ins(op, None, t, (v,))
    if op == "extractvalue":
        t, v = ptv(p); idx = []
        while p.acc(","):
            if p.kind() == "meta": break
            idx.append(int(p.next()))
        return Ins(op, res, t, (v, idx))
    if op == "insertvalue":
        t, v = ptv(p); p.exp(","); t2, v2 = ptv(p); idx = []
        while p.acc(","):
            if p.kind() == "meta": break
            idx.append(int(p.next()))
        return Ins(op, res, t, (v, t2, v2, idx))
    if op == "freeze":
        t, v = ptv(p); return Ins(op, res, t, (v,))
    if op in ("extractelement", "insertelement", "shufflevector", "atomicrmw", "cmpxchg", "fence", "va_arg"):
        return Ins("unsupported", res, VOID, (op,))
    raise IRError("instr " + op)

INVOKE = re.compile(r"^\s*(?:%\S+ = )?invoke ")
CLAUSE = re.compile(r"^\s+(?:catch|cleanup|filter)\b")
class Func:
    def __init__(s, name): s.name = name; s.params = []; s.blocks = {}; s.order = []; s.rty = None; s.raw = None; s.mod = None; s.loops = None

    def parse_body(s):
        if s.raw is None: return
        raw, s.raw = s.raw, None
        cur = None; n_unnamed = None
        m = s.mod
        acc = ""
        raw = [ln for ln in raw if ln.strip() and not ln.lstrip().startswith(";")]; nxt = raw[1:] + [None]
        for k, ln in enumerate(raw):
            lm = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if lm and not ln.startswith(" "):
                cur = lm.group(1).strip('"'); s.blocks[cur] = []; s.order.append(cur); continue
            if cur is None:
                cur = str(len(s.params)) if s.entry_unnamed() else "entry"
                s.blocks[cur] = []; s.order.append(cur)
            acc = acc + " " + ln if acc else ln
            if acc.count("[") > acc.count("]"): continue   # multi-line switch
            if INVOKE.match(acc) and " unwind label " not in acc: continue
            if nxt[k] is not None and CLAUSE.match(nxt[k]): continue     # landingpad clauses
            full, acc = acc, ""
            dm = re.search(r"!dbg !(\d+)", full)
            try:
                ins = parse_ins(lex(full))
            except IRError as e:
                ins = Ins("unsupported", None, VOID, (str(e),))
                rm = re.match(r"\s*%([-\w.$]+) =", full)
                if rm: ins.res = rm.group(1)
            ins.line = m.lines.get(dm.group(1), 0) if dm else 0
            s.blocks[cur].append(ins)
            if ins.op == "call" and ins.flags:
                br = Ins("br", None, VOID, (ins.flags[1],)); br.line = ins.line; s.blocks[cur].append(br)
        s.analyze()

    def entry_unnamed(s):
        return all(n.isdigit() for _, n in s.params) or not s.params

    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == "br":
            if len(t.a) == 3: return [t.a[1], t.a[2]]
            c = s.blocks[b][-2] if len(s.blocks[b]) > 1 else None
            return [t.a[0], c.flags[2]] if c is not None and c.op == "call" and c.flags else [t.a[0]]
        if t.op == "switch": return [t.a[1]] + [l for _, l in t.a[2]]
        return []

    def analyze(s):
        entry = s.order[0]
        # reverse postorder
        seen = set(); post = []
        stack = [(entry, iter(s.succs(entry)))]; seen.add(entry)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); stack.append((x, iter(s.succs(x)))); break
            else:
                post.append(b); stack.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for x in s.succs(b): preds[x].append(b)
        idom = {entry: entry}; ch = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [q for q in preds[b] if q in idom]
                n = ps[0]
                for q in ps[1:]: n = inter(n, q)
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        s.loops = {}
        for b in rpo:
            for x in s.succs(b):
                if dom(x, b):
                    body = s.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y); st += preds[y]
                elif num[x] <= num[b]:
                    raise IRError("irreducible loop in " + s.name)
        s.loop_index = {h: i for i, h in enumerate(sorted(s.loops, key=lambda h: num[h]))}
        s.preds = preds

def parse_module(text):
    m = Module(); lines = text.split("\n"); i = 0
    scopes = {}
    m.text = lines
    for ln in lines:
        mm = re.match(r"!(\d+) = !DILocation\(line: (\d+)", ln)
        if mm: m.lines[mm.group(1)] = int(mm.group(2))
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("%") and " = type " in ln:
            nm, rhs = ln.split(" = type ", 1)
            if rhs.strip() != "opaque":
                m.structs[unq(nm)] = ptype(P(lex(rhs)))
        elif ln.startswith("@"):
            gm = re.match(r"@(\"[^\"]*\"|[-\w.$]+) = (.*)", ln)
            m.globals[gm.group(1).strip('"')] = gm.group(2)
        elif ln.startswith("define") or ln.startswith("declare"):
            toks = lex(ln.split("{")[0] if ln.startswith("define") and ln.rstrip().endswith("{") and "{ " not in ln.split("(")[0] else ln)
            p = P(toks); kw = p.next()
            while p.kind() == "meta" or (p.peek() or "").startswith("!"): p.next()
            skip_attrs(p)
            while p.kind() == "word" and p.peek() in ("noalias",): p.next()
            rt = ptype(p)
            while p.kind() != "glob": p.next()
            nm = unq(p.next())
            f = Func(nm); f.mod = m; f.rty = rt
            p.exp("(")
            j = 0
            while not p.acc(")"):
                if p.acc("..."): continue
                t = ptype(p); skip_attrs(p)
                if p.kind() == "local": n = unq(p.next())
                else: n = str(j)
                f.params.append((t, n)); j += 1
                p.acc(",")
            if kw == "define":
                k = i + 1
                while lines[k] != "}": k += 1
                f.raw = lines[i + 1:k]; i = k
                m.funcs[nm] = f
            else:
                m.decls[nm] = f
        i += 1
    names = list(m.funcs) + list(m.decls)
    r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True)
    for a, b in zip(names, r.stdout.split("\n")): m.demangled[a] = b
    return m
