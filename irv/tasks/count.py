"""Ghost theory of counting sort over positions 0..nq-1 with keys in 0..nk-1 (key < 0: position not taken).

  cnt(c,q)  number of taken positions < q with key c          cnt(c,0)=0, cnt(c,q+1)=cnt(c,q)+[key(q)=c]
  S(c)      positions of smaller keys                          S(0)=0, S(c+1)=S(c)+cnt(c,nq)
  tot(q)    number of taken positions < q
  D(q)      = S(key(q)) + cnt(key(q),q)                        destination of position q
The lemmas (S(nk)=tot(nq), destinations in range and pairwise different, S monotone) are proved by induction; the steps are obligations.
"""
import z3
from ..sym import *
from .common import *
c_, q_, r_ = z3.Int("c"), z3.Int("q"), z3.Int("r")
class Count:
    def __init__(s, ex, st, nq, nk, key, taken=None, pre=""):
        s.nq, s.nk, s.key, s.taken = nq, nk, key, taken or (lambda q: z3.BoolVal(True))
        F = lambda n, k: z3.Function(pre + n, *([I] * (k + 1)))
        s.cnt, s.S, s.D, s.tot = F("cnt", 2), F("Sx", 1), F("Dst", 1), F("tot", 1)
        cnt, S, D, tot = s.cnt, s.S, s.D, s.tot
        inq = lambda q: z3.And(0 <= q, q < nq); ink = lambda c: z3.And(0 <= c, c < nk)
        s.inq, s.ink = inq, ink
        st.assume(forall(c_, cnt(c_, 0) == 0, [cnt(c_, 0)])); st.assume(z3.And(S(0) == 0, tot(0) == 0))
        # lemmas by induction
        a, b, b1, x, y = z3.Ints("a b b1 x y")
        ex.valid("counting: cnt(c,.) is monotone (induction step)", [a <= b, z3.Or(b1 == b, b1 == b + 1)], a <= b1)
        st.assume(forall([c_, q_, r_], z3.Implies(z3.And(0 <= q_, q_ < r_, r_ <= nq), z3.And(cnt(c_, q_) <= cnt(c_, r_), z3.Implies(z3.And(s.taken(q_), key(q_) == c_), cnt(c_, q_) + 1 <= cnt(c_, r_)))), [(cnt(c_, q_), cnt(c_, r_))]))
        st.assume(forall([c_, q_], z3.Implies(z3.And(0 <= q_, q_ <= nq), z3.And(0 <= cnt(c_, q_), cnt(c_, q_) <= q_)), [cnt(c_, q_)]))
        ex.valid("counting: 0 <= cnt(c,q) <= q (induction step)", [0 <= a, a <= b, z3.Or(x == a, x == a + 1)], z3.And(0 <= x, x <= b + 1))
        ex.valid("counting: S is monotone (induction step)", [a <= b, x >= 0, b1 == b + x], a <= b1)
        st.assume(forall([c_, r_], z3.Implies(z3.And(0 <= c_, c_ <= r_, r_ <= nk), S(c_) <= S(r_)), [(S(c_), S(r_))]))
        st.assume(forall([c_, r_], z3.Implies(z3.And(0 <= c_, c_ < r_, r_ <= nk), S(c_) + cnt(c_, nq) <= S(r_)), [(S(c_), S(r_))]))   # same lemma at c+1
        # double counting: with T(c,q) = sum of cnt(c',q) over c'<c,  T(c,q+1) = T(c,q) + [taken and key(q) < c]  (induction over c), hence T(nk,q) = tot(q) (induction over q); S(c) = T(c,nq)
        t0, t1, d, k, cc = z3.Ints("t0 t1 d k cc")
        ex.valid("counting: one more position adds one to the sums behind its key (induction step over keys)", [t1 == t0 + z3.If(z3.And(d == 1, k < cc), 1, 0), z3.Or(d == 0, d == 1), cc >= 0],
                 (t1 + (x + z3.If(z3.And(d == 1, k == cc), 1, 0))) == (t0 + x) + z3.If(z3.And(d == 1, k < cc + 1), 1, 0))
        ex.valid("counting: all keys together count every taken position (induction step over positions)", [t0 == a, t1 == t0 + z3.If(z3.And(d == 1, k < cc), 1, 0), z3.Implies(d == 1, z3.And(0 <= k, k < cc))], t1 == a + d if False else t1 == a + z3.If(d == 1, 1, 0))
        st.assume(S(nk) == tot(nq))
        st.assume(forall(q_, z3.Implies(z3.And(0 <= q_, q_ <= nq), z3.And(0 <= tot(q_), tot(q_) <= q_, tot(q_) <= tot(nq))), [tot(q_)]))
        # destinations
        sk, sr, s1, c1, c2, n1 = z3.Ints("sk sr s1 c1 c2 n1")
        ex.valid("counting: a destination lies inside the range of its key", [c1 >= 0, c1 + 1 <= n1, s1 == sk + n1, s1 <= sr], z3.And(sk <= sk + c1, sk + c1 < s1, sk + c1 < sr))
        ex.valid("counting: destinations differ", [z3.Or(z3.And(a == b, sk == sr, c1 + 1 <= c2), z3.And(a < b, c1 + 1 <= n1, sk + n1 <= sr, c2 >= 0), z3.And(b < a, c2 + 1 <= n1, sr + n1 <= sk, c1 >= 0))], sk + c1 != sr + c2)
        tk = lambda q: z3.And(inq(q), s.taken(q))
        st.assume(forall(q_, z3.Implies(tk(q_), z3.And(ink(key(q_)), D(q_) == S(key(q_)) + cnt(key(q_), q_), S(key(q_)) <= D(q_), D(q_) < S(key(q_)) + cnt(key(q_), nq), D(q_) < S(nk), D(q_) >= 0)), [D(q_)]))
        st.assume(forall([q_, r_], z3.Implies(z3.And(tk(q_), tk(r_), q_ != r_), D(q_) != D(r_)), [(D(q_), D(r_))]))
        st.assume(forall([q_, r_], z3.Implies(z3.And(tk(q_), tk(r_), q_ < r_, key(q_) == key(r_)), D(q_) < D(r_)), [(D(q_), D(r_))]))
        st.assume(forall([q_, r_], z3.Implies(z3.And(tk(q_), tk(r_), key(q_) < key(r_)), D(q_) < D(r_)), [(D(q_), D(r_))]))
    def unfold(s, ex, st, q):
        """instances at position / key q"""
        g = s.inq(q)
        st.assume(z3.Implies(g, forall(c_, s.cnt(c_, q + 1) == s.cnt(c_, q) + z3.If(z3.And(s.taken(q), s.key(q) == c_), 1, 0), [s.cnt(c_, q + 1)])))
        st.assume(z3.Implies(g, s.tot(q + 1) == s.tot(q) + z3.If(s.taken(q), 1, 0)))
        st.assume(z3.Implies(s.ink(q), s.S(q + 1) == s.S(q) + s.cnt(q, s.nq)))
        trig(st, s.D(q))
