------------------------------ MODULE FuncSpec ------------------------------
\* Function objects of one variable (C13): expressions, their values and derivatives, in exact rational arithmetic.
\* A rational is <<n, d>>; <<0, 0>> is "not determined here" (irrational, outside of the domain or too large).
\* The state is the list of objects built so far; each is [k |-> kind, p |-> parameters, a |-> operands].
EXTENDS Rat, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
InitSt(cfg) == [cfg |-> cfg, n |-> << >>]


\* ---- truncated power series: <<f, f', f''/2, ...>> at a point
RECURSIVE SumF(_, _, _)
SumF(f, lo, hi) == IF lo > hi THEN Zero ELSE Add(f[lo], SumF(f, lo + 1, hi))
Con(c, n) == [k \in 1..(n + 1) |-> IF k = 1 THEN c ELSE Zero]
Un(n) == [k \in 1..(n + 1) |-> U]
JAdd(a, b) == [k \in 1..Len(a) |-> Add(a[k], b[k])]
JSub(a, b) == [k \in 1..Len(a) |-> Sub(a[k], b[k])]
JScale(a, c) == [k \in 1..Len(a) |-> Mul(a[k], c)]
JMul(a, b) == [k \in 1..Len(a) |-> SumF([j \in 1..k |-> Mul(a[j], b[k + 1 - j])], 1, k)]
RECURSIVE JDivAt(_, _, _)
JDivAt(a, b, k) == IF k = 0 THEN << >>
  ELSE LET q == JDivAt(a, b, k - 1)
       IN Append(q, Div(Sub(a[k], SumF([j \in 1..(k - 1) |-> Mul(b[k + 1 - j], q[j])], 1, k - 1)), b[1]))
JDiv(a, b) == JDivAt(a, b, Len(a))
\* product with a series whose constant term is zero
JMulH(r, h) == [k \in 1..Len(r) |-> SumF([j \in 1..(k - 1) |-> Mul(h[j + 1], r[k - j])], 1, k - 1)]
RECURSIVE Horner(_, _, _)
Horner(f, h, j) == IF j > Len(f) THEN Con(Zero, Len(f) - 1)
                   ELSE LET r == JMulH(Horner(f, h, j + 1), h) IN [r EXCEPT ![1] = Add(r[1], f[j])]
JComp(f, g) == Horner(f, g, 1)
RECURSIVE Binom(_, _)
Binom(e, k) == IF k = 0 THEN I(1) ELSE Div(Mul(Binom(e, k - 1), Sub(e, I(k - 1))), I(k))
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
PowJ(e, x, n) ==
  [k1 \in 1..(n + 1) |->
    LET k == k1 - 1 c == Binom(e, k) IN
    IF ~Known(x) \/ ~Known(c) THEN U
    ELSE IF c[1] = 0 THEN Zero
    ELSE IF e[2] = 1 THEN LET m == e[1] - k IN IF x[1] = 0 THEN (IF m > 0 THEN Zero ELSE IF m = 0 THEN c ELSE U) ELSE Mul(c, Pow(x, m))
    ELSE IF e[2] = 2 /\ x[1] > 0 THEN LET s == Sqrt(x) IN IF Known(s) THEN Mul(c, Pow(s, e[1] - 2 * k)) ELSE U
    ELSE U]
RECURSIVE PolyJ(_, _, _, _)
PolyJ(p, x, n, i) == IF i = 0 THEN Con(Zero, n)
  ELSE JAdd(JMul(PolyJ(p, x, n, i - 1), [k \in 1..(n + 1) |-> IF k = 1 THEN x ELSE IF k = 2 THEN I(1) ELSE Zero]), Con(p[i], n))
Half(p) == Len(p) \div 2
TabJ(p, linear, x, n) ==
  LET m == Half(p) t == [i \in 1..m |-> p[i]] f == [i \in 1..m |-> p[m + i]]
      knot == \E i \in 1..m : t[i] = x
      rest(v, d) == [k \in 1..(n + 1) |-> IF k = 1 THEN v ELSE IF knot THEN U ELSE IF k = 2 THEN d ELSE Zero]
  IN IF ~Known(x) THEN Un(n)
     ELSE IF ~Less(t[1], x) THEN rest(f[1], Zero)
     ELSE IF ~Less(x, t[m]) THEN rest(f[m], Zero)
     ELSE LET i == CHOOSE j \in 1..(m - 1) : ~Less(x, t[j]) /\ Less(x, t[j + 1])
          IN IF linear THEN LET d == Div(Sub(f[i + 1], f[i]), Sub(t[i + 1], t[i])) IN rest(Add(f[i], Mul(d, Sub(x, t[i]))), d)
             ELSE rest(f[i], Zero)
Sg(k) == IF (k \div 2) % 2 = 0 THEN 1 ELSE -1
RECURSIVE Jet(_, _, _, _)
Jet(N, i, x, n) ==
  LET e == N[i] p == e.p IN
  CASE e.k = "constant" -> IF Known(x) THEN Con(p[1], n) ELSE Un(n)
    [] e.k = "functor" -> Con(Zero, n)
    [] e.k = "pow" -> PowJ(p[1], x, n)
    [] e.k = "polynomial3" -> IF Known(x) THEN PolyJ(p, x, n, Len(p)) ELSE Un(n)
    [] e.k = "exp" -> IF Mul(p[1], x) = Zero THEN [k \in 1..(n + 1) |-> Div(Pow(p[1], k - 1), I(Fact(k - 1)))] ELSE Un(n)
    [] e.k = "sin" -> IF Mul(p[1], x) = Zero THEN [k \in 1..(n + 1) |-> IF k % 2 = 1 THEN Zero ELSE Div(Mul(I(Sg(k - 2)), Pow(p[1], k - 1)), I(Fact(k - 1)))] ELSE Un(n)
    [] e.k = "cos" -> IF Mul(p[1], x) = Zero THEN [k \in 1..(n + 1) |-> IF k % 2 = 0 THEN Zero ELSE Div(Mul(I(Sg(k - 1)), Pow(p[1], k - 1)), I(Fact(k - 1)))] ELSE Un(n)
    [] e.k = "log" -> IF Mul(p[1], x) = I(1) THEN [k \in 1..(n + 1) |-> IF k = 1 THEN Zero ELSE Div(I(IF k % 2 = 0 THEN 1 ELSE -1), Mul(I(k - 1), Pow(x, k - 1)))] ELSE Un(n)
    [] e.k = "Fourier" -> LET m == Half(p) - 1 IN
         IF Mul(p[m + 2], x) = Zero THEN [Un(n) EXCEPT ![1] = Add(Div(p[1], I(2)), SumF(p, 2, m + 1))] ELSE Un(n)
    [] e.k = "Gaussian" -> IF x = p[2] THEN [Un(n) EXCEPT ![1] = p[1]] ELSE Un(n)
    [] e.k = "Arrhenius" -> LET m == Len(p) \div 3 IN
         IF Known(x) /\ x # Zero /\ \A j \in 1..m : p[3 * j] = Zero
         THEN [Un(n) EXCEPT ![1] = SumF([j \in 1..m |-> Mul(p[3 * j - 2], PowJ(p[3 * j - 1], x, 0)[1])], 1, m)] ELSE Un(n)
    [] e.k \in {"tabulated-linear", "tabulated-previous"} -> TabJ(p, e.k = "tabulated-linear", x, n)
    [] e.k = "sum" -> JAdd(Jet(N, e.a[1], x, n), Jet(N, e.a[2], x, n))
    [] e.k = "diff" -> JSub(Jet(N, e.a[1], x, n), Jet(N, e.a[2], x, n))
    [] e.k = "product" -> JMul(Jet(N, e.a[1], x, n), Jet(N, e.a[2], x, n))
    [] e.k = "ratio" -> JDiv(Jet(N, e.a[1], x, n), Jet(N, e.a[2], x, n))
    [] e.k = "composite" -> LET g == Jet(N, e.a[2], x, n) IN IF Known(g[1]) THEN JComp(Jet(N, e.a[1], g[1], n), g) ELSE Un(n)
    [] e.k = "times-constant" -> JScale(Jet(N, e.a[1], x, n), p[1])
    [] e.k = "plus-constant" -> JAdd(Jet(N, e.a[1], x, n), Con(p[1], n))
    [] e.k = "periodic" -> IF ~Known(x) THEN Un(n) ELSE
         LET q == Div(x, p[1]) IN IF ~Known(q) THEN Un(n) ELSE
         LET y == Sub(x, Mul(I(Floor(q)), p[1])) j == Jet(N, e.a[1], y, n)
         IN [k \in 1..(n + 1) |-> IF k > 1 /\ y = Zero THEN U ELSE j[k]]
    [] e.k = "derivative" -> LET j == Jet(N, e.a[1], x, n + 1) IN [k \in 1..(n + 1) |-> Mul(I(k), j[k + 1])]
Val(N, i, x) == Jet(N, i, x, 0)[1]

\* ---- which constructions are possible
RECURSIVE Has(_, _, _)
Has(N, i, ks) == N[i].k \in ks \/ \E j \in 1..Len(N[i].a) : Has(N, N[i].a[j], ks)
RECURSIVE RatioBad(_, _, _)
RatioBad(N, i, xs) == \/ N[i].k = "ratio" /\ \A q \in 1..Len(xs) : LET v == Val(N, N[i].a[2], xs[q]) IN ~Known(v) \/ v = Zero
                      \/ \E j \in 1..Len(N[i].a) : RatioBad(N, N[i].a[j], xs)
NoDer == {"polynomial3", "Fourier", "Gaussian", "Arrhenius", "periodic", "functor"}
CountOk(k, p) ==
  LET m == Len(p) IN
  CASE k \in {"sin", "cos", "exp", "log", "pow", "constant"} -> m = 1
    [] k = "functor" -> TRUE
    [] k = "polynomial3" -> m >= 1
    [] k = "Fourier" -> m >= 4 /\ m % 2 = 0
    [] k = "Gaussian" -> m = 3
    [] k = "Arrhenius" -> m >= 3 /\ m % 3 = 0
    [] k \in {"tabulated-linear", "tabulated-previous"} -> m >= 4 /\ m % 2 = 0 /\ \A i \in 1..(Half(p) - 1) : Less(p[i], p[i + 1])
    [] OTHER -> FALSE
Fits(want, got) == ~Known(want) \/ want = got
Vals(N, i, xs) == [q \in 1..Len(xs) |-> Val(N, i, xs[q])]
ValsOk(N, i, xs, v) == Len(v) = Len(xs) /\ \A q \in 1..Len(xs) : Fits(Val(N, i, xs[q]), v[q])

Check(s, op, obs) ==
  LET xs == s.cfg.xs
      new(node, must, may) ==
        LET N == Append(s.n, node) IN
        IF obs.r = 1 THEN Res(may /\ ValsOk(N, Len(N), xs, obs.v), [s EXCEPT !.n = N], Vals(N, Len(N), xs))
        ELSE Res(obs.r = -1 /\ ~must, s, "must be accepted")
  IN
  CASE op.op = "base" -> LET ok == CountOk(op.k, op.p) IN new([k |-> op.k, p |-> op.p, a |-> << >>], ok, ok)
    [] op.op = "bin" ->
         LET node == [k |-> op.k, p |-> << >>, a |-> <<op.a + 1, op.b + 1>>] N == Append(s.n, node)
         IN new(node, ~(op.k = "ratio" /\ RatioBad(N, Len(N), xs)), TRUE)
    [] op.op = "con" -> new([k |-> op.k, p |-> <<op.c>>, a |-> <<op.a + 1>>], TRUE, TRUE)
    [] op.op = "der" -> new([k |-> "derivative", p |-> << >>, a |-> <<op.a + 1>>],
                            ~Has(s.n, op.a + 1, NoDer) /\ ~RatioBad(s.n, op.a + 1, xs), TRUE)
    [] op.op = "bad" -> Res(obs.r = -1, s, "refused")
    [] op.op = "same" -> Res(obs.r = 0 \/ \A q \in 1..Len(xs) : LET v == Val(s.n, op.a + 1, xs[q]) w == Val(s.n, op.b + 1, xs[q])
                                                              IN Known(v) /\ Known(w) => v = w, s, "identical functions are equal everywhere")
    [] op.op = "again" -> Res(Len(obs.all) = Len(s.n) /\ \A i \in 1..Len(s.n) : ValsOk(s.n, i, xs, obs.all[i]), s,
                              [i \in 1..Len(s.n) |-> Vals(s.n, i, xs)])
Inv(s) == \A i \in 1..Len(s.n) : \A j \in 1..Len(s.n[i].a) : s.n[i].a[j] < i

\* ------------------------------------------------- small model: the laws of the algebra, on every small expression
MXs == <<I(-2), I(0), I(1), <<1, 2>>, I(4)>>
MBase == {[k |-> "constant", p |-> <<I(3)>>, a |-> << >>], [k |-> "pow", p |-> <<I(1)>>, a |-> << >>], [k |-> "pow", p |-> <<I(2)>>, a |-> << >>],
          [k |-> "pow", p |-> <<<<1, 2>>>>, a |-> << >>], [k |-> "exp", p |-> <<I(2)>>, a |-> << >>], [k |-> "sin", p |-> <<I(1)>>, a |-> << >>],
          [k |-> "tabulated-linear", p |-> <<I(-3), I(1), I(3), I(0), I(2), I(5)>>, a |-> << >>]}
MBin == {"sum", "diff", "product", "ratio", "composite"}
Init == \E f, g \in MBase, h \in {b \in MBase : b.k \in {"constant", "exp"} \/ (b.k = "pow" /\ b.p[1] = I(2))} : st = [n |-> <<f, g, h>>, top |-> 0]
Next == /\ st.top < 2
        /\ \E k \in MBin, i, j \in 1..Len(st.n) : (st.top = 0 => i <= 2 /\ j <= 2) /\ (st.top = 1 => (i = 4 /\ j = 3) \/ (i = 3 /\ j = 4))
             /\ st' = [n |-> Append(st.n, [k |-> k, p |-> << >>, a |-> <<i, j>>]), top |-> st.top + 1]
Eqv(a, b) == ~Known(a) \/ ~Known(b) \/ a = b
Nd(k, a) == [k |-> k, p |-> << >>, a |-> a]
\* the derivative of the last object, computed by the classical rules, equals the one of the series
MCInv ==
  LET N == st.n L == Len(N) e == N[L] IN
  e.k \in MBin =>
    LET f == e.a[1] g == e.a[2]
        M == N \o <<Nd("derivative", <<L>>), Nd("derivative", <<f>>), Nd("derivative", <<g>>)>>
        d == L + 1 df == L + 2 dg == L + 3
        R == CASE e.k = "sum" -> M \o <<Nd("sum", <<df, dg>>)>>
               [] e.k = "diff" -> M \o <<Nd("diff", <<df, dg>>)>>
               [] e.k = "product" -> M \o <<Nd("product", <<df, g>>), Nd("product", <<f, dg>>), Nd("sum", <<L + 4, L + 5>>)>>
               [] e.k = "ratio" -> M \o <<Nd("product", <<df, g>>), Nd("product", <<f, dg>>), Nd("diff", <<L + 4, L + 5>>), Nd("product", <<g, g>>), Nd("ratio", <<L + 6, L + 7>>)>>
               [] e.k = "composite" -> M \o <<Nd("composite", <<df, g>>), Nd("product", <<L + 4, dg>>)>>
    IN \A q \in 1..Len(MXs) : Eqv(Val(R, d, MXs[q]), Val(R, Len(R), MXs[q]))
MCBound == TRUE
=============================================================================
