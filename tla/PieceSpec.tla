------------------------------ MODULE PieceSpec ------------------------------
\* Piecewise and composite models (C19): which piece applies and what it gives, in exact rational arithmetic.
\* T = 2^t K and P = 2^(p/4) Pu for rates and tables of pressures, with Pu = 1024 R (so that concentrations P/RT are powers of two); T20 = 20 T for species models.
\* A rate constant is [k |-> value, l2 |-> log2, l10 |-> log10], each a rational or U where it is not one.
EXTENDS Rat, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
InitSt(cfg) == [rates |-> cfg.rates, sp |-> cfg.sp]

Nope == [k |-> U, l2 |-> U, l10 |-> U]
FromL2(q) == [k |-> PowI(2, q), l2 |-> q, l10 |-> U]
FromK(r) == [k |-> r, l2 |-> Log2(r), l10 |-> U]
FromL10(q) == [k |-> IF IsInt(q) /\ q[1] <= 4 /\ q[1] >= -4 THEN Pow(I(10), q[1]) ELSE U, l2 |-> U, l10 |-> q]

\* 2^(10 - t) as a rational
Inv10(t) == IF t <= 10 THEN Pow(I(2), 10 - t) ELSE Div(I(1), Pow(I(2), t - 10))
\* exponent of an Arrhenius term m 2^a T^b exp(-E/T), E = 1024 e ln 2
Ex(a, b, e, t) == Sub(I(a + b * t), Mul(I(e), Inv10(t)))
\* the sum of the terms of one pressure
Group(es, t) ==
  LET x1 == Ex(es[1].a, es[1].b, es[1].e, t)
      S == SumR([i \in 1..Len(es) |-> LET d == Sub(Ex(es[i].a, es[i].b, es[i].e, t), x1) IN Mul(I(es[i].m), PowI(2, d))], 1, Len(es))
  IN [k |-> Mul(S, PowI(2, x1)), l2 |-> Add(Log2(S), x1), l10 |-> U]
Ps(es) == {es[i].p : i \in 1..Len(es)}
At(es, p) == SelectSeq(es, LAMBDA x : x.p = p)
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
\* p is a rational here (effective pressures of mixtures)
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
Plog(es, t, p) ==
  LET S == Ps(es) lo == {q \in S : Le(I(q), p)} hi == {q \in S : Le(p, I(q))} IN
  IF Cardinality(S) = 1 THEN Group(es, t)
  ELSE IF ~Known(p) THEN Nope
  ELSE IF lo = {} THEN Group(At(es, MinS(S)), t)
  ELSE IF hi = {} THEN Group(At(es, MaxS(S)), t)
  ELSE LET a == MaxS(lo) b == MinS(hi) IN
       IF a = b THEN Group(At(es, a), t)
       ELSE LET ga == Group(At(es, a), t) gb == Group(At(es, b), t)
                w == Div(Sub(p, I(a)), I(b - a))
            IN IF Known(ga.l2) /\ Known(gb.l2) THEN FromL2(Add(ga.l2, Mul(w, Sub(gb.l2, ga.l2)))) ELSE Nope

RECURSIVE ChebT(_, _)
ChebT(n, x) == IF n = 0 THEN I(1) ELSE IF n = 1 THEN x ELSE Sub(Mul(Mul(I(2), x), ChebT(n - 1, x)), ChebT(n - 2, x))
Cheb(r, t, p) ==
  LET a == Pow(I(2), 12 - t) b == Pow(I(2), 12 - r.t0) c == Pow(I(2), 12 - r.t1)
      x == Div(Sub(Sub(Mul(I(2), a), b), c), Sub(c, b))
      y == IF Known(p) THEN Div(Sub(Mul(I(2), p), I(r.p0 + r.p1)), I(r.p1 - r.p0)) ELSE U
      one(i) == SumR([j \in 1..Len(r.c[i]) |-> IF r.c[i][j] = 0 THEN Zero ELSE Mul(I(r.c[i][j]), Mul(ChebT(i - 1, x), ChebT(j - 1, y)))], 1, Len(r.c[i]))
  IN FromL10(SumR([i \in 1..Len(r.c) |-> one(i)], 1, Len(r.c)))

\* falloff with a broadening factor of one; k0 = 2^a0, kinf = 2^ai
Blend(r, t, p) ==
  LET conc == PowI(2, IF Known(p) THEN Add(p, I(10 - t)) ELSE U)
      pr == Mul(PowI(2, I(r.a0 - r.ai)), conc)
  IN FromK(Mul(PowI(2, I(r.ai)), Div(pr, Add(I(1), pr))))
Simple(r, t, p) == CASE r.ty = "plog" -> Plog(r.es, t, Mul(I(4), p)) [] r.ty = "cheb" -> Cheb(r, t, p) [] r.ty = "troe1" -> Blend(r, t, p)

\* linear mixture rule: every collider contributes its own rate constant at its effective pressure
Burke(r, t, p, X) ==
  LET n == Len(r.col) tot == SumR([i \in 1..Len(X) |-> I(X[i])], 1, Len(X))
      x(i) == Div(I(X[r.col[i].sp]), tot)
      xM == Sub(I(1), SumR([i \in 1..n |-> x(i)], 1, n))
      le(i) == I(r.col[i].ea + r.col[i].eb * t)                  \* log2 of the efficiency
      eps(i) == PowI(2, le(i))
      mix == Add(xM, SumR([i \in 1..n |-> Mul(eps(i), x(i))], 1, n))
      lm == Log2(mix)
      k(i) == IF r.col[i].own THEN Simple(r.col[i].r, t, Sub(Add(p, lm), le(i))) ELSE Simple(r.M, t, Add(p, lm))
      part(i) == Div(Mul(Mul(eps(i), x(i)), k(i).k), mix)
      z(i) == X[r.col[i].sp] = 0
  IN FromK(Add(SumR([i \in 1..n |-> IF z(i) THEN Zero ELSE part(i)], 1, n), IF xM = Zero THEN Zero ELSE Div(Mul(xM, Simple(r.M, t, Add(p, lm)).k), mix)))
Rate(r, t, p, X) == IF r.ty = "burke" THEN Burke(r, t, p, X) ELSE Simple(r, t, p)
Fits(e, o) == (Known(e.k) => o.k = e.k) /\ (Known(e.l2) => o.l2 = e.l2) /\ (Known(e.l10) => o.l10 = e.l10)

\* ---- broadening factors.  Temperatures in units of ln 2 (T3 = t3/ln 2, T2 = t2 ln 2; 0: the term is absent), so that the exponentials are powers of two
Fcent(o, t) ==
  LET T == Pow(I(2), t)
      dn(c) == IF c = 0 THEN Zero ELSE PowI(2, Neg(Div(T, I(c))))
  IN CASE o.ty = "Troe" -> Add(Add(Mul(Sub(I(1), o.A), dn(o.t3)), Mul(o.A, dn(o.t1))), IF o.t2 = 0 THEN Zero ELSE PowI(2, Neg(Div(I(o.t2), T))))
       [] o.ty = "Tsang" -> Add(o.A, Mul(o.B, T))
       [] o.ty = "SRI" -> Add(Mul(o.A, PowI(2, Neg(Div(I(o.t2), T)))), dn(o.t3))
\* log2 of F; o.f2 is the square of the abscissa (f1 or log10 Pr)
LF(o, t) == LET c == Log2(Fcent(o, t)) w == Div(c, I(1 + o.f2)) IN IF o.ty = "SRI" THEN Add(w, I(o.d + o.e * t)) ELSE w

\* Blowers-Masel activation energy
BM(E, w, dH) ==
  LET vp == Div(Mul(I(2 * w), I(w + E)), I(w - E)) q == Add(Sub(vp, I(2 * w)), I(dH)) IN
  IF dH < -4 * E THEN Zero ELSE IF dH > 4 * E THEN I(dH)
  ELSE Div(Mul(Add(I(w), <<dH, 2>>), Mul(q, q)), Add(Sub(Mul(vp, vp), I(4 * w * w)), I(dH * dH)))

\* ---- species thermo
Tau(T20) == Norm(T20, 20000)
Poly(c, x, from, w(_)) == SumR([i \in 1..Len(c) |-> IF i < from \/ c[i] = 0 THEN Zero ELSE Mul(Mul(I(c[i]), w(i)), Pow(x, i - from))], 1, Len(c))
One(i) == I(1)
Lnz(a, x) == IF a = 0 \/ x = I(1) THEN Zero ELSE U
Nasa7(c, x) ==
  LET n == SubSeq(c, 1, 5) iv(i) == <<1, i>>
      m(i) == IF i = 1 THEN I(1) ELSE <<1, i - 1>>
  IN [cp |-> Poly(n, x, 1, One), h |-> Add(Poly(n, x, 1, iv), Div(I(c[6]), x)),
      s |-> Add(Add(Poly([i \in 1..5 |-> IF i = 1 THEN 0 ELSE n[i]], x, 1, m), I(c[7])), Lnz(n[1], x))]
Nasa9(c, x) ==
  LET n == SubSeq(c, 3, 7) iv(i) == <<1, i>> m(i) == IF i = 1 THEN I(1) ELSE <<1, i - 1>>
      r1 == Div(I(1), x) r2 == Mul(r1, r1)
  IN [cp |-> Add(Add(Mul(I(c[1]), r2), Mul(I(c[2]), r1)), Poly(n, x, 1, One)),
      h |-> Add(Add(Mul(I(-c[1]), r2), Lnz(c[2], x)), Add(Poly(n, x, 1, iv), Mul(I(c[8]), r1))),
      s |-> Add(Add(Mul(<<-c[1], 2>>, r2), Mul(I(-c[2]), r1)), Add(Add(Poly([i \in 1..5 |-> IF i = 1 THEN 0 ELSE n[i]], x, 1, m), I(c[9])), Lnz(n[1], x)))]
Shom(c, x) ==
  LET n == SubSeq(c, 1, 4) iv(i) == <<1, i>> m(i) == IF i = 1 THEN I(1) ELSE <<1, i - 1>>
      r2 == Div(I(1), Mul(x, x))
  IN [cp |-> Add(Poly(n, x, 1, One), Mul(I(c[5]), r2)),
      h |-> Add(Poly(n, x, 1, iv), Add(Mul(I(-c[5]), r2), Div(I(c[6]), x))),
      s |-> Add(Add(Poly([i \in 1..4 |-> IF i = 1 THEN 0 ELSE n[i]], x, 1, m), Lnz(n[1], x)), Add(Norm(-c[5] * r2[1], 2 * r2[2]), I(c[7])))]
Cst(c, x) == LET x0 == Tau(c[1]) IN
  [cp |-> I(c[4]), h |-> Div(Add(I(c[2]), Mul(I(c[4]), Sub(x, x0))), x), s |-> IF c[4] = 0 \/ x = x0 THEN I(c[3]) ELSE U]
\* b: the range ends.  The lower piece applies up to and including its end (two ranges), the upper piece from its beginning (many ranges)
PieceIncl(b, T) == IF Len(b) > 2 /\ T > b[2] THEN 2 ELSE 1
PieceFrom(b, T) == LET S == {i \in 1..(Len(b) - 1) : i = 1 \/ b[i] <= T} IN MaxS(S)
Thermo(r, T) ==
  LET x == Tau(T) IN
  CASE r.ty = "NASA7" -> Nasa7(r.c[PieceIncl(r.b, T)], x)
    [] r.ty = "Shomate" -> Shom(r.c[PieceIncl(r.b, T)], x)
    [] r.ty = "NASA9" -> Nasa9(r.c[PieceFrom(r.b, T)], x)
    [] r.ty = "constant-cp" -> Cst(r.c[1], x)
    [] r.ty = "piecewise-Gibbs" -> [cp |-> U, h |-> IF T = 5963 THEN I(r.h0) ELSE U, s |-> U]
\* tabulated Gibbs energies
Gibbs(r, T) ==
  IF r.ty = "piecewise-Gibbs" THEN LET S == {i \in 1..Len(r.b) : r.b[i] = T} IN IF S = {} THEN U ELSE I(r.n[CHOOSE i \in S : TRUE])
  ELSE LET e == Thermo(r, T) IN Sub(e.h, e.s)
Same(e, o) == Known(e) => o = e
FitsT(r, T, o) == LET e == Thermo(r, T) IN Same(e.cp, o.cp) /\ Same(e.h, o.h) /\ Same(e.s, o.s) /\ Same(Gibbs(r, T), o.g)

\* ---- tables
Rs(f) == [i \in 1..Len(f) |-> I(f[i])]
Interp(x, xs, fs) ==
  IF x <= 2 * xs[1] THEN I(fs[1]) ELSE IF x >= 2 * xs[Len(xs)] THEN I(fs[Len(fs)])
  ELSE LET i == MaxS({j \in 1..Len(xs) : 2 * xs[j] <= x}) IN Add(I(fs[i]), Norm((x - 2 * xs[i]) * (fs[i + 1] - fs[i]), 2 * (xs[i + 1] - xs[i])))
Trap(xs, fs) == SumR([i \in 1..(Len(xs) - 1) |-> Norm((xs[i + 1] - xs[i]) * (fs[i + 1] + fs[i]), 2)], 1, Len(xs) - 1)
\* integral of the parabola through three points
Para(x0, x1, x2, f0, f1, f2) ==
  LET a == x1 - x0 b == x2 - x1 s == a + b IN
  Mul(Norm(s, 6), Add(Add(Mul(Norm(2 * a - b, a), I(f0)), Mul(Norm(s * s, a * b), I(f1))), Mul(Norm(2 * b - a, b), I(f2))))
RECURSIVE Simp(_, _)
Simp(xs, fs) ==
  IF Len(xs) = 1 THEN Zero
  ELSE IF Len(xs) = 2 THEN Trap(xs, fs)
  ELSE Add(Para(xs[1], xs[2], xs[3], fs[1], fs[2], fs[3]), Simp(SubSeq(xs, 3, Len(xs)), SubSeq(fs, 3, Len(fs))))
Up(xs) == \A i \in 1..(Len(xs) - 1) : xs[i] < xs[i + 1]

Check(s, op, obs) ==
  CASE op.op = "all" ->                                      \* rate constants of the mechanism at a state
         LET e == [i \in 1..Len(s.rates) |-> Rate(s.rates[i], op.t, Norm(op.p, 4), op.X)] IN
         Res(\A i \in 1..Len(e) : Fits(e[i], obs.r[i]), s, e)
    [] op.op = "eval" -> LET e == Rate(s.rates[op.i + 1], op.t, Norm(op.p, 4), << >>) IN Res(Fits(e, obs.r), s, e)
    [] op.op = "mod" -> Res(obs.ok, [s EXCEPT !.rates[op.i + 1] = op.rate], TRUE)
    [] op.op = "F" -> LET c == Log2(Fcent(op, op.t)) e == LF(op, op.t) IN Res(c = I(op.lc) /\ obs.f = e /\ obs.ratio = e, s, e)
    [] op.op = "bm" -> LET e == BM(op.E, op.w, op.dH) IN Res(Same(e, obs.ea) /\ Same(e, obs.ek), s, e)
    [] op.op = "th" -> LET r == s.sp[op.i + 1] IN
         Res(/\ FitsT(r, op.T, obs.one) /\ FitsT(r, op.T, obs.poly)
             /\ \A i \in 1..Len(s.sp) : FitsT(s.sp[i], op.T, obs.all[i])
             /\ obs.lo = [i \in 1..Len(s.sp) |-> I(s.sp[i].b[1])] /\ obs.hi = [i \in 1..Len(s.sp) |-> I(s.sp[i].b[Len(s.sp[i].b)])]
             /\ obs.min = I(MaxS({s.sp[i].b[1] : i \in 1..Len(s.sp)})) /\ obs.max = I(MinS({s.sp[i].b[Len(s.sp[i].b)] : i \in 1..Len(s.sp)})),
             s, [i \in 1..Len(s.sp) |-> Thermo(s.sp[i], op.T)])
    [] op.op = "modsp" -> Res(obs.ok, [s EXCEPT !.sp[op.i + 1] = op.sp], TRUE)
    [] op.op = "interp" -> LET e == Interp(op.x, op.xs, op.fs) IN Res(Same(e, obs.v), s, e)
    [] op.op = "quad" ->
         IF op.how \notin {"trapezoidal", "simpson"} \/ ~Up(op.xs) \/ Len(op.xs) # Len(op.fs) THEN Res(obs.err, s, "refused")
         ELSE LET e == IF op.how = "simpson" THEN Simp(op.xs, op.fs) ELSE Trap(op.xs, op.fs) IN Res(~obs.err /\ Same(e, obs.v), s, e)
Inv(s) == Len(s.rates) >= 0

\* ------------------------------------------------- small model: continuity, order independence, additivity of the pieces
E1 == {[p |-> p, m |-> m, a |-> a, b |-> 0, e |-> 0] : p \in {0, 2}, m \in {1, 3}, a \in {0, 2}}
Init == st = << >>
Next == Len(st) < 3 /\ \E x \in E1 : st' = Append(st, x)
Sw(es, i, j) == [k \in 1..Len(es) |-> IF k = i THEN es[j] ELSE IF k = j THEN es[i] ELSE es[k]]
TP == -1..3
MCInv == st # << >> =>
  /\ \A p \in TP : \A i, j \in 1..Len(st) : Plog(Sw(st, i, j), 8, I(p)) = Plog(st, 8, I(p))                          \* the order of entries does not matter
  /\ \A p \in TP : p <= 0 => Plog(st, 8, I(p)) = Plog(st, 8, I(MinS(Ps(st))))                        \* constant outside of the table
  /\ \A p \in TP : p >= 2 => Plog(st, 8, I(p)) = Plog(st, 8, I(MaxS(Ps(st))))
  /\ LET a == Plog(st, 8, I(0)) b == Plog(st, 8, I(1)) c == Plog(st, 8, I(2)) IN                                   \* monotone between neighbours
     Known(a.l2) /\ Known(b.l2) /\ Known(c.l2) => Add(a.l2, c.l2) = Mul(I(2), b.l2)
  \* a table split into two entries of half the size at every pressure is the same table
  /\ LET h == [k \in 1..(2 * Len(st)) |-> LET x == st[((k - 1) % Len(st)) + 1] IN [x EXCEPT !.a = x.a - 1]] IN
     \A p \in TP : Plog(h, 8, I(p)) = Plog(st, 8, I(p))
  \* a mixture in which every collider has efficiency one and the rate of M has the rate of M
  /\ LET M == [ty |-> "plog", es |-> [k \in 1..Len(st) |-> [st[k] EXCEPT !.p = 4 * @]]]
         r == [ty |-> "burke", M |-> M, col |-> <<[sp |-> 1, ea |-> 0, eb |-> 0, own |-> TRUE, r |-> M], [sp |-> 2, ea |-> 0, eb |-> 0, own |-> FALSE, r |-> M]>>] IN
     \A p \in TP : LET a == Burke(r, 8, I(p), <<1, 2, 1>>) b == Plog(st, 8, I(p)) IN Known(a.k) /\ Known(b.k) => a.k = b.k
  \* Simpson's rule is exact for parabolas, whatever the points
  /\ LET xs == <<0, st[1].a + 1, st[1].a + st[1].m + 2>> f(x) == x * x - 2 * x + st[1].m
         prim(x) == Add(Sub(Norm(x * x * x, 3), I(x * x)), I(st[1].m * x))
     IN Simp(xs, [i \in 1..3 |-> f(xs[i])]) = prim(xs[3])
MCBound == TRUE
=============================================================================
