------------------------------- MODULE MatSpec -------------------------------
\* Dense and banded matrices, two-dimensional arrays, sparse and banded system Jacobians, polynomial fits (C17),
\* in exact rational arithmetic.  A rational is <<n, d>>; <<0, 0>> is a value that is not determined.
\* Every object is tracked by its mathematical content alone; whether the code has a factorisation at hand is a separate
\* flag, and the small model below shows why a cached factorisation must be dropped on every change.
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
InitSt(cfg) == [o |-> << >>]

LIM == 20000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
U == <<0, 0>>
Known(r) == r[2] # 0
Norm(n, d) == IF d = 0 THEN U ELSE
  LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 m == (s * n) \div g e == (s * d) \div g
  IN IF Abs(m) > LIM \/ e > LIM THEN U ELSE <<m, e>>
Zero == <<0, 1>>
One == <<1, 1>>
Add(a, b) == IF Known(a) /\ Known(b) THEN Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2]) ELSE U
Neg(a) == IF Known(a) THEN <<-a[1], a[2]>> ELSE U
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a = Zero \/ b = Zero THEN Zero ELSE IF Known(a) /\ Known(b) THEN Norm(a[1] * b[1], a[2] * b[2]) ELSE U
AbsR(a) == IF Known(a) THEN <<Abs(a[1]), a[2]>> ELSE U
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Fits(want, got) == ~Known(want) \/ want = got
FitsAll(w, g) == Len(w) = Len(g) /\ \A i \in 1..Len(w) : Fits(w[i], g[i])
RECURSIVE SumF(_, _, _)
SumF(f, lo, hi) == IF lo > hi THEN Zero ELSE Add(f[lo], SumF(f, lo + 1, hi))
\* a matrix is a sequence of rows
Mat(n, m, F(_, _)) == [i \in 1..n |-> [j \in 1..m |-> F(i, j)]]
Row(a, i) == a[i]
Col(a, j) == [i \in 1..Len(a) |-> a[i][j]]
Dot(u, v) == SumF([i \in 1..Len(u) |-> Mul(u[i], v[i])], 1, Len(u))
MV(a, v) == [i \in 1..Len(a) |-> Dot(a[i], v)]
VM(a, m, v) == [j \in 1..m |-> Dot(Col(a, j), v)]
RECURSIVE Det(_)
Det(a) == LET n == Len(a) IN
  IF n = 0 THEN One
  ELSE SumF([j \in 1..n |-> IF a[1][j] = Zero THEN Zero ELSE
        LET minor == [i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> a[i + 1][IF k < j THEN k ELSE k + 1]]]
            t == Mul(a[1][j], Det(minor))
        IN IF j % 2 = 1 THEN t ELSE Neg(t)], 1, n)
KnownM(a) == \A i \in 1..Len(a) : \A j \in 1..Len(a[i]) : Known(a[i][j])
\* singular in a way that elimination in floating point meets an exact zero
Evident(a) == LET n == Len(a) IN
  \/ \E i \in 1..n : \A j \in 1..n : a[i][j] = Zero
  \/ \E j \in 1..n : \A i \in 1..n : a[i][j] = Zero
\* outcome of solving a x = b
SolveOk(a, b, r, x) ==
  IF ~KnownM(a) THEN TRUE
  ELSE LET d == Det(a) IN
       IF ~Known(d) THEN TRUE
       ELSE IF d = Zero THEN (Evident(a) => r # 1)
       ELSE r = 1 /\ Len(x) = Len(b) /\ \A i \in 1..Len(x) : Known(x[i]) /\ Fits(MV(a, x)[i], b[i])
SolveOks(a, bs, r, xs) == \A c \in 1..Len(bs) : SolveOk(a, bs[c], r, IF c <= Len(xs) THEN xs[c] ELSE << >>)
Singular(a) == KnownM(a) /\ Det(a) = Zero
InBand(o, i, j) == j <= i + o.ku /\ i <= j + o.kl
Ident(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
\* the steady matrix of a Jacobian object from its updates: sums of triplets (sparse), or the last value set (banded)
Steady(o) == Mat(o.n, o.n, LAMBDA i, j :
  LET hits == SelectSeq(o.e, LAMBDA t : t.i + 1 = i /\ t.j + 1 = j)
  IN IF o.t = "banded-direct" THEN (IF Len(hits) = 0 THEN Zero ELSE hits[Len(hits)].v)
     ELSE SumF([q \in 1..Len(hits) |-> hits[q].v], 1, Len(hits)))
Prune(o, a) == IF o.t # "Adaptive" THEN a
  ELSE Mat(o.n, o.n, LAMBDA i, j : IF i # j /\ Known(a[i][j]) /\ Less(AbsR(a[i][j]), o.thr) THEN Zero ELSE a[i][j])
MaxCol(a) == CHOOSE q \in {SumF([i \in 1..Len(a) |-> AbsR(a[i][j])], 1, Len(a)) : j \in 1..Len(a)} :
               \A j \in 1..Len(a) : ~Less(q, SumF([i \in 1..Len(a) |-> AbsR(a[i][j])], 1, Len(a)))
BigOf(v) == CHOOSE q \in {AbsR(v[i]) : i \in 1..Len(v)} : \A i \in 1..Len(v) : ~Less(q, AbsR(v[i]))
\* the first row (column) whose largest entry is smallest
SmallAt(vs) == CHOOSE i \in 1..Len(vs) : /\ \A k \in 1..Len(vs) : ~Less(BigOf(vs[k]), BigOf(vs[i]))
                                         /\ \A k \in 1..(i - 1) : Less(BigOf(vs[i]), BigOf(vs[k]))
Flat(a) == [q \in 1..(IF Len(a) = 0 THEN 0 ELSE Len(a) * Len(a[1])) |-> a[((q - 1) \div Len(a[1])) + 1][((q - 1) % Len(a[1])) + 1]]

Check(s, op, obs) ==
  LET i == op.o + 1
      o == s.o[i]
      put(q) == [s EXCEPT !.o[i] = q]
      setA(a) == put([o EXCEPT !.a = a, !.f = FALSE])
      \* an operation on object i that always succeeds
      done(t) == Res(obs.r = 1, t, "succeeds")
  IN
  CASE op.op = "new" ->
         LET q == CASE op.k \in {"array", "dense"} -> [k |-> op.k, n |-> op.n, m |-> op.m, a |-> Mat(op.n, op.m, LAMBDA x, y : op.v), f |-> FALSE]
                    [] op.k = "band" -> LET b == [k |-> "band", n |-> op.n, m |-> op.n, kl |-> op.kl, ku |-> op.ku, a |-> << >>, f |-> FALSE]
                                        IN [b EXCEPT !.a = Mat(op.n, op.n, LAMBDA x, y : IF InBand(b, x, y) THEN op.v ELSE Zero)]
                    [] op.k = "jac" -> [k |-> "jac", t |-> op.t, n |-> op.n, bw |-> op.bw, e |-> << >>, g |-> One, thr |-> Zero, M |-> Ident(op.n), f |-> FALSE]
         IN Res(obs.r = 1, [s EXCEPT !.o = Append(s.o, q)], "created")
    [] op.op = "copy" -> Res(obs.r = 1, [s EXCEPT !.o = Append(s.o, o)], "copied")
    [] op.op = "assign" -> done([s EXCEPT !.o[i] = s.o[op.b + 1]])
    [] op.op = "set" -> IF o.k = "band" /\ ~InBand(o, op.i + 1, op.j + 1) THEN done(put([o EXCEPT !.f = FALSE]))
                        ELSE done(setA([o.a EXCEPT ![op.i + 1][op.j + 1] = op.v]))
    [] op.op = "get" -> \* every entry, through the constant (c = 1) or the changeable interface, and the size
         Res(obs.r = 1 /\ obs.n = o.n /\ obs.m = o.m /\ FitsAll(Flat(o.a), obs.v), IF op.c = 1 THEN s ELSE put([o EXCEPT !.f = FALSE]), Flat(o.a))
    [] op.op = "zero" -> done(setA(Mat(o.n, o.m, LAMBDA x, y : Zero)))
    [] op.op = "fill" -> done(setA(Mat(o.n, o.n, LAMBDA x, y : IF InBand(o, x, y) THEN op.v ELSE Zero)))
    [] op.op = "resize" ->
         IF o.k = "band" THEN LET q == [o EXCEPT !.n = op.n, !.m = op.n, !.kl = op.kl, !.ku = op.ku, !.f = FALSE]
                              IN done(put([q EXCEPT !.a = Mat(op.n, op.n, LAMBDA x, y : IF InBand(q, x, y) THEN op.v ELSE Zero)]))
         ELSE done(put([o EXCEPT !.n = op.n, !.m = op.m,
                !.a = Mat(op.n, op.m, LAMBDA x, y : IF o.n * o.m = 0 THEN op.v
                                                    ELSE IF op.n # o.n THEN U       \* entries move when the number of rows changes
                                                    ELSE IF y <= o.m THEN o.a[x][y] ELSE op.v)]))
    [] op.op = "addcol" -> done(put([o EXCEPT !.m = o.m + 1, !.a = [x \in 1..o.n |-> Append(o.a[x], op.v[x])]]))
    [] op.op = "setrow" -> done(setA([o.a EXCEPT ![op.i + 1] = [j \in 1..o.m |-> op.v[j]]]))
    [] op.op = "setcol" -> done(setA([x \in 1..o.n |-> [o.a[x] EXCEPT ![op.i + 1] = op.v[x]]]))
    [] op.op = "row" -> Res(obs.r = 1 /\ FitsAll(Row(o.a, op.i + 1), obs.v), s, Row(o.a, op.i + 1))
    [] op.op = "col" -> Res(obs.r = 1 /\ FitsAll(Col(o.a, op.i + 1), obs.v), s, Col(o.a, op.i + 1))
    [] op.op = "scale" -> done(setA(Mat(o.n, o.m, LAMBDA x, y : Mul(o.a[x][y], op.v))))
    [] op.op = "mult" -> Res(obs.r = 1 /\ FitsAll(MV(o.a, op.v), obs.v), s, MV(o.a, op.v))
    [] op.op = "left" -> Res(obs.r = 1 /\ FitsAll(VM(o.a, o.m, op.v), obs.v), s, VM(o.a, o.m, op.v))
    [] op.op = "incr" -> LET w == MV(o.a, op.v) e == [x \in 1..o.n |-> Add(w[x], op.w[x])] IN Res(obs.r = 1 /\ FitsAll(e, obs.v), s, e)
    [] op.op = "matmul" -> \* o times b, into a new matrix of op.n rows and op.m columns
         LET b == s.o[op.b + 1] ok == o.m = b.n /\ op.n = o.n /\ op.m = b.m
             p == Mat(op.n, op.m, LAMBDA x, y : Dot(o.a[x], Col(b.a, y)))
         IN IF ok THEN Res(obs.r = 1 /\ FitsAll(Flat(p), obs.v), s, Flat(p)) ELSE Res(obs.r = -1, s, "sizes do not match")
    [] op.op = "solve" ->
         IF o.n # o.m THEN Res(obs.r # 1, s, "not square")
         ELSE LET t == IF o.k = "dense" THEN setA(Mat(o.n, o.n, LAMBDA x, y : U))     \* overwritten by its factors
                       ELSE put([o EXCEPT !.f = (obs.r = 1)])
              IN Res(SolveOks(o.a, op.v, obs.r, obs.x), t, o.a)
    [] op.op = "factor" -> Res((Singular(o.a) /\ Evident(o.a) => obs.r # 1) /\ (KnownM(o.a) /\ Known(Det(o.a)) /\ Det(o.a) # Zero => obs.r = 1),
                               put([o EXCEPT !.f = (obs.r = 1)]), o.a)
    [] op.op = "invert" ->
         IF ~KnownM(o.a) \/ ~Known(Det(o.a)) THEN Res(TRUE, setA(Mat(o.n, o.n, LAMBDA x, y : U)), "not determined")
         ELSE IF Det(o.a) = Zero THEN Res(Evident(o.a) => obs.r # 1, setA(Mat(o.n, o.n, LAMBDA x, y : U)), "singular")
         ELSE LET b == Mat(o.n, o.n, LAMBDA x, y : IF Len(obs.v) = o.n * o.n THEN obs.v[(x - 1) * o.n + y] ELSE Zero)
                  p == Mat(o.n, o.n, LAMBDA x, y : Dot(o.a[x], Col(b, y)))
              IN Res(obs.r = 1 /\ KnownM(b) /\ FitsAll(Flat(p), Flat(Ident(o.n))), setA(b), "inverse")
    [] op.op = "rcond" -> Res((obs.r = 1) = o.f, s, o.f)
    [] op.op = "norm" -> Res(obs.r = 1 /\ (KnownM(o.a) /\ o.n > 0 => Fits(MaxCol(o.a), obs.v[1])), s, o.a)
    [] op.op = "small" -> \* smallest row and column: index and largest entry
         Res(obs.r = 1 /\ (KnownM(o.a) /\ o.n > 0 =>
               LET rs == o.a cs == [j \in 1..o.n |-> Col(o.a, j)] IN
               /\ obs.ri = SmallAt(rs) - 1 /\ obs.v[1] = BigOf(rs[SmallAt(rs)])
               /\ obs.ci = SmallAt(cs) - 1 /\ obs.v[2] = BigOf(cs[SmallAt(cs)])), s, o.a)
    \* ---- system Jacobians
    [] op.op = "jset" -> done(put([o EXCEPT !.e = Append(o.e, [i |-> op.i, j |-> op.j, v |-> op.v])]))
    [] op.op = "jreset" -> done(put([o EXCEPT !.e = << >>, !.f = FALSE]))
    [] op.op = "jinit" -> done(put([o EXCEPT !.n = op.n, !.bw = op.bw, !.e = << >>, !.f = FALSE]))
    [] op.op = "jgamma" -> done(put([o EXCEPT !.g = op.v]))
    [] op.op = "jthr" -> done(put([o EXCEPT !.thr = op.v]))
    [] op.op = "jget" -> Res(obs.r = 1 /\ FitsAll(Flat(Steady(o)), obs.v), s, Flat(Steady(o)))
    [] op.op \in {"jpre", "jtrans"} ->
         LET J == Steady(o)
             M0 == IF op.op = "jpre" THEN Mat(o.n, o.n, LAMBDA x, y : Sub(Ident(o.n)[x][y], Mul(o.g, J[x][y])))
                   ELSE Mat(o.n, o.n, LAMBDA x, y : IF x = y /\ op.mask[x] = 1 THEN Sub(J[x][y], op.rdt) ELSE J[x][y])
             M == Prune(o, M0) d == Det(M)
         IN Res((Known(d) /\ d # Zero => obs.r = 1) /\ (o.t # "Adaptive" /\ Known(d) /\ d = Zero /\ Evident(M) => obs.r # 1),
                put([o EXCEPT !.M = M, !.f = (obs.r = 1)]), M)
    [] op.op = "jsolve" -> Res(o.f => (Singular(o.M) \/ SolveOk(o.M, op.v, obs.r, obs.v)), s, o.M)
    [] op.op = "jadjust" -> LET e == [x \in 1..Len(op.v) |-> IF Less(op.v[x], op.atol) THEN op.atol ELSE op.v[x]] IN Res(obs.r = 1 /\ FitsAll(e, obs.v), s, e)
    \* ---- least squares: the residual is orthogonal to every power that was fitted
    [] op.op = "fit" ->
         LET n == Len(op.x)
             RECURSIVE Pow(_, _)
             Pow(a, m) == IF m = 0 THEN One ELSE Mul(a, Pow(a, m - 1))
             poly(x) == SumF([q \in 1..(op.deg + 1) |-> Mul(obs.v[q], Pow(x, q - 1))], 1, op.deg + 1)
             wt(q) == IF Len(op.w) = 0 \/ Less(op.w[1], Zero) THEN One ELSE op.w[q]
             res == [q \in 1..n |-> Sub(poly(op.x[q]), op.y[q])]
         IN IF op.deg >= n THEN Res(obs.r = -1, s, "degree too large")
            ELSE Res(obs.r = 1 /\ Len(obs.v) = op.deg + 1
                     /\ ((\A q \in 1..Len(obs.v) : Known(obs.v[q])) =>
                          \A m \in 0..op.deg : Fits(SumF([q \in 1..n |-> Mul(wt(q), Mul(res[q], Pow(op.x[q], m)))], 1, n), Zero))
                     /\ ((\A q \in 1..n : wt(q) = One) => (Known(SumF([q \in 1..n |-> Mul(res[q], res[q])], 1, n)) => SumF([q \in 1..n |-> Mul(res[q], res[q])], 1, n) = obs.sse)),
                     s, res)
Inv(s) == \A q \in 1..Len(s.o) : s.o[q].k # "jac" => Len(s.o[q].a) = s.o[q].n

\* ---------------- small model: two 2x2 matrices with a cached factorisation, as the code keeps it
\* lu is the matrix the factors were computed from; the answer of a solve is that of lu, and must be the one of a
Init == \E a, b \in [1..2 -> [1..2 -> {0, 1}]] : st = <<[a |-> a, lu |-> a, f |-> FALSE], [a |-> b, lu |-> b, f |-> FALSE]>>
D2(a) == a[1][1] * a[2][2] - a[1][2] * a[2][1]
Next ==
  \E q \in 1..2 :
    \/ \E i, j \in 1..2, v \in {0, 1} : st' = [st EXCEPT ![q].a[i][j] = v, ![q].f = FALSE]
    \/ st' = [st EXCEPT ![q].lu = st[q].a, ![q].f = (D2(st[q].a) # 0)]
    \/ ~st[q].f /\ D2(st[q].a) # 0 /\ st' = [st EXCEPT ![q].lu = st[q].a, ![q].f = TRUE]
    \/ st' = [st EXCEPT ![q] = st[3 - q]]
    \/ st' = [st EXCEPT ![q].a = [i \in 1..2 |-> [j \in 1..2 |-> 0]], ![q].f = FALSE]
MCInv == \A q \in 1..2 : st[q].f => st[q].lu = st[q].a /\ D2(st[q].a) # 0
MCBound == TRUE
=============================================================================
