------------------------------- MODULE MixSpec -------------------------------
\* Multiphase mixtures (C18): what a mixture reports is the sum over its phases.
\* T in K, pressures in units of R (p = P/R), energies in units of R, moles and mole fractions rational.
\* cfg.ph: the available phases [name, gas, els (names), sp (name, a (atoms per element of els), ch, h0, cp), v (molar volume), lo, hi, X, T, p]; T0 = 1000, reference pressure 100.
EXTENDS Rat, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
\* in: phases of the mixture (indices of cfg.ph), n: their moles, X: their mole fractions
InitSt(cfg) == [c |-> cfg, in |-> << >>, n |-> << >>, X |-> << >>, T |-> 0, p |-> Zero, init |-> FALSE,
                own |-> [i \in 1..Len(cfg.ph) |-> LET t == SumR([k \in 1..Len(cfg.ph[i].X) |-> I(cfg.ph[i].X[k])], 1, Len(cfg.ph[i].X)) IN
                                                 [k \in 1..Len(cfg.ph[i].X) |-> Div(I(cfg.ph[i].X[k]), t)]]]
Sum(f) == SumR(f, 1, Len(f))
RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN << >> ELSE Cat(f, k - 1) \o f[k]
Range(f) == {f[i] : i \in 1..Len(f)}
\* names of the elements in the order of their first appearance
RECURSIVE Uniq(_)
Uniq(q) == IF q = << >> THEN << >> ELSE LET r == Uniq(SubSeq(q, 1, Len(q) - 1)) x == q[Len(q)] IN IF x \in Range(r) THEN r ELSE Append(r, x)
Ph(s, i) == s.c.ph[s.in[i]]
Np(s) == Len(s.in)
Els(s) == Uniq(Cat([i \in 1..Np(s) |-> Ph(s, i).els], Np(s)))
Atoms(ph, k, el) == LET S == {m \in 1..Len(ph.els) : ph.els[m] = el} IN IF S = {} THEN 0 ELSE ph.sp[k].a[CHOOSE m \in S : TRUE]
Per(s, f(_, _)) == [i \in 1..Np(s) |-> Sum([k \in 1..Len(Ph(s, i).sp) |-> Mul(s.X[i][k], f(i, k))])]
Tot(s, f(_, _)) == LET q == Per(s, f) IN Sum([i \in 1..Np(s) |-> Mul(s.n[i], q[i])])
Flat(s, f(_, _)) == Cat([i \in 1..Np(s) |-> [k \in 1..Len(Ph(s, i).sp) |-> f(i, k)]], Np(s))
H(s, i, k) == LET ph == Ph(s, i) q == ph.sp[k] h == I(q.h0 + q.cp * (s.T - 1000)) IN IF ph.gas THEN h ELSE Add(h, Mul(ph.v, Sub(s.p, I(100))))
V(s, i, k) == LET ph == Ph(s, i) IN IF ph.gas THEN Div(I(s.T), s.p) ELSE ph.v
Maxs(S) == CHOOSE x \in S : \A y \in S : y <= x
Mins(S) == CHOOSE x \in S : \A y \in S : x <= y
\* everything a mixture reports
Dump(s) ==
  LET E == Els(s) multi == {i \in 1..Np(s) : Len(Ph(s, i).sp) > 1} IN
  [T |-> I(s.T), p |-> s.p, el |-> E, sp |-> Flat(s, LAMBDA i, k : Ph(s, i).sp[k].name),
   ph |-> [i \in 1..Np(s) |-> Ph(s, i).name],
   spph |-> Flat(s, LAMBDA i, k : i - 1),
   sol |-> Flat(s, LAMBDA i, k : Len(Ph(s, i).sp) > 1),
   np |-> s.n, x |-> Flat(s, LAMBDA i, k : s.X[i][k]),
   n |-> Flat(s, LAMBDA i, k : Mul(s.n[i], s.X[i][k])),
   el_n |-> [m \in 1..Len(E) |-> Tot(s, LAMBDA i, k : I(Atoms(Ph(s, i), k, E[m])))],
   atoms |-> Flat(s, LAMBDA i, k : [m \in 1..Len(E) |-> Atoms(Ph(s, i), k, E[m])]),
   ch |-> LET q == Per(s, LAMBDA i, k : I(Ph(s, i).sp[k].ch)) IN [i \in 1..Np(s) |-> Mul(s.n[i], q[i])],
   ctot |-> Tot(s, LAMBDA i, k : I(Ph(s, i).sp[k].ch)),
   h |-> Tot(s, LAMBDA i, k : H(s, i, k)),
   u |-> Tot(s, LAMBDA i, k : Sub(H(s, i, k), IF Ph(s, i).gas THEN I(s.T) ELSE Mul(s.p, Ph(s, i).v))),
   cp |-> Tot(s, LAMBDA i, k : I(Ph(s, i).sp[k].cp)),
   v |-> Tot(s, LAMBDA i, k : V(s, i, k)),
   ok |-> [i \in 1..Np(s) |-> s.T >= Ph(s, i).lo /\ s.T <= Ph(s, i).hi],
   valid |-> Flat(s, LAMBDA i, k : (s.T >= Ph(s, i).lo /\ s.T <= Ph(s, i).hi) \/ Len(Ph(s, i).sp) > 1),
   rng |-> <<I(Maxs({1} \cup {Ph(s, i).lo : i \in multi})), I(Mins({100000} \cup {Ph(s, i).hi : i \in multi}))>>,
   g |-> TRUE, back |-> TRUE]
Known2(e, o) == IF DOMAIN e = {1, 2} /\ e[2] \in Int THEN Known(e) => e = o ELSE e = o
RatSeq(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : Known(e[i]) => e[i] = o[i]
Same(e, o) ==
  /\ e.T = o.T /\ (Known(e.p) => e.p = o.p) /\ e.el = o.el /\ e.sp = o.sp /\ e.ph = o.ph /\ e.spph = o.spph /\ e.sol = o.sol
  /\ RatSeq(e.np, o.np) /\ RatSeq(e.x, o.x) /\ RatSeq(e.n, o.n) /\ RatSeq(e.el_n, o.el_n) /\ RatSeq(e.el_n, o.el_a) /\ e.atoms = o.atoms
  /\ RatSeq(e.ch, o.ch) /\ (Known(e.ctot) => e.ctot = o.ctot)
  /\ \A f \in {"h", "u", "cp", "v"} : Known(e[f]) => e[f] = o[f]
  /\ e.ok = o.ok /\ e.valid = o.valid /\ e.rng = o.rng /\ o.g /\ o.back
  /\ RatSeq(e.x, o.px) /\ o.pT /\ o.pp                  \* the phases themselves
At(s, ph, k, what) == what
Norm1(x) == LET t == Sum(x) IN [k \in 1..Len(x) |-> Div(x[k], t)]
\* moles of all species, in order
SetN(s, m) ==
  LET off(i) == LET f == [j \in 1..Np(s) |-> Len(Ph(s, j).sp)] IN IF i = 1 THEN 0 ELSE (Sum([j \in 1..(i - 1) |-> I(f[j])]))[1]
      part(i) == [k \in 1..Len(Ph(s, i).sp) |-> m[off(i) + k]]
      tot(i) == Sum(part(i))
  IN [s EXCEPT !.n = [i \in 1..Np(s) |-> tot(i)],
               !.X = [i \in 1..Np(s) |-> IF tot(i) = Zero THEN s.X[i] ELSE Norm1(part(i))]]
Now(s) == Dump(s).n
Named(s, f) == Flat(s, LAMBDA i, k : LET S == {j \in 1..Len(f) : f[j][1] = Ph(s, i).sp[k].name} IN IF S = {} THEN Zero ELSE LET j == CHOOSE j \in S : TRUE IN <<f[j][2], f[j][3]>>)
Start(s) == IF s.init THEN s ELSE [s EXCEPT !.init = TRUE, !.X = [i \in 1..Np(s) |-> s.own[s.in[i]]]]

Check(s0, op, obs) ==
  LET s == IF op.op \in {"add", "late", "adds"} THEN s0 ELSE Start(s0)
      fin(t) == Res(Same(Dump(t), obs), [t EXCEPT !.own = [j \in 1..Len(t.own) |-> LET S == {i \in 1..Np(t) : t.in[i] = j} IN IF S = {} THEN t.own[j] ELSE t.X[CHOOSE i \in S : TRUE]]], Dump(t))
  IN
  CASE op.op = "add" -> LET ph == s.c.ph[op.i + 1] IN
         Res(~obs.err, [s EXCEPT !.in = Append(@, op.i + 1), !.n = Append(@, op.n), !.T = IF Len(s.in) = 0 THEN ph.T ELSE @, !.p = IF Len(s.in) = 0 THEN I(ph.p) ELSE @], TRUE)
    [] op.op = "late" -> Res(obs.err = s.init, s, TRUE)                     \* phases can not be added any more
    [] op.op = "get" -> fin(s)
    [] op.op = "T" -> fin([s EXCEPT !.T = op.T])
    [] op.op = "P" -> fin([s EXCEPT !.p = I(op.p)])
    [] op.op = "TP" -> fin([s EXCEPT !.T = op.T, !.p = I(op.p)])
    [] op.op = "n" -> fin(SetN(s, op.n))
    [] op.op = "TPn" -> fin(SetN([s EXCEPT !.T = op.T, !.p = I(op.p)], op.n))
    [] op.op = "names" -> fin(SetN(s, Named(s, op.f)))
    [] op.op = "addn" -> LET m == Now(s) a == Add(m[op.k + 1], op.d) IN fin(SetN(s, [m EXCEPT ![op.k + 1] = IF a[1] < 0 THEN Zero ELSE a]))
    [] op.op = "pn" -> fin([s EXCEPT !.n[op.i + 1] = op.n])
    [] op.op = "px" -> fin([s EXCEPT !.X[op.i + 1] = Norm1(op.x)])
    [] op.op = "ext" -> fin(s)                                             \* a phase was changed from outside: the mixture keeps its state
    [] op.op = "upload" -> fin([s EXCEPT !.X[op.i + 1] = Norm1(op.x)])     \* a phase was changed from outside and read back
    [] op.op = "bad" -> LET r == fin(s) IN Res(r.ok /\ obs.err, r.st, "refused")
    [] op.op = "find" -> LET S == {j \in 1..Len(s.in) : Ph(s, j).name = op.ph}
                             K == IF S = {} THEN {} ELSE LET j == CHOOSE j \in S : TRUE IN {k \in 1..Len(Ph(s, j).sp) : Ph(s, j).sp[k].name = op.sp} IN
         IF K = {} THEN Res(obs.err, s, "not found")
         ELSE LET j == CHOOSE j \in S : TRUE k == CHOOSE k \in K : TRUE IN
              Res(~obs.err /\ obs.k = (k - 1) + (Sum([q \in 1..Np(s) |-> IF q < j THEN I(Len(Ph(s, q).sp)) ELSE Zero]))[1] /\ obs.p = j - 1, s, TRUE)
Inv(s) == Len(s.n) = Len(s.in)

\* ------------------------------------------------- small model: two phases, all histories of a few steps
MPh == <<[name |-> "g", gas |-> TRUE, els |-> <<"H", "O">>, sp |-> <<[name |-> "A", a |-> <<1, 0>>, ch |-> 0, h0 |-> 5, cp |-> 2], [name |-> "B", a |-> <<1, 2>>, ch |-> 1, h0 |-> 3, cp |-> 4]>>,
          v |-> Zero, lo |-> 200, hi |-> 3000, X |-> <<1, 1>>, T |-> 500, p |-> 100],
         [name |-> "s", gas |-> FALSE, els |-> <<"O">>, sp |-> <<[name |-> "C", a |-> <<1>>, ch |-> 0, h0 |-> 1, cp |-> 1]>>,
          v |-> <<1, 2>>, lo |-> 200, hi |-> 900, X |-> <<1>>, T |-> 400, p |-> 100]>>
MI == LET s == InitSt([ph |-> MPh]) IN Start([s EXCEPT !.in = <<1, 2>>, !.n = <<I(1), I(2)>>, !.T = 500, !.p = I(100)])
MN == {<<I(a), I(b), I(c)>> : a, b \in {0, 1, 3}, c \in {0, 2}}
Init == st = [s |-> MI, d |-> 0]
Next == st.d < 3 /\ \E t \in {SetN(st.s, m) : m \in MN} \cup {[st.s EXCEPT !.T = 1000]} \cup {[st.s EXCEPT !.n[1] = I(4)]} \cup {[st.s EXCEPT !.X[1] = Norm1(<<I(1), I(3)>>)]} :
          st' = [s |-> t, d |-> st.d + 1]
MCInv ==
  LET D == Dump(st.s) IN
  /\ \A i \in 1..2 : Sum(st.s.X[i]) = I(1)
  /\ Sum(D.n) = Sum(D.np)
  /\ Len(D.n) = 3 /\ D.el = <<"H", "O">>
  /\ D.el_n[1] = Add(D.n[1], D.n[2]) /\ D.el_n[2] = Add(Mul(I(2), D.n[2]), D.n[3])
  /\ D.ctot = Sum(D.ch)
  /\ D.u = Sub(D.h, Mul(st.s.p, D.v))
  /\ \A m \in MN : Dump(SetN(st.s, m)).n = m                     \* what was set is what is read
  /\ SetN(SetN(st.s, <<I(1), I(3), I(2)>>), D.n).n = st.s.n
MCBound == TRUE
=============================================================================
