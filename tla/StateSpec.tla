----------------------------- MODULE StateSpec -----------------------------
\* Thermodynamic states of a phase under its setters (C01).
\* Values of T, P, D, H, S, U, V are classes (integers).  The table of the configuration holds target states given by
\* temperature, pressure (or vapour fraction) and an integer composition; its classes are announced by the first operation.
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
Unknown == [id |-> << >>, b |-> "?", n |-> << >>]
InitSt(cfg) == [cfg |-> cfg, tab |-> << >>, std |-> <<0, 0>>, o |-> <<Unknown, Unknown>>, saved |-> << Unknown, Unknown, Unknown >>]

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Sum(f) == SumTo(f, Len(f))
Abs(x) == IF x < 0 THEN -x ELSE x
\* v/tot in millionths
Ppm(v, tot) == LET q == (v * 1000) \div tot r == (v * 1000) % tot IN q * 1000 + (r * 1000) \div tot
Close(x, v, tot) == Abs(x - Ppm(v, tot)) <= 1
At(n, k) == IF k <= Len(n) THEN n[k] ELSE 0
Letter == [T |-> 1, P |-> 2, D |-> 3, H |-> 4, S |-> 5, U |-> 6, V |-> 7]
Num(c) == Letter[c]

FracOk(n, x) == \A k \in 1..Len(x) : Close(x[k], At(n, k), Sum(n))
CompOk(b, n, s) == CASE b = "X" -> FracOk(n, s.X) [] b = "Y" -> FracOk(n, s.Y) [] OTHER -> TRUE
ElOk(c, b, n, s) ==
  (b = "X" /\ c.el) =>
    LET a(m) == SumTo([k \in 1..Len(n) |-> n[k] * c.atoms[k][m]], Len(n))
        t == SumTo([m \in 1..Len(s.el) |-> a(m)], Len(s.el))
    IN \A m \in 1..Len(s.el) : Close(s.el[m], a(m), t)
\* equal composition vectors up to a factor
SameComp(b1, n1, b2, n2) ==
  /\ b1 = b2 /\ b1 # "?" /\ Len(n1) = Len(n2)
  /\ \A k \in 1..Len(n1) : n1[k] * Sum(n2) = n2[k] * Sum(n1)
IdSame(old, s, i) == old.id = << >> \/ old.id[i] = s.id[i]
AllSame(old, s) == old.id = << >> \/ old.id = s.id

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdAll(_, _)
GcdAll(f, k) == IF k = 0 THEN 0 ELSE Gcd(f[k], GcdAll(f, k - 1))
Reduce(f) == LET g == GcdAll(f, Len(f)) IN [k \in 1..Len(f) |-> f[k] \div g]

\* four times the oxygen molecules needed to burn the mixture completely
O2Need(c, n) == SumTo([k \in 1..Len(n) |-> n[k] * (4 * c.chon[k][1] + c.chon[k][2] - 2 * c.chon[k][3] + 4 * c.chon[k][4])], Len(n))
PhiComp(c, op) == LET need == O2Need(c, op.fuel) have == -O2Need(c, op.ox)
                  IN Reduce([k \in 1..Len(op.fuel) |-> op.num * have * op.fuel[k] + op.den * need * op.ox[k]])
MixComp(op) == Reduce([k \in 1..Len(op.fuel) |-> op.num * op.fuel[k] * Sum(op.ox) + (op.den - op.num) * op.ox[k] * Sum(op.fuel)])

\* jump: phases whose enthalpy and entropy jump at a phase change, where the solvers may stop by design
\* the outcome allowed for an operation on object "old": whether it must succeed, the composition and the required classes
Full(id) == [i \in 1..7 |-> id[i]]
Req(old, comp, fixed) ==       \* fixed: function from property number to class, 0 = free
  [b |-> comp.b, n |-> comp.n, id |-> fixed]
Keep(old, is) == [i \in 1..7 |-> IF i \in is /\ old.id # << >> THEN old.id[i] ELSE 0]
Rigid(s) == ~s.cfg.comp
Outcome(s, op, old) ==
  CASE op.op = "pair" ->
         LET comp == IF Len(op.n) > 0 THEN [b |-> op.b, n |-> op.n] ELSE [b |-> old.b, n |-> old.n]
             named == {Num(op.how2[i]) : i \in 1..Len(op.how2)}
             t == IF op.j >= 0 THEN s.cfg.tab[op.j + 1] ELSE [b |-> "?", n |-> << >>]
             full == op.j >= 0 /\ Len(op.how2) = 2 /\ (s.cfg.inv \/ 1 \in named) /\ (s.cfg.pure \/ SameComp(comp.b, comp.n, t.b, t.n))
             id == IF full THEN s.tab[op.j + 1]
                   ELSE [i \in 1..7 |-> IF i \in named /\ (~s.cfg.jump \/ i \notin {4, 5}) THEN s.tab[op.j + 1][i]
                                        ELSE IF Len(op.how2) < 2 /\ i <= 2 THEN s.std[i] ELSE 0]
         IN [must |-> (full /\ ((~s.cfg.pure /\ ~s.cfg.jump) \/ 1 \in named)) \/ op.how = "TP" \/ Len(op.how2) < 2, b |-> comp.b, n |-> comp.n, id |-> id]
    [] op.op = "one" ->
         LET i == Num(op.how)
             k == Keep(old, IF op.how = "T" THEN (IF Rigid(s) THEN {2} ELSE {3, 7}) ELSE {1})
         IN [must |-> TRUE, b |-> old.b, n |-> old.n, id |-> [k EXCEPT ![i] = s.tab[op.j + 1][i]]]
    [] op.op = "comp" ->
         [must |-> TRUE, b |-> op.b, n |-> op.n, id |-> Keep(old, IF Rigid(s) THEN {1, 2} ELSE {1, 3, 7})]
    [] op.op = "conc" -> [must |-> TRUE, b |-> "X", n |-> op.n, id |-> Keep(old, {1})]
    [] op.op = "phi" -> [must |-> TRUE, b |-> IF op.b = "X" THEN "X" ELSE "?", n |-> IF op.b = "X" THEN PhiComp(s.cfg, op) ELSE << >>,
                         id |-> Keep(old, {1, 2})]
    [] op.op = "mix" -> [must |-> TRUE, b |-> IF op.b = "Y" THEN "Y" ELSE "?", n |-> IF op.b = "Y" THEN MixComp(op) ELSE << >>,
                         id |-> Keep(old, {1, 2})]
    [] op.op = "sat" -> [must |-> TRUE, b |-> old.b, n |-> old.n, id |-> s.tab[op.j + 1]]
    [] op.op = "save" -> [must |-> TRUE, b |-> old.b, n |-> old.n, id |-> Keep(old, 1..7)]
    [] op.op = "restore" -> LET v == s.saved[op.slot + 1] IN [must |-> FALSE, b |-> v.b, n |-> v.n, id |-> Keep(v, 1..7)]
    [] op.op = "bad" -> [must |-> FALSE, b |-> old.b, n |-> old.n, id |-> Keep(old, 1..7)]

ExtraOk(s, op, obs) ==
  CASE op.op = "conc" -> \A k \in 1..Len(obs.extra) : Abs(obs.extra[k] - 1000 * At(op.n, k)) <= 1
    [] op.op = "phi" -> /\ obs.extra[1] = op.num
                        /\ op.b = "X" => LET a == O2Need(s.cfg, op.fuel) * Sum(op.ox) b == -O2Need(s.cfg, op.ox) * Sum(op.fuel)
                                         IN Abs(obs.extra[2] - (a * 10000) \div b) <= 1
    [] op.op = "mix" -> obs.extra[1] = op.num
    [] op.op = "sat" -> obs.extra[1] = s.cfg.tab[op.j + 1].q
    [] OTHER -> TRUE
Fits(id, got) == \A i \in 1..7 : id[i] = 0 \/ id[i] = got[i]

Check(s, op, obs) ==
  IF op.op = "tab" THEN
       LET N == Len(obs.tab) - 1
       IN Res(N = Len(s.cfg.tab), [s EXCEPT !.tab = SubSeq(obs.tab, 1, N), !.std = obs.tab[N + 1]], "one entry per target")
  ELSE
  LET i == op.o + 1
      p == 3 - i
      old == s.o[i]
      out == Outcome(s, op, old)
      now == obs.s[i]
      oth == obs.s[p]
      same == AllSame(s.o[p], oth) /\ CompOk(s.o[p].b, s.o[p].n, oth)          \* the other object is left alone
      sound == now.bad = << >> /\ ElOk(s.cfg, out.b, out.n, now) /\ CompOk(out.b, out.n, now)
      new == [id |-> now.id, b |-> out.b, n |-> out.n]
      t == [s EXCEPT !.o[i] = new, !.o[p].id = oth.id]
  IN
  IF op.op = "bad" THEN Res(obs.r = -1 /\ same /\ sound /\ Fits(out.id, now.id), t, [must |-> "refused, nothing changed", was |-> old.id])
  ELSE IF op.op = "restore" /\ s.saved[op.slot + 1].id = << >> THEN Res(same /\ AllSame(old, now), s, "nothing saved: unchanged")
  ELSE IF obs.r = -1 /\ ~out.must /\ op.op = "pair" THEN        \* unreachable: the state is not determined
       Res(same, [s EXCEPT !.o[i] = [b |-> out.b, n |-> out.n, id |-> << >>], !.o[p].id = oth.id], "unreachable")
  ELSE Res(obs.r = 1 /\ same /\ sound /\ Fits(out.id, now.id) /\ ExtraOk(s, op, obs),
           IF op.op = "save" THEN [t EXCEPT !.saved[op.slot + 1] = new] ELSE t,
           [b |-> out.b, n |-> out.n, id |-> out.id])

Inv(s) == \A i \in 1..2 : s.o[i].id = << >> \/ Len(s.o[i].id) = 7

\* ------------------------------------------------- a small phase, explored exhaustively
\* an ideal gas with two species of masses 1 and 2 (times a constant), T and D in 1..2
Comps == {<<1, 0>>, <<1, 1>>}
M(n) == IF n = <<1, 0>> THEN 2 ELSE 3           \* twice the mean mass
Enc(T, D, n) == << T, 10 * ((6 * T * D) \div M(n)), D, 100 + 10 * T + M(n), 200 + 100 * T + 10 * D + M(n), 300 + 10 * T + M(n), D >>
MPoints == {[T |-> T, D |-> D, n |-> n] : T \in 1..2, D \in 1..2, n \in Comps}
MTab == << [b |-> "X", n |-> <<1, 0>>, q |-> -1], [b |-> "X", n |-> <<1, 1>>, q |-> -1] >>
MCfg == [comp |-> TRUE, jump |-> FALSE, inv |-> TRUE, pure |-> FALSE, el |-> FALSE, tab |-> MTab]
MTabIds == << Enc(1, 2, <<1, 0>>), Enc(2, 1, <<1, 1>>) >>
MSt(pt) == [id |-> Enc(pt.T, pt.D, pt.n), b |-> "X", n |-> pt.n]
MOps == {[op |-> "pair", o |-> 0, how |-> h[1], how2 |-> h[2], j |-> j, n |-> n, b |-> "X"] :
           h \in {<<"TP", <<"T", "P">> >>, <<"TD", <<"T", "D">> >>, <<"HP", <<"H", "P">> >>, <<"SV", <<"S", "V">> >>}, j \in 0..1, n \in Comps \cup {<< >>}}
        \cup {[op |-> "one", o |-> 0, how |-> h, j |-> j] : h \in {"T", "D", "P"}, j \in 0..1}
        \cup {[op |-> "comp", o |-> 0, n |-> n, b |-> "X"] : n \in Comps}
        \cup {[op |-> w, o |-> 0, slot |-> k] : w \in {"save", "restore"}, k \in 0..0}
Half(n) == [k \in 1..2 |-> Ppm(n[k], Sum(n))]
MObs(pt, other) == [r |-> 1, extra |-> << >>, s |-> << [id |-> Enc(pt.T, pt.D, pt.n), X |-> Half(pt.n), Y |-> << >>, el |-> << >>, bad |-> << >>],
                                                     [id |-> other.id, X |-> Half(other.n), Y |-> << >>, el |-> << >>, bad |-> << >>] >>]
Init == \E a \in MPoints : \E b \in {[T |-> 2, D |-> 1, n |-> <<1, 1>>]} : st = [s |-> [InitSt(MCfg) EXCEPT !.tab = MTabIds, !.o = <<MSt(a), MSt(b)>>], op |-> [op |-> "none"]]
Next == \E op \in MOps : \E pt \in MPoints :
          LET c == Check(st.s, op, MObs(pt, st.s.o[2])) IN c.ok /\ st' = [s |-> c.st, op |-> op]
\* two outcomes never fit the same request when it names a whole state
Det(op) == TRUE
MCInv == /\ \A op \in MOps : Det(op) => Cardinality({pt \in MPoints : Check(st.s, op, MObs(pt, st.s.o[2])).ok}) <= 1
         /\ \E pt \in MPoints : st.s.o[1] = MSt(pt)
         /\ st.s.o[2].id # << >>
MCBound == TRUE
=============================================================================
