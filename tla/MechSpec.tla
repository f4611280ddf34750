---- MODULE MechSpec ----
(* Acceptance of reactions into a mechanism and the duplicate check.
   A reaction is given as written: reac, prod are sequences of <<name, twice the coefficient>> that include third-body
   tokens ("M", "(+M)", "(+AR)") and possibly undeclared names. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE st

Elems == 1..4         \* H, O, E (electrons), Ar
Marks == {"M", "(+M)", "(+AR)", "(+H2)", "(+XX)"}
Strip(m) == CASE m = "(+M)" -> "M" [] m = "(+AR)" -> "AR" [] m = "(+H2)" -> "H2" [] m = "(+XX)" -> "XX" [] OTHER -> m
Paren(m) == m \in {"(+M)", "(+AR)", "(+H2)", "(+XX)"}
Names(q) == {q[i][1] : i \in 1..Len(q)}
SumS(q, f(_)) == LET RECURSIVE S(_)
                     S(k) == IF k = 0 THEN 0 ELSE f(q[k]) + S(k - 1)
                 IN S(Len(q))
Coef(q, n) == SumS(q, LAMBDA p : IF p[1] = n THEN p[2] ELSE 0)
Abs(x) == IF x < 0 THEN -x ELSE x

\* ---- which species acts as the third body: "" none, "?" the equation is not acceptable
Shared(r) == Names(r.reac) \cap Names(r.prod)
Marked(r) == Shared(r) \cap Marks
Ambig(r) == LET s == Shared(r)
            IN \/ Cardinality(s) > 1
               \/ \E n \in s : Coef(r.reac, n) > 2 /\ Coef(r.prod, n) > 2
Whole(q) == \A i \in 1..Len(q) : q[i][2] % 2 = 0
Count(q) == SumS(q, LAMBDA p : p[2]) \div 2
Collider(r) ==
  IF r.typ = "elementary" THEN ""
  ELSE IF Shared(r) = {} THEN (IF r.typ = "three-body" THEN "?" ELSE "")
  ELSE IF Cardinality(Marked(r)) > 1 \/ (\E n \in Marked(r) : Coef(r.reac, n) > 2 /\ Coef(r.prod, n) > 2) THEN "?"
  ELSE IF Marked(r) # {} THEN CHOOSE n \in Marked(r) : TRUE
  ELSE IF Ambig(r) THEN (IF r.typ = "three-body" THEN "?" ELSE "")
  ELSE LET n == CHOOSE x \in Shared(r) : TRUE
       IN IF r.typ = "three-body" THEN n
          ELSE IF Whole(r.reac) /\ Whole(r.prod) /\ (Count(r.reac) = 3 \/ Count(r.prod) = 3) THEN n ELSE ""
Less(q, n) == IF n = "" THEN q
              ELSE SelectSeq([i \in 1..Len(q) |-> IF q[i][1] = n THEN <<n, q[i][2] - 2>> ELSE q[i]], LAMBDA p : p[2] > 0)

\* ---- verdict on a reaction in state s: set of admissible outcomes
Decl(s) == DOMAIN s.sp
Reac(r) == Less(r.reac, Collider(r))
Prod(r) == Less(r.prod, Collider(r))
UndeclEq(s, r) == (Names(Reac(r)) \cup Names(Prod(r))) \ Decl(s)
UndeclOrd(s, r) == Names(r.ord) \ Decl(s)
Tb(r) == Strip(Collider(r))
UndeclTb(s, r) == IF Collider(r) = "" THEN {}
                  ELSE IF Tb(r) = "M" THEN Names(r.effs) \ Decl(s) ELSE {Tb(r)} \ Decl(s)
AtomSum(s, q, e) == SumS(q, LAMBDA p : p[2] * s.sp[p[1]][e])
Balanced(s, r) == \A e \in Elems : AtomSum(s, Reac(r), e) = AtomSum(s, Prod(r), e)
BadOrders(r) == \/ r.rev /\ Len(r.ord) > 0
                \/ ~r.nonr /\ ~(Names(r.ord) \subseteq Names(Reac(r)))
                \/ ~r.nego /\ \E i \in 1..Len(r.ord) : r.ord[i][2] < 0
BadTb(r) == LET c == Collider(r) IN
            \/ c = "?"
            \/ r.typ = "falloff" /\ ~Paren(c)
            \/ r.typ = "plog" /\ Tb(r) = "M"
            \/ c = "" /\ (Len(r.effs) > 0 \/ r.deff >= 0)
            \/ c # "" /\ Tb(r) # "M" /\ (r.deff > 0 \/ (Len(r.effs) > 0 /\ Names(r.effs) # {Tb(r)}))
Fault(s, r) == \/ BadTb(r) \/ BadOrders(r) \/ r.rate # "ok"
               \/ (UndeclEq(s, r) = {} /\ ~Balanced(s, r))
Verdict(s, r) ==
  LET u == (UndeclEq(s, r) \cup UndeclOrd(s, r)) # {}
      t == UndeclTb(s, r) # {}
      mayskip == (u /\ s.skipS) \/ (t /\ s.skipT)
  IN IF Fault(s, r) THEN (IF mayskip THEN {"err", "skip"} ELSE {"err"})
     ELSE IF u THEN (IF s.skipS THEN (IF t THEN {"skip", "err"} ELSE {"skip"}) ELSE (IF t /\ s.skipT THEN {"err", "skip"} ELSE {"err"}))
     ELSE IF t THEN (IF ~s.skipT THEN {"err"} ELSE IF Tb(r) = "M" THEN {"add"} ELSE {"skip"})
     ELSE {"add"}

\* ---- what is stored for an accepted reaction
EffOf(r, n) == IF Tb(r) # "M" THEN (IF n = Tb(r) THEN 1 ELSE 0)
               ELSE IF n \in Names(r.effs) THEN Coef(r.effs, n) ELSE IF r.deff >= 0 THEN r.deff ELSE 1
Merge(q) == [n \in Names(q) |-> Coef(q, n)]
Store(s, r) == [reac |-> Merge(Reac(r)), prod |-> Merge(Prod(r)), rev |-> r.rev, dup |-> r.dup,
                tb |-> IF Collider(r) = "" THEN "" ELSE Tb(r),
                eff |-> [n \in Decl(s) |-> IF Collider(r) = "" THEN 0 ELSE EffOf(r, n)],
                kind |-> <<IF r.typ \in {"falloff", "plog"} THEN r.typ ELSE "Arrhenius", Collider(r) # "">>]

\* ---- duplicates
Get(f, n) == IF n \in DOMAIN f THEN f[n] ELSE 0
Prop(a, b, c, d) == \* <<a, b>> proportional to <<c, d>>
    LET N == DOMAIN a \cup DOMAIN b \cup DOMAIN c \cup DOMAIN d
        n0 == IF DOMAIN a # {} THEN [s |-> 1, n |-> CHOOSE n \in DOMAIN a : TRUE]
              ELSE [s |-> 2, n |-> CHOOSE n \in DOMAIN b : TRUE]
        x == IF n0.s = 1 THEN a[n0.n] ELSE b[n0.n]
        y == IF n0.s = 1 THEN Get(c, n0.n) ELSE Get(d, n0.n)
    IN DOMAIN a = DOMAIN c /\ DOMAIN b = DOMAIN d /\
       \A n \in N : Get(a, n) * y = Get(c, n) * x /\ Get(b, n) * y = Get(d, n) * x
SameDir(p, q) == Prop(p.reac, p.prod, q.reac, q.prod)
OppDir(p, q) == Prop(p.reac, p.prod, q.prod, q.reac)
Overlap(s, p, q) == p.tb = "" \/ \E n \in Decl(s) : p.eff[n] # 0 /\ q.eff[n] # 0
SameRx(p, q) == SameDir(p, q) \/ OppDir(p, q)
Clash(s, p, q) == /\ ~(p.dup /\ q.dup) /\ p.kind = q.kind
                  /\ SameDir(p, q) \/ (OppDir(p, q) /\ (p.rev \/ q.rev))
                  /\ Overlap(s, p, q)
MixedM(p, q) == p.tb # "" /\ q.tb # "" /\ (p.tb = "M") # (q.tb = "M")
NR(s) == Len(s.rx)
AllPairs(s) == {<<i, j>> \in (1..NR(s)) \X (1..NR(s)) : j < i /\ Clash(s, s.rx[i], s.rx[j])}
Pairs(s) == IF s.mode = "error" THEN AllPairs(s) ELSE {p \in AllPairs(s) : ~MixedM(s.rx[p[1]], s.rx[p[2]])}
Mixed(s) == {p \in AllPairs(s) : MixedM(s.rx[p[1]], s.rx[p[2]])}
Unmatched(s) == {i \in 1..NR(s) : s.rx[i].dup /\ ~\E j \in 1..NR(s) : j # i /\ s.rx[j].dup /\ SameRx(s.rx[i], s.rx[j])}
\* effect of the handling of explicit third bodies
Handled(s) == IF s.mode \notin {"mark-duplicate", "modify-efficiency"} \/ Mixed(s) = {} THEN s
              ELSE LET p == CHOOSE p \in Mixed(s) : TRUE
                       m == IF s.rx[p[1]].tb = "M" THEN p[1] ELSE p[2]
                       x == IF m = p[1] THEN p[2] ELSE p[1]
                   IN IF s.mode = "mark-duplicate" THEN [s EXCEPT !.rx[m].dup = TRUE, !.rx[x].dup = TRUE]
                      ELSE [s EXCEPT !.rx[m].eff[s.rx[x].tb] = 0]
Definite(s) == s.mode \notin {"mark-duplicate", "modify-efficiency"} \/ Cardinality(Mixed(s)) = 0
               \/ (Cardinality(Mixed(s)) = 1 /\ Pairs(s) = {})

\* ---- observable form
Vec(s, f) == [k \in 1..Len(s.names) |-> Get(f, s.names[k])]
View(s) == [i \in 1..NR(s) |-> LET p == s.rx[i] IN
              [r |-> Vec(s, p.reac), p |-> Vec(s, p.prod), rev |-> p.rev, dup |-> p.dup, tb |-> p.tb,
               eff |-> Vec(s, p.eff)]]
Res(ok, s, e) == [ok |-> ok, st |-> s, exp |-> e]

InitSt(cfg) == [names |-> cfg.names, sp |-> [n \in {cfg.names[k] : k \in 1..Len(cfg.names)} |->
                          LET k == CHOOSE k \in 1..Len(cfg.names) : cfg.names[k] = n IN cfg.comp[k]],
                rx |-> << >>, skipS |-> FALSE, skipT |-> FALSE, mode |-> "warn"]
RECURSIVE Fold(_, _)
\* loading a whole mechanism: [s, out] with out "ok", "err" or "any"
Fold(s, rs) == IF rs = << >> THEN [s |-> s, out |-> "ok"]
               ELSE LET v == Verdict(s, Head(rs))
                        t == IF v = {"add"} THEN [s EXCEPT !.rx = Append(@, Store(s, Head(rs)))] ELSE s
                        rest == Fold(t, Tail(rs))
                    IN IF v = {"err"} THEN [s |-> s, out |-> "err"]
                       ELSE IF rest.out = "err" THEN rest
                       ELSE IF Cardinality(v) > 1 THEN [s |-> s, out |-> "any"] ELSE rest
Load(s, op) == LET s0 == [s EXCEPT !.rx = << >>, !.skipS = op.skipS, !.skipT = op.skipT, !.mode = op.mode]
                   f == Fold(s0, op.rx)
               IN IF f.out # "ok" THEN [f EXCEPT !.s = s]
                  ELSE IF ~Definite(f.s) THEN [f EXCEPT !.out = "any"]
                  ELSE IF Pairs(f.s) # {} \/ Unmatched(Handled(f.s)) # {} THEN [s |-> s, out |-> "err"]
                  ELSE [s |-> Handled(f.s), out |-> "ok"]
Check(s, op, obs) ==
  CASE op.op = "flags" -> Res(TRUE, [s EXCEPT !.skipS = op.skipS, !.skipT = op.skipT, !.mode = op.mode], "")
    [] op.op = "add" ->
         LET v == Verdict(s, op.rx)
             t == IF obs.out = "add" THEN [s EXCEPT !.rx = Append(@, Store(s, op.rx))] ELSE s
         IN Res(obs.out \in v /\ (obs.out \in v => obs.view = View(t)), t, [v |-> v, view |-> View(t)])
    [] op.op = "check" ->
         LET t == IF Definite(s) THEN Handled(s) ELSE s
             P == {<<p[1], p[2]>> : p \in Pairs(s)} \cup {<<p[2], p[1]>> : p \in Pairs(s)}
             U == {<<i, i>> : i \in Unmatched(t)}
             want == IF P # {} THEN P ELSE IF U # {} THEN U ELSE {<<0, 0>>}
         IN IF ~Definite(s) THEN Res(TRUE, [s EXCEPT !.mode = "lost"], "")
            ELSE IF s.mode = "lost" THEN Res(TRUE, s, "")
            ELSE Res(<<obs.pair[1], obs.pair[2]>> \in want /\ (obs.thrown = ((P \cup U) # {})) /\ obs.view = View(t), t,
                     [pairs |-> want, thrown |-> (P \cup U) # {}, view |-> View(t)])
    [] op.op = "load" ->
         LET f == Load(s, op)
         IN IF f.out = "any" THEN Res(TRUE, s, "any")
            ELSE Res(obs.out = f.out /\ (f.out = "ok" => obs.view = View(f.s)), s, [out |-> f.out, view |-> View(f.s)])
Inv(s) == \A i \in 1..NR(s) : \A n \in DOMAIN s.rx[i].reac : n \in Decl(s)

\* ------------------------------------------------------------ exploration of the specification
Cfg0 == [names |-> <<"O", "OX", "O2", "AR">>, comp |-> <<<<0, 1, 0, 0>>, <<0, 1, 0, 0>>, <<0, 2, 0, 0>>, <<0, 0, 0, 1>>>>]
R0(a, b, rev, typ, dup) == [reac |-> a, prod |-> b, rev |-> rev, typ |-> typ, dup |-> dup, ord |-> << >>, nonr |-> FALSE,
                            nego |-> FALSE, effs |-> << >>, deff |-> -1, rate |-> "ok"]
A == <<"O", 2>>
B == <<"OX", 2>>
C == <<"O2", 2>>
M == <<"M", 2>>
X == <<"AR", 2>>
Lib == { R0(<<A>>, <<B>>, TRUE, "", FALSE), R0(<<B>>, <<A>>, FALSE, "", FALSE), R0(<< <<"O", 4>> >>, << <<"OX", 4>> >>, FALSE, "", TRUE),
         R0(<<A, B, M>>, <<C, M>>, TRUE, "", FALSE), R0(<<A, B, X>>, <<C, X>>, TRUE, "", FALSE),
         R0(<<C, X>>, <<A, B, X>>, FALSE, "", TRUE), R0(<<A, B>>, <<C>>, TRUE, "", FALSE), R0(<<A, C>>, <<B, C>>, TRUE, "elementary", FALSE),
         R0(<<A, B, M>>, <<A, M>>, TRUE, "", FALSE), R0(<<A, <<"XX", 2>> >>, <<C>>, TRUE, "", FALSE) }
Init == st = InitSt(Cfg0)
Next == \/ \E r \in Lib : "add" \in Verdict(st, r) /\ NR(st) < 3 /\ st' = [st EXCEPT !.rx = Append(@, Store(st, r))]
        \/ \E m \in {"warn", "error", "mark-duplicate", "modify-efficiency"} : st' = [st EXCEPT !.mode = m]
        \/ Definite(st) /\ st' = Handled(st)
\* the duplicate relation is symmetric and independent of the order of the reactions; handling removes the conflict
Perm(s) == LET n == NR(s) IN [s EXCEPT !.rx = [i \in 1..n |-> s.rx[n + 1 - i]]]
MCInv == /\ Inv(st)
         /\ \A i, j \in 1..NR(st) : Clash(st, st.rx[i], st.rx[j]) = Clash(st, st.rx[j], st.rx[i])
         /\ Cardinality(Pairs(st)) = Cardinality(Pairs(Perm(st))) /\ Cardinality(Unmatched(st)) = Cardinality(Unmatched(Perm(st)))
         /\ (st.mode = "modify-efficiency" /\ Definite(st)) => Mixed(Handled(st)) = {}
         /\ \A i \in 1..NR(st) : \A e \in Elems :
               LET tot(f) == SumS([k \in 1..4 |-> <<st.names[k], 0>>], LAMBDA p : Get(f, p[1]) * st.sp[p[1]][e])
               IN tot(st.rx[i].reac) = tot(st.rx[i].prod)
====
