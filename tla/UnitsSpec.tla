---- MODULE UnitsSpec ----
(* Units, unit systems, unit stacks and `units` blocks of nested input maps.
   A unit expression is a sequence of factors [p: prefix, u: unit, e2: twice the exponent]; its meaning is a
   conversion factor, kept as its natural logarithm in units of 1e-6, and six dimensions (mass, length, time,
   temperature, current, quantity), kept doubled so that half-integer exponents are exact; p/e count explicit
   pressure and energy units. *)
EXTENDS Integers, Sequences, TLC
VARIABLE st
UnitTable == (
  "kg" :> [lf |-> 0, d |-> <<1,0,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "g" :> [lf |-> -6907755, d |-> <<1,0,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "m" :> [lf |-> 0, d |-> <<0,1,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "micron" :> [lf |-> -13815511, d |-> <<0,1,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "angstrom" :> [lf |-> -23025851, d |-> <<0,1,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "s" :> [lf |-> 0, d |-> <<0,0,1,0,0,0>>, p |-> 0, e |-> 0] @@
  "min" :> [lf |-> 4094345, d |-> <<0,0,1,0,0,0>>, p |-> 0, e |-> 0] @@
  "hr" :> [lf |-> 8188689, d |-> <<0,0,1,0,0,0>>, p |-> 0, e |-> 0] @@
  "K" :> [lf |-> 0, d |-> <<0,0,0,1,0,0>>, p |-> 0, e |-> 0] @@
  "C" :> [lf |-> 0, d |-> <<0,0,0,1,0,0>>, p |-> 0, e |-> 0] @@
  "A" :> [lf |-> 0, d |-> <<0,0,0,0,1,0>>, p |-> 0, e |-> 0] @@
  "mol" :> [lf |-> -6907755, d |-> <<0,0,0,0,0,1>>, p |-> 0, e |-> 0] @@
  "gmol" :> [lf |-> -6907755, d |-> <<0,0,0,0,0,1>>, p |-> 0, e |-> 0] @@
  "mole" :> [lf |-> -6907755, d |-> <<0,0,0,0,0,1>>, p |-> 0, e |-> 0] @@
  "kmol" :> [lf |-> 0, d |-> <<0,0,0,0,0,1>>, p |-> 0, e |-> 0] @@
  "kgmol" :> [lf |-> 0, d |-> <<0,0,0,0,0,1>>, p |-> 0, e |-> 0] @@
  "molec" :> [lf |-> -61662655, d |-> <<0,0,0,0,0,1>>, p |-> 0, e |-> 0] @@
  "J" :> [lf |-> 0, d |-> <<1,2,-2,0,0,0>>, p |-> 0, e |-> 1] @@
  "cal" :> [lf |-> 1431268, d |-> <<1,2,-2,0,0,0>>, p |-> 0, e |-> 1] @@
  "erg" :> [lf |-> -16118096, d |-> <<1,2,-2,0,0,0>>, p |-> 0, e |-> 1] @@
  "eV" :> [lf |-> -43277754, d |-> <<1,2,-2,0,0,0>>, p |-> 0, e |-> 1] @@
  "N" :> [lf |-> 0, d |-> <<1,1,-2,0,0,0>>, p |-> 0, e |-> 0] @@
  "dyn" :> [lf |-> -11512925, d |-> <<1,1,-2,0,0,0>>, p |-> 0, e |-> 0] @@
  "Pa" :> [lf |-> 0, d |-> <<1,-1,-2,0,0,0>>, p |-> 1, e |-> 0] @@
  "atm" :> [lf |-> 11526088, d |-> <<1,-1,-2,0,0,0>>, p |-> 1, e |-> 0] @@
  "bar" :> [lf |-> 11512925, d |-> <<1,-1,-2,0,0,0>>, p |-> 1, e |-> 0] @@
  "liter" :> [lf |-> -6907755, d |-> <<0,3,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "L" :> [lf |-> -6907755, d |-> <<0,3,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "l" :> [lf |-> -6907755, d |-> <<0,3,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "cc" :> [lf |-> -13815511, d |-> <<0,3,0,0,0,0>>, p |-> 0, e |-> 0] @@
  "ohm" :> [lf |-> 0, d |-> <<1,2,-3,0,-2,0>>, p |-> 0, e |-> 0] @@
  "V" :> [lf |-> 0, d |-> <<1,2,-3,0,-1,0>>, p |-> 0, e |-> 0] @@
  "coulomb" :> [lf |-> 0, d |-> <<0,0,1,0,1,0>>, p |-> 0, e |-> 0])

PrefixTable == ("" :> 0 @@ "Y" :> 55262042 @@ "Z" :> 48354287 @@ "E" :> 41446532 @@ "P" :> 34538776 @@ "T" :> 27631021 @@ "G" :> 20723266 @@ "M" :> 13815511 @@ "k" :> 6907755 @@ "h" :> 4605170 @@ "d" :> -2302585 @@ "c" :> -4605170 @@ "m" :> -6907755 @@ "u" :> -13815511 @@ "n" :> -20723266 @@ "p" :> -27631021 @@ "f" :> -34538776 @@ "a" :> -41446532 @@ "z" :> -48354287 @@ "y" :> -55262042)
LnR == 9025752
LnNa == 61662655
Tol == 60
NSYS == 3
Dims == {"mass", "length", "time", "quantity", "pressure", "energy"}
BaseName == [mass |-> "kg", length |-> "m", time |-> "s", quantity |-> "kmol", pressure |-> "Pa", energy |-> "J"]
D0 == <<0, 0, 0, 0, 0, 0>>
One == [lf |-> 0, d |-> D0, p |-> 0, e |-> 0]

Pow(u, e2) == [lf |-> (u.lf * e2) \div 2, d |-> [k \in 1..6 |-> u.d[k] * e2], p |-> u.p * e2, e |-> u.e * e2]
Mul(u, v) == [lf |-> u.lf + v.lf, d |-> [k \in 1..6 |-> u.d[k] + v.d[k]], p |-> u.p + v.p, e |-> u.e + v.e]
Atom(a) == LET b == UnitTable[a.u] IN Pow([b EXCEPT !.lf = @ + PrefixTable[a.p]], a.e2)
RECURSIVE Meaning(_)
Meaning(x) == IF x = << >> THEN One ELSE Mul(Atom(Head(x)), Meaning(Tail(x)))

Is(u, name) == u.d = [k \in 1..6 |-> 2 * UnitTable[name].d[k]]
IsAE(u) == u.d = <<2, 4, -4, 0, 0, -2>>
\* beyond 1e+-260 the factor itself is not representable
Near(a, b) == (a - b <= Tol /\ b - a <= Tol) \/ a > 600000000 \/ a < -600000000 \/ b > 600000000 \/ b < -600000000

\* ---------------------------------------------------------------- unit systems
Sys0 == [f |-> [d \in Dims |-> 0], ae |-> 0, ex |-> FALSE, n |-> [d \in Dims |-> ""], aen |-> ""]
Implied(s) == IF s.ex THEN s ELSE [s EXCEPT !.ae = s.f.energy - s.f.quantity]

\* which default a unit sets; "none": accepted but without effect; "bad": rejected
Target(u) ==
    CASE Is(u, "kg") -> "mass" [] Is(u, "m") -> "length" [] Is(u, "s") -> "time" [] Is(u, "kmol") -> "quantity"
      [] Is(u, "Pa") -> "pressure" [] Is(u, "J") -> "energy"
      [] Is(u, "K") -> IF u.lf = 0 THEN "none" ELSE "bad"
      [] Is(u, "A") -> IF u.lf = 0 THEN "none" ELSE "bad"
      [] OTHER -> "bad"

SetOne(s, it) == LET u == Meaning(it.x)
                     t == Target(u)
                 IN IF t = "none" THEN s ELSE [s EXCEPT !.f[t] = u.lf, !.n[t] = it.s]
AEof(u) == IF IsAE(u) THEN u.lf ELSE IF Is(u, "K") THEN u.lf + LnR ELSE u.lf + LnNa
AEok(u) == IsAE(u) \/ Is(u, "K") \/ Is(u, "J")
SetAE(s, it) == LET u == Meaning(it.x) IN [s EXCEPT !.ae = AEof(u), !.ex = TRUE, !.aen = it.s]

ItemOK(it) == CASE it.dim = "activation-energy" -> AEok(Meaning(it.x))
                [] it.dim = "" -> Target(Meaning(it.x)) /= "bad"
                [] it.dim \in {"temperature", "current"} ->
                       Target(Meaning(it.x)) = "none" /\ Is(Meaning(it.x), IF it.dim = "current" THEN "A" ELSE "K")
                [] OTHER -> Target(Meaning(it.x)) = it.dim
ItemsOK(its) == \A k \in 1..Len(its) : ItemOK(its[k])
RECURSIVE ApplyItems(_, _)
ApplyItems(s, its) ==
    IF its = << >> THEN Implied(s)
    ELSE IF Head(its).dim = "activation-energy" THEN ApplyItems(SetAE(s, Head(its)), Tail(its))
    ELSE ApplyItems(SetOne(s, Head(its)), Tail(its))

\* value of one unit u when numbers are understood in unit system s
DefaultFactor(s, u) ==
    (  s.f.mass     * (u.d[1] - u.p - u.e)
     + s.f.length   * (u.d[2] + u.p - 2 * u.e)
     + s.f.time     * (u.d[3] + 2 * u.p + 2 * u.e)
     + s.f.quantity * u.d[6]
     + s.f.pressure * u.p
     + s.f.energy   * u.e) \div 2

\* ---------------------------------------------------------------- expected results
Err == [err |-> 1]
Val(v) == [err |-> 0, v |-> v]
ConvertE(u, v) == IF u.d = v.d THEN Val(u.lf - v.lf) ELSE Err
AEconv(u, v) == IF AEok(u) /\ AEok(v) THEN Val(AEof(u) - AEof(v)) ELSE Err
NameOf(s, d) == IF s.n[d] = "" THEN BaseName[d] ELSE s.n[d]
Defaults(s) == [mass |-> NameOf(s, "mass"), length |-> NameOf(s, "length"), time |-> NameOf(s, "time"),
                quantity |-> NameOf(s, "quantity"), pressure |-> NameOf(s, "pressure"), energy |-> NameOf(s, "energy"),
                temperature |-> "K", current |-> "A",
                ae |-> IF s.aen = "" THEN NameOf(s, "energy") \o " / " \o NameOf(s, "quantity") ELSE s.aen]

\* units blocks: level k holds `items` (declared in a map, or as first entry of a list); for an entry of a list,
\* `outer` is declared by the list and applies where the entry itself says nothing
DimsOf(its) == {its[k].dim : k \in 1..Len(its)}
Merged(lv) == lv.items \o SelectSeq(lv.outer, LAMBDA it : it.dim \notin DimsOf(lv.items))
RECURSIVE Levels(_, _)
Levels(s, lv) == IF lv = << >> THEN << >>
                 ELSE LET t == ApplyItems(s, Merged(Head(lv))) IN <<t>> \o Levels(t, Tail(lv))

\* ---------------------------------------------------------------- state machine
InitSt(cfg) == [sys |-> [i \in 1..NSYS |-> Sys0], reg |-> [i \in 1..3 |-> One], stack |-> << >>]

Same(a, b) == Near(a.lf, b.lf) /\ a.d = b.d
RECURSIVE ProdStack(_)
ProdStack(k) == IF k = << >> THEN One ELSE Mul(Pow(Head(k).u, Head(k).e2), ProdStack(Tail(k)))
StackPos(k, u) == {i \in 1..Len(k) : k[i].u = u}

Ok(o, s2) == [ok |-> TRUE, st |-> s2, exp |-> o]
Res(good, s2, o) == [ok |-> good, st |-> s2, exp |-> o]
Match(e, obs) == /\ e.err = obs.err
                 /\ (e.err = 0 => Near(e.v, obs.v))
Num(s, e, obs) == Res(Match(e, obs), s, e)
SysSame(a, b) == (\A d \in Dims : Near(a.f[d], b.f[d])) /\ Near(a.ae, b.ae)

Check(s, op, obs) ==
  CASE op.op = "def" ->
         IF ItemsOK(op.items)
         THEN Res(obs.err = 0, [s EXCEPT !.sys[op.i] = ApplyItems(@, op.items)], [err |-> 0])
         ELSE Res(obs.err = 1, s, [err |-> 1])
    [] op.op = "fresh" -> Res(obs.err = 0, [s EXCEPT !.sys[op.i] = Sys0], [err |-> 0])
    [] op.op = "conv" -> Num(s, ConvertE(Meaning(op.x), Meaning(op.y)), obs)
    [] op.op = "to" -> Num(s, LET u == Meaning(op.x) IN Val(DefaultFactor(s.sys[op.i], u) - u.lf), obs)
    [] op.op = "from" -> Num(s, LET u == Meaning(op.x) IN Val(u.lf - DefaultFactor(s.sys[op.i], u)), obs)
    [] op.op = "ae" -> Num(s, AEconv(Meaning(op.x), Meaning(op.y)), obs)
    [] op.op = "aeto" -> Num(s, LET u == Meaning(op.x) IN
                                IF AEok(u) THEN Val(s.sys[op.i].ae - AEof(u)) ELSE Err, obs)
    [] op.op = "aefrom" -> Num(s, LET u == Meaning(op.x) IN
                                  IF AEok(u) THEN Val(AEof(u) - s.sys[op.i].ae) ELSE Err, obs)
    [] op.op = "defaults" -> Res(obs = Defaults(s.sys[op.i]), s, Defaults(s.sys[op.i]))
       \* the difference between two systems, applied to the second, reproduces the first
    [] op.op = "delta" -> LET a == s.sys[op.i]
                              got == obs.f
                              want == [mass |-> a.f.mass, length |-> a.f.length, time |-> a.f.time,
                                       quantity |-> a.f.quantity, pressure |-> a.f.pressure, energy |-> a.f.energy, ae |-> a.ae]
                          IN Res(obs.err = 0 /\ \A k \in DOMAIN want : Near(want[k], got[k]), s, want)
    [] op.op = "unit" -> LET u == Meaning(op.x)
                             e == [err |-> 0, lf |-> u.lf, d |-> u.d, rt |-> 1]
                         IN Res(obs.err = 0 /\ Near(obs.lf, u.lf) /\ obs.d = u.d /\ obs.rt = 1,
                                [s EXCEPT !.reg[op.i] = u], e)
    [] op.op = "mul" -> LET u == Mul(s.reg[op.i], s.reg[op.j])
                        IN Res(Near(obs.lf, u.lf) /\ obs.d = u.d, [s EXCEPT !.reg[op.i] = u], u)
    [] op.op = "pow" -> LET u == Pow(s.reg[op.i], op.e2)
                            w == [u EXCEPT !.d = [k \in 1..6 |-> @[k] \div 2], !.p = 0, !.e = 0]
                        IN Res(Near(obs.lf, w.lf) /\ obs.d = w.d, [s EXCEPT !.reg[op.i] = w], w)
    [] op.op = "cmp" -> LET e == [conv |-> IF s.reg[op.i].d = s.reg[op.j].d THEN 1 ELSE 0]
                        IN Res(obs.conv = e.conv, s, e)
    [] op.op = "sstd" -> Res(TRUE, [s EXCEPT !.stack = <<[u |-> Meaning(op.x), e2 |-> 0]>>], [ok |-> 1])
    [] op.op = "sjoin" -> Res(obs.e2 = s.stack[1].e2 + op.e2, [s EXCEPT !.stack[1].e2 = @ + op.e2], s.stack[1].e2 + op.e2)
    [] op.op = "supd" -> LET u == Meaning(op.x)
                             P == StackPos(s.stack, u)
                             k == IF P = {} THEN Append(s.stack, [u |-> u, e2 |-> op.e2])
                                  ELSE [s.stack EXCEPT ![CHOOSE i \in P : \A j \in P : i <= j].e2 = @ + op.e2]
                         IN Res(TRUE, [s EXCEPT !.stack = k], [n |-> Len(k)])
    [] op.op = "sprod" -> LET u == ProdStack(s.stack)
                              w == u.d   \* four times the dimension
                          IN Res(Near(obs.lf, u.lf) /\ obs.d = w, s, [lf |-> u.lf, d |-> w])
    [] op.op = "yaml" -> LET L == Levels(Sys0, op.levels)
                             u == Meaning(op.x)
                             want == [k \in 1..Len(L) |-> [v |-> DefaultFactor(L[k], u) - u.lf, ae |-> L[k].ae]]
                         IN Res(/\ obs.err = 0 /\ Len(obs.v) = Len(want)
                                /\ \A k \in 1..Len(want) : Near(want[k].v, obs.v[k].v) /\ Near(want[k].ae, obs.v[k].ae),
                                s, want)

Inv(s) == /\ \A i \in 1..NSYS : s.sys[i].ex \/ s.sys[i].ae = s.sys[i].f.energy - s.sys[i].f.quantity

\* ---------------------------------------------------------------- exploration of the specification
A(p, u, e2) == [p |-> p, u |-> u, e2 |-> e2]
MCItems == { [dim |-> "mass", s |-> "g", x |-> <<A("", "g", 2)>>],
             [dim |-> "length", s |-> "cm", x |-> <<A("c", "m", 2)>>],
             [dim |-> "quantity", s |-> "mol", x |-> <<A("", "mol", 2)>>],
             [dim |-> "energy", s |-> "cal", x |-> <<A("", "cal", 2)>>],
             [dim |-> "pressure", s |-> "atm", x |-> <<A("", "atm", 2)>>],
             [dim |-> "energy", s |-> "J", x |-> <<A("", "J", 2)>>],
             [dim |-> "activation-energy", s |-> "K", x |-> <<A("", "K", 2)>>],
             [dim |-> "activation-energy", s |-> "cal/mol", x |-> <<A("", "cal", 2), A("", "mol", -2)>>] }
MCExprs == { <<A("", "kg", 2)>>, <<A("", "Pa", 2)>>, <<A("", "J", 2), A("", "kmol", -2)>>, <<A("k", "cal", 2)>>,
             <<A("", "kg", 2), A("", "m", -2), A("", "s", -4)>>, <<A("", "m", 6), A("", "kmol", -2), A("", "s", -2)>> }
Init == st = InitSt("")
Next == \/ \E i \in 1..2, it \in MCItems : st' = [st EXCEPT !.sys[i] = ApplyItems(@, <<it>>)]
\* consistency of the algebra: conversion is transitive, invertible and independent of the system's spelling
Laws == \A u \in MCExprs : \A v \in MCExprs :
          /\ Mul(Meaning(u), Meaning(v)).d = Mul(Meaning(v), Meaning(u)).d
          /\ ConvertE(Meaning(u), Meaning(v)).err = ConvertE(Meaning(v), Meaning(u)).err
          /\ Near(Meaning(u \o v).lf, Meaning(u).lf + Meaning(v).lf)
SysLaws == \A i \in 1..2 : \A u \in MCExprs :
             \* a pressure in a system without explicit pressure units must not depend on the pressure default
             (Meaning(u).p = 0) => DefaultFactor(st.sys[i], Meaning(u)) =
                                   DefaultFactor([st.sys[i] EXCEPT !.f.pressure = 7000000], Meaning(u))
MCInv == Inv(st) /\ Laws /\ SysLaws
====
