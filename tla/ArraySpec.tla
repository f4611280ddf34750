------------------------------- MODULE ArraySpec -------------------------------
\* Solution arrays (C08): data tables shared by an array and its slices, one state and one entry of every extra component per
\* location, the phase object they all work on, and files they are saved to.
\* States are sequences <<T, D or P, y1, .., yn>> (y in thousandths); entries of extra components are texts with a column type
\* "i", "d", "s" (one number or text) or "mi", "md", "ms" (a row, "<width>:<a>|<b>..").
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
VARIABLE st
Res(ok, t, e) == [ok |-> ok, st |-> t, exp |-> e]
Abs(x) == IF x < 0 THEN -x ELSE x
InitSt(cfg) == [ph |-> cfg.start, names |-> cfg.names, sp |-> cfg.sp, w |-> cfg.w, tabs |-> << >>, arrs |-> << >>, fs |-> << >>, csv |-> {}, lost |-> FALSE]
NY(s) == Len(s.sp)
Dom(s, h) == s.arrs[h]
Rows(s, h) == LET a == s.arrs[h] IN [i \in 1..Len(a.act) |-> s.tabs[a.tab].rows[a.act[i]]]
N(s, h) == Len(s.arrs[h].act)
ND(s, h) == Len(s.tabs[s.arrs[h].tab].rows)
Ident(s, h) == LET a == s.arrs[h] IN Len(a.act) = ND(s, h) /\ \A i \in 1..Len(a.act) : a.act[i] = i
Users(s, t) == Cardinality({h \in 1..Len(s.arrs) : s.arrs[h].live /\ s.arrs[h].tab = t})
Shared(s, h) == Users(s, s.arrs[h].tab) > 1
\* extra components: first those listed before the state, then those after it
Ext(s, h) == LET t == s.tabs[s.arrs[h].tab] IN SelectSeq(t.ext, LAMBDA x : x.front) \o SelectSeq(t.ext, LAMBDA x : ~x.front)
Names(s, h) == LET t == s.tabs[s.arrs[h].tab]
                   nm(q) == [i \in 1..Len(q) |-> q[i].n]
               IN nm(SelectSeq(t.ext, LAMBDA x : x.front)) \o s.names \o s.sp \o nm(SelectSeq(t.ext, LAMBDA x : ~x.front))
XIdx(s, h, n) == LET t == s.tabs[s.arrs[h].tab] S == {i \in 1..Len(t.ext) : t.ext[i].n = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Slice(s, h, x) == [n |-> x.n, ty |-> x.ty, v |-> IF x.ty = "void" THEN << >> ELSE [i \in 1..N(s, h) |-> x.v[s.arrs[h].act[i]]]]
Width(v) == IF v = "" THEN 0 ELSE CHOOSE w \in 0..9 : SubSeq(v, 1, 1) = ToString(w)
Multi(ty) == ty \in {"mi", "md", "ms"}
\* what a new or reset entry of a column holds
Deflt(x) == CASE x.ty \in {"i", "d"} -> "0"
              [] x.ty = "s" -> ""
              [] Multi(x.ty) -> LET w == IF Len(x.v) = 0 THEN 0 ELSE Width(x.v[1]) z == IF x.ty = "ms" THEN "" ELSE "0"
                                RECURSIVE J(_)
                                    J(k) == IF k = 0 THEN "" ELSE IF k = 1 THEN z ELSE J(k - 1) \o "|" \o z
                                IN ToString(w) \o ":" \o J(w)
              [] OTHER -> ""
Zero(s) == [i \in 1..(2 + NY(s)) |-> 0]
MetaSeq(m) == m
Show(s, h) == IF ~s.arrs[h].live
              THEN [n |-> -1, shape |-> << >>, names |-> << >>, lst |-> << >>, rows |-> << >>, ext |-> << >>, meta |-> << >>, has |-> 1]
              ELSE LET e == Ext(s, h) IN
                   [n |-> N(s, h), shape |-> s.arrs[h].shape, names |-> Names(s, h),
                    lst |-> LET q == SelectSeq(e, LAMBDA x : x.ty # "void") IN [i \in 1..Len(q) |-> q[i].n],
                    rows |-> Rows(s, h), ext |-> [i \in 1..Len(e) |-> Slice(s, h, e[i])], meta |-> s.arrs[h].meta, has |-> 1]
Dump(s) == [h \in 1..Len(s.arrs) |-> Show(s, h)]
Seen(s, o) == o.ph = s.ph /\ o.d = Dump(s)
Exp(s) == [ph |-> s.ph, d |-> Dump(s)]
Ok(s, o, extra) == Res(o.err = 0 /\ extra /\ Seen(s, o), s, Exp(s))
Refused(s, o) == Res(o.err = 1 /\ Seen(s, o), s, "refused, nothing changed")

\* resizing the only user of a table: a slice keeps its own locations
Resized(s, h, n) ==
  LET a == s.arrs[h] t == s.tabs[a.tab]
      rows == Rows(s, h)
      col(x) == LET v == Slice(s, h, x).v IN IF x.ty = "void" THEN << >> ELSE [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE Deflt([x EXCEPT !.v = v])]
      t2 == [rows |-> [i \in 1..n |-> IF i <= Len(rows) THEN rows[i] ELSE Zero(s)], ext |-> [k \in 1..Len(t.ext) |-> [t.ext[k] EXCEPT !.v = col(t.ext[k])]]]
  IN [s EXCEPT !.tabs[a.tab] = t2, !.arrs[h].act = [i \in 1..n |-> i], !.arrs[h].loc = 0, !.arrs[h].sl = FALSE]
CanResize(s, h) == Len(s.arrs[h].shape) <= 1 /\ ~Shared(s, h)
Resize(s, h, n) == [Resized(s, h, n) EXCEPT !.arrs[h].shape = <<n>>]
PutRow(s, h, l, x) == [s EXCEPT !.tabs[s.arrs[h].tab].rows[s.arrs[h].act[l]] = x]
\* the buffered location after a request for l (counted from 0; negative: stay); 0 if the request is refused
At(s, h, l) == IF N(s, h) = 0 THEN 0 ELSE IF l < 0 THEN s.arrs[h].loc ELSE IF l >= N(s, h) THEN 0 ELSE s.arrs[h].act[l + 1]
Move(s, h, l, restore) == LET w == [s EXCEPT !.arrs[h].loc = At(s, h, l)]
                          IN IF restore /\ l >= 0 THEN [w EXCEPT !.ph = s.tabs[s.arrs[h].tab].rows[At(s, h, l)]] ELSE w
\* setting an entry of the extra component x (a position in the table) at row i; <<ok, table entry>>
SetAt(x, nd, i, ty, v) ==
  IF x.ty = "void" THEN IF nd > 1 \/ ty = "void" THEN <<FALSE, x>> ELSE <<TRUE, [x EXCEPT !.ty = ty, !.v = [k \in 1..nd |-> v]]>>
  ELSE IF x.ty = ty THEN IF Multi(ty) /\ Width(v) # Width(x.v[i]) THEN <<FALSE, x>> ELSE <<TRUE, [x EXCEPT !.v[i] = v]>>
  ELSE IF x.ty \in {"d", "s"} /\ ty = "i" THEN <<TRUE, [x EXCEPT !.v[i] = v]>> ELSE <<FALSE, x>>
RECURSIVE SetAux(_, _, _, _)
SetAux(s, h, i, xs) ==
  IF Len(xs) = 0 THEN <<TRUE, s>>
  ELSE LET p == XIdx(s, h, xs[1].n) IN
       IF p = 0 THEN <<FALSE, s>>
       ELSE LET t == s.arrs[h].tab q == SetAt(s.tabs[t].ext[p], ND(s, h), i, xs[1].ty, xs[1].v) IN
            IF ~q[1] THEN <<FALSE, s>> ELSE SetAux([s EXCEPT !.tabs[t].ext[p] = q[2]], h, i, Tail(xs))
\* assigning an extra component through array h; <<ok, column>>
Assign(s, h, x, kind, ty, v) ==
  LET nd == ND(s, h) n == N(s, h) act == s.arrs[h].act full == Ident(s, h)
      scatter(d) == [i \in 1..nd |-> IF \E k \in 1..n : act[k] = i THEN d[CHOOSE k \in 1..n : act[k] = i] ELSE x.v[i]]
  IN CASE kind = "void" -> IF n = nd THEN <<TRUE, [x EXCEPT !.ty = "void", !.v = << >>]>> ELSE <<FALSE, x>>
       [] x.ty = "void" ->
            IF ~full THEN <<FALSE, x>>
            ELSE IF kind = "vec" /\ Len(v) = nd THEN <<TRUE, [x EXCEPT !.ty = ty, !.v = v]>>
            ELSE IF kind = "scalar" THEN IF nd = 0 THEN <<FALSE, x>> ELSE <<TRUE, [x EXCEPT !.ty = ty, !.v = [i \in 1..nd |-> v[1]]]>>
            ELSE IF nd = 0 \/ Len(v) = 0 \/ Multi(ty) THEN <<FALSE, x>>
            ELSE LET RECURSIVE J(_)
                     J(k) == IF k = 1 THEN v[1] ELSE J(k - 1) \o "|" \o v[k]
                     z == ToString(Len(v)) \o ":" \o J(Len(v))
                 IN <<TRUE, [x EXCEPT !.ty = "m" \o ty, !.v = [i \in 1..nd |-> z]]>>
       [] kind = "scalar" -> IF x.ty # ty THEN <<FALSE, x>> ELSE <<TRUE, [x EXCEPT !.v = scatter([k \in 1..n |-> v[1]])]>>
       [] OTHER -> IF Len(v) # n \/ (Multi(ty) /\ \E i \in 1..Len(v) : Width(v[i]) # Width(v[1])) THEN <<FALSE, x>>
                   ELSE IF full THEN <<TRUE, [x EXCEPT !.ty = ty, !.v = v]>>
                   ELSE IF x.ty # ty \/ (Multi(ty) /\ n > 0 /\ Width(v[1]) # Width(x.v[1])) THEN <<FALSE, x>>
                   ELSE <<TRUE, [x EXCEPT !.v = scatter(v)]>>
Sum(q) == LET RECURSIVE S(_)
              S(k) == IF k = 0 THEN 0 ELSE q[k] + S(k - 1)
          IN S(Len(q))
YS(x) == SubSeq(x, 3, Len(x))
\* x is the normalised version of y
Norm(x, y) == LET z == Sum(YS(y)) IN IF Len(YS(y)) = 0 THEN x = y ELSE
                                     /\ SubSeq(x, 1, 2) = SubSeq(y, 1, 2) /\ Len(x) = Len(y)
                                     /\ z > 0
                                     /\ \A k \in 1..Len(YS(y)) : YS(x)[k] \in -5..1005 /\ Abs(YS(x)[k] * z - YS(y)[k] * 1000) <= z
File(s, f, name) == LET S == {i \in 1..Len(s.fs) : s.fs[i].f = f /\ s.fs[i].name = name} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Sub(x) == IF x = "" THEN "data" ELSE x
VoidIn(s, h) == \E i \in 1..Len(Ext(s, h)) : Ext(s, h)[i].ty = "void"
MultiIn(s, h) == \E i \in 1..Len(Ext(s, h)) : Multi(Ext(s, h)[i].ty)

\* one line of a table in text form: molar or mass fractions
CsvHead(s, h, mole) == LET e == Ext(s, h)
                           nm(q) == [i \in 1..Len(q) |-> q[i].n]
                       IN nm(SelectSeq(e, LAMBDA x : x.front)) \o s.names \o [k \in 1..NY(s) |-> (IF mole THEN "X_" ELSE "Y_") \o s.sp[k]]
                            \o nm(SelectSeq(e, LAMBDA x : ~x.front))
CsvOk(s, h, mole, o) ==
  LET e == Ext(s, h) fr == SelectSeq(e, LAMBDA x : x.front) bk == SelectSeq(e, LAMBDA x : ~x.front)
      nf == Len(fr) rows == Rows(s, h)
      num(y) == {z \in -5..2005 : ToString(z) = y}
  IN /\ o.head = CsvHead(s, h, mole) /\ Len(o.aux) = N(s, h)
     /\ \A i \in 1..Len(rows) :
          /\ Len(o.aux[i]) = Len(o.head)
          /\ \A k \in 1..nf : o.aux[i][k] = Slice(s, h, fr[k]).v[i]
          /\ \A k \in 1..Len(bk) : o.aux[i][nf + 2 + NY(s) + k] = Slice(s, h, bk[k]).v[i]
          /\ o.aux[i][nf + 1] = ToString(rows[i][1]) /\ o.aux[i][nf + 2] = ToString(rows[i][2])
          /\ LET y == YS(rows[i])
                 \* amounts of substance times the product of the weights 1, 2, 4
                 a == [k \in 1..Len(y) |-> IF mole THEN (y[k] * 4) \div s.w[k] ELSE y[k]]
                 z == IF mole THEN Sum(a) ELSE 1000
             IN \A k \in 1..Len(y) : \E v \in num(o.aux[i][nf + 2 + k]) : Abs(v * z - a[k] * 1000) <= z

\* a location that was never given a state cannot be visited
Blank(s, h, l) == At(s, h, l) > 0 /\ LET x == s.tabs[s.arrs[h].tab].rows[At(s, h, l)] IN x[1] <= 0 \/ x[2] <= 0
AnyBlank(s, h) == \E l \in 0..(N(s, h) - 1) : Blank(s, h, l)
Unknown(s, h, l, o) == Res(o.d = Dump(s), [s EXCEPT !.ph = o.ph, !.arrs[h].loc = At(s, h, l)], "any phase state")

\* a refused request with several entries may have stored some of them: the rest of the history is not checked
Lost(s, o) == Res(o.err = 1, [s EXCEPT !.lost = TRUE], "refused")

Check(s, op, o) ==
  LET h == IF "h" \in DOMAIN op THEN op.h + 1 ELSE 0
      a == IF h \in 1..Len(s.arrs) THEN s.arrs[h] ELSE [tab |-> 0]
      t == a.tab
  IN
  IF s.lost THEN Res(TRUE, s, "unspecified") ELSE
  IF h > 0 /\ ~(h <= Len(s.arrs) /\ (h <= Len(s.arrs) => s.arrs[h].live)) THEN Refused(s, o) ELSE
  IF op.op = "norm" /\ AnyBlank(s, h) /\ NY(s) > 0 /\ h <= Len(o.d) /\ (h <= Len(o.d) => Len(o.d[h].rows) = N(s, h))
  THEN LET q == o.d[h].rows
           w == [s EXCEPT !.tabs[t].rows = [i \in 1..Len(@) |-> IF \E k \in 1..Len(a.act) : a.act[k] = i THEN q[CHOOSE k \in 1..Len(a.act) : a.act[k] = i] ELSE @[i]],
                          !.arrs[h].loc = a.act[1 + CHOOSE l \in 0..(N(s, h) - 1) : Blank(s, h, l) /\ \A m \in 0..(l - 1) : ~Blank(s, h, m)], !.ph = o.ph]
       IN Res(TRUE, w, "unspecified") ELSE
  IF op.op \in {"get", "loc", "aux"} /\ op.l >= 0 /\ Blank(s, h, op.l) THEN Unknown(s, h, op.l, o) ELSE
  CASE op.op = "new" ->
         LET w == [s EXCEPT !.tabs = Append(@, [rows |-> [i \in 1..op.n |-> s.ph], ext |-> << >>]),
                            !.arrs = Append(@, [tab |-> Len(s.tabs) + 1, act |-> [i \in 1..op.n |-> i], loc |-> 0, shape |-> <<op.n>>, meta |-> op.meta, live |-> TRUE, sl |-> FALSE, part |-> FALSE])]
         IN Ok(w, o, TRUE)
    [] op.op = "share" ->
         IF \/ \E i \in 1..Len(op.sel) : op.sel[i] < 0 \/ op.sel[i] >= N(s, h)
            \/ \E i, j \in 1..Len(op.sel) : i # j /\ op.sel[i] = op.sel[j]
         THEN Refused(s, o)
         ELSE LET w == [s EXCEPT !.arrs = Append(@, [tab |-> t, act |-> [i \in 1..Len(op.sel) |-> a.act[op.sel[i] + 1]], loc |-> 0, shape |-> <<Len(op.sel)>>,
                                                     meta |-> << >>, live |-> TRUE, sl |-> TRUE, part |-> TRUE])]
              IN Ok(w, o, TRUE)
    [] op.op = "del" -> Ok([s EXCEPT !.arrs[h].live = FALSE], o, TRUE)
    [] op.op = "phase" -> Ok([s EXCEPT !.ph = op.s], o, TRUE)
    [] op.op = "resize" -> IF CanResize(s, h) THEN Ok(Resize(s, h, op.n), o, TRUE) ELSE Refused(s, o)
    [] op.op = "shape" ->
         LET RECURSIVE P(_)
             P(k) == IF k = 0 THEN 1 ELSE op.s[k] * P(k - 1)
             n == P(Len(op.s))
         IN IF n = N(s, h) THEN Ok([s EXCEPT !.arrs[h].shape = op.s], o, TRUE)
            ELSE IF a.sl \/ Shared(s, h) THEN Refused(s, o)
            ELSE Ok([Resized(s, h, n) EXCEPT !.arrs[h].shape = op.s], o, TRUE)
    [] op.op = "reset" ->
         LET hit(i) == \E k \in 1..Len(a.act) : a.act[k] = i
             w == [s EXCEPT !.tabs[t] = [rows |-> [i \in 1..Len(@.rows) |-> IF hit(i) THEN s.ph ELSE @.rows[i]],
                                         ext |-> [k \in 1..Len(@.ext) |-> [@.ext[k] EXCEPT !.v = [i \in 1..Len(@) |-> IF hit(i) THEN Deflt(s.tabs[t].ext[k]) ELSE @[i]]]]]]
         IN Ok(w, o, TRUE)
    [] op.op = "loc" -> IF At(s, h, op.l) = 0 THEN Refused(s, o) ELSE Ok(Move(s, h, op.l, op.restore = 1), o, TRUE)
    [] op.op = "update" -> IF At(s, h, op.l) = 0 THEN Refused(s, o)
                           ELSE Ok([Move(s, h, op.l, FALSE) EXCEPT !.tabs[t].rows[At(s, h, op.l)] = s.ph], o, TRUE)
    [] op.op = "get" -> IF At(s, h, op.l) = 0 THEN Refused(s, o)
                        ELSE LET w == Move(s, h, op.l, TRUE) IN Ok(w, o, o.ret = w.ph)
    [] op.op = "set" -> IF Len(op.s) # 2 + NY(s) \/ At(s, h, op.l) = 0 THEN Refused(s, o)
                        ELSE Ok([Move(s, h, op.l, FALSE) EXCEPT !.tabs[t].rows[At(s, h, op.l)] = op.s, !.ph = op.s], o, TRUE)
    [] op.op = "norm" ->
         IF NY(s) = 0 \/ N(s, h) = 0 THEN Ok(s, o, TRUE)
         ELSE IF o.err # 0 \/ Len(o.d) < h \/ Len(o.d[h].rows) # N(s, h) THEN Res(FALSE, s, "normalised")
         ELSE LET r == Rows(s, h) q == o.d[h].rows
                  w == [s EXCEPT !.tabs[t].rows = [i \in 1..Len(@) |-> IF \E k \in 1..Len(a.act) : a.act[k] = i THEN q[CHOOSE k \in 1..Len(a.act) : a.act[k] = i] ELSE @[i]],
                                 !.arrs[h].loc = a.act[N(s, h)], !.ph = q[Len(q)]]
              IN Ok(w, o, \A i \in 1..Len(r) : Norm(q[i], r[i]))
    [] op.op = "addx" -> IF XIdx(s, h, op.n) > 0 THEN Refused(s, o)
                         ELSE Ok([s EXCEPT !.tabs[t].ext = Append(@, [n |-> op.n, ty |-> "void", front |-> op.back = 0, v |-> << >>])], o, TRUE)
    [] op.op = "setx" ->
         LET p == XIdx(s, h, op.n) IN
         IF p = 0 THEN Refused(s, o)
         ELSE LET q == Assign(s, h, s.tabs[t].ext[p], op.kind, op.ty, op.v)
              IN IF q[1] THEN Ok([s EXCEPT !.tabs[t].ext[p] = q[2]], o, TRUE) ELSE Refused(s, o)
    [] op.op = "setc" ->
         LET c == IF op.sp = 1 THEN 2 + (CHOOSE k \in 1..NY(s) : s.sp[k] = op.n) ELSE CHOOSE k \in 1..2 : s.names[k] = op.n IN
         IF Len(op.v) # N(s, h) THEN Refused(s, o)
         ELSE Ok([s EXCEPT !.tabs[t].rows = [i \in 1..Len(@) |-> IF \E k \in 1..Len(a.act) : a.act[k] = i
                                                                 THEN [@[i] EXCEPT ![c] = op.v[CHOOSE k \in 1..Len(a.act) : a.act[k] = i]] ELSE @[i]]], o, TRUE)
    [] op.op = "aux" ->
         IF At(s, h, op.l) = 0 THEN Refused(s, o)
         ELSE LET w == Move(s, h, op.l, TRUE) e == s.tabs[t].ext IN
              Ok(w, o, /\ Len(o.aux) = Len(e)
                       /\ {o.aux[i] : i \in 1..Len(o.aux)} = {[n |-> e[k].n, ty |-> e[k].ty, v |-> IF e[k].ty = "void" THEN << >> ELSE <<e[k].v[At(s, h, op.l)]>>] : k \in 1..Len(e)})
    [] op.op = "setaux" ->
         IF At(s, h, op.l) = 0 THEN Refused(s, o)
         ELSE LET w == Move(s, h, op.l, FALSE) q == SetAux(w, h, At(s, h, op.l), op.x)
              IN IF q[1] THEN Ok(q[2], o, TRUE) ELSE IF Len(op.x) > 1 THEN Lost(s, o) ELSE Refused(w, o)
    [] op.op = "append" ->
         IF ~CanResize(s, h) THEN Refused(s, o)
         ELSE LET w == Resize(s, h, N(s, h) + 1) i == N(s, h) + 1 IN
              IF Len(op.s) # 2 + NY(s) THEN Refused(Resize(s, h, N(s, h)), o)
              ELSE LET w2 == [w EXCEPT !.tabs[t].rows[i] = op.s, !.arrs[h].loc = i, !.ph = op.s]
                       q == SetAux(w2, h, i, op.x)
                   IN IF q[1] THEN Ok(q[2], o, TRUE) ELSE IF Len(op.x) > 1 THEN Lost(s, o) ELSE Refused([Resize(s, h, N(s, h)) EXCEPT !.ph = op.s], o)
    [] op.op = "meta" -> Ok([s EXCEPT !.arrs[h].meta = op.meta], o, TRUE)
    [] op.op = "info" -> Ok(s, o, o.ret = <<1>>)
    [] op.op = "save" ->
         LET i == File(s, op.f, op.name) IN
         IF ~Ident(s, h) \/ op.name = "" \/ (i > 0 /\ op.over = 0) THEN Refused(s, o)
         ELSE IF N(s, h) = 1 /\ Blank(s, h, 0) THEN Res(TRUE, [s EXCEPT !.lost = TRUE], "unspecified")
         ELSE LET snap == [f |-> op.f, name |-> op.name, sub |-> Sub(op.sub), shape |-> a.shape, tab |-> s.tabs[t], meta |-> a.meta]
                  w == [s EXCEPT !.fs = IF i = 0 THEN Append(@, snap) ELSE [@ EXCEPT ![i] = snap]]
              IN Ok(IF N(s, h) = 1 THEN Move(w, h, 0, TRUE) ELSE w, o, TRUE)
    [] op.op = "restore" ->
         LET i == File(s, op.f, op.name) IN
         \* restoring into slices is not exercised (the driver refuses)
         IF i = 0 \/ op.name = "" \/ a.part THEN Refused(s, o)
         ELSE LET f == s.fs[i] n == Len(f.tab.rows) IN
              IF f.sub # Sub(op.sub) THEN Refused(s, o)
              ELSE IF Len(f.shape) = 1 /\ ~CanResize(s, h) THEN Refused(s, o)
              ELSE IF Len(f.shape) # 1 /\ n # N(s, h) /\ (a.sl \/ Shared(s, h)) THEN Refused(s, o)
              ELSE LET rs == IF Len(f.shape) = 1 \/ n # N(s, h) THEN [Resized(s, h, n) EXCEPT !.arrs[h].shape = f.shape] ELSE [s EXCEPT !.arrs[h].shape = f.shape]
                       one == IF n = 1 /\ h <= Len(o.d) /\ Len(o.d[h].rows) = 1 THEN o.d[h].rows[1] ELSE << >>
                       rows == IF n = 1 THEN <<one>> ELSE f.tab.rows
                       w == [rs EXCEPT !.tabs[t] = [rows |-> rows, ext |-> IF n = 0 THEN [k \in 1..Len(f.tab.ext) |-> [f.tab.ext[k] EXCEPT !.ty = "void", !.v = << >>]] ELSE f.tab.ext], !.arrs[h].meta = f.meta,
                                       !.ph = IF n = 1 THEN one ELSE @]
                   IN Ok(w, o, o.ret = <<1>> /\ (n = 1 => one # << >> /\ LET x == f.tab.rows[1]
                      \* single states are kept as temperature, pressure and normalised composition
                      IN Norm(one, IF NY(s) > 0 /\ Sum(YS(x)) # 1000 THEN [x EXCEPT ![2] = one[2]] ELSE x)))
    [] op.op = "csv" ->
         IF \/ ~Ident(s, h) \/ Len(a.shape) # 1 \/ op.basis = "bad" \/ VoidIn(s, h) \/ MultiIn(s, h) \/ (op.f \in s.csv /\ op.over = 0)
         THEN Refused(s, o)
         ELSE IF AnyBlank(s, h) THEN Res(TRUE, [s EXCEPT !.lost = TRUE], "unspecified")
         ELSE LET w0 == [s EXCEPT !.csv = @ \cup {op.f}]
                  w == IF N(s, h) > 0 THEN Move(w0, h, N(s, h) - 1, TRUE) ELSE w0
              IN Ok(w, o, CsvOk(s, h, op.basis \in {"X", "mole"}, o))
    [] OTHER -> Res(FALSE, s, "unknown operation")

\* every location has exactly one state and one entry of every component, whatever route it is reached by
Inv(s) == /\ \A k \in 1..Len(s.tabs) : \A x \in {s.tabs[k].ext[i] : i \in 1..Len(s.tabs[k].ext)} : x.ty = "void" \/ Len(x.v) = Len(s.tabs[k].rows)
          /\ \A h \in 1..Len(s.arrs) : s.arrs[h].live =>
                /\ \A i \in 1..N(s, h) : s.arrs[h].act[i] \in 1..ND(s, h)
                /\ \A i, j \in 1..N(s, h) : i # j => s.arrs[h].act[i] # s.arrs[h].act[j]
                /\ s.arrs[h].loc \in 0..ND(s, h)

\* -- exploration: arrays and slices over one small table -----------------------------------------------------------------
S0 == <<1, 1>>
Cfg0 == [start |-> S0, names |-> <<"T", "D">>, sp |-> << >>, w |-> << >>]
New(s, n) == [s EXCEPT !.tabs = Append(@, [rows |-> [i \in 1..n |-> s.ph], ext |-> <<[n |-> "x", ty |-> "i", front |-> FALSE, v |-> [i \in 1..n |-> ToString(i)]]>>]),
                       !.arrs = Append(@, [tab |-> 1, act |-> [i \in 1..n |-> i], loc |-> 0, shape |-> <<n>>, meta |-> << >>, live |-> TRUE, sl |-> FALSE])]
Init == st = New(InitSt(Cfg0), 2)
Live == {h \in 1..Len(st.arrs) : st.arrs[h].live}
Next == \E h \in Live :
          \/ \E q \in {<<1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>} : /\ Len(st.arrs) < 4 /\ \A i \in 1..Len(q) : q[i] <= N(st, h)
                /\ st' = [st EXCEPT !.arrs = Append(@, [tab |-> 1, act |-> [i \in 1..Len(q) |-> st.arrs[h].act[q[i]]], loc |-> 0, shape |-> <<Len(q)>>, meta |-> << >>, live |-> TRUE, sl |-> TRUE])]
          \/ Cardinality(Live) > 1 /\ st' = [st EXCEPT !.arrs[h].live = FALSE]
          \/ \E n \in 0..3 : CanResize(st, h) /\ st' = Resize(st, h, n)
          \/ \E l \in 1..N(st, h), T \in 1..2 : st' = [PutRow(st, h, l, <<T, 1>>) EXCEPT !.ph = <<T, 1>>, !.arrs[h].loc = st.arrs[h].act[l]]
          \/ \E l \in 0..(N(st, h) - 1) : st' = Move(st, h, l, TRUE)
MCBound == TLCGet("level") <= 5
MCInv == /\ Inv(st)
         \* a slice and the array it was taken from agree on what every common location holds
         /\ \A g, h \in Live : \A i \in 1..N(st, g), j \in 1..N(st, h) : st.arrs[g].act[i] = st.arrs[h].act[j] => Rows(st, g)[i] = Rows(st, h)[j]
         /\ \A h \in Live : \A l \in 0..(N(st, h) - 1) : Move(st, h, l, TRUE).ph = Rows(st, h)[l + 1]
         \* resizing keeps what is there
         /\ \A h \in Live : \A n \in 0..3 : CanResize(st, h) => LET w == Resize(st, h, n) IN
               \A i \in 1..n : i <= N(st, h) => Rows(w, h)[i] = Rows(st, h)[i] /\ w.tabs[1].ext[1].v[i] = Slice(st, h, st.tabs[1].ext[1]).v[i]
===============================================================================
