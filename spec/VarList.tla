------------------------------- MODULE VarList ------------------------------
(* Variable lists: sequence operations, and arithmetic acting point by point. *)
(* Numbers are kept in units of 1/S so that halves stay exact.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NL,        \* number of list slots
          Shapes,    \* points of each box
          Inactive,  \* boxes that are switched off
          MaxLen, MaxHist, Mode, Groups, Coefs, InitLists, PushVars
VARIABLES L, data, hist
state == <<L, data>>
vars == <<L, data, hist>>
S == 64
ShapesA == <<2, 1>>
ShapesB == <<3, 2, 4>>
CoefA == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<3, 1>>, <<1, 2>>}
CoefC == {<<0, 1>>, <<-3, 1>>}
CoefB == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 1>>, <<1, 2>>}
(* registered variables: a, b scalars, w a vector, o a scalar without storage *)
Var == 0..5
First == 0 :> 0 @@ 1 :> 1 @@ 2 :> 2 @@ 3 :> 2 @@ 4 :> 2 @@ 5 :> 5
NComp == 0 :> 1 @@ 1 :> 1 @@ 2 :> 3 @@ 3 :> 3 @@ 4 :> 3 @@ 5 :> 1
OffVar == 5
Fam(i) == [k \in 1..NComp[i] |-> i + k - 1]
Boxes == 1..Len(Shapes)
Data0 == [b \in Boxes |-> [v \in Var |-> [p \in 1..Shapes[b] |-> IF v = OffVar THEN 0 ELSE S * (100 * b + 10 * v + p)]]]
Nil == [on |-> FALSE, s |-> <<>>, t |-> 0]
Mk(s, t) == [on |-> TRUE, s |-> s, t |-> t]
Lists == 1..NL
On(k) == L[k].on
Live == Len(hist) < MaxHist
Dump(l, d) == [l |-> [k \in Lists |-> l[k]], d |-> d]
Keep(h) == IF Mode = "edges" THEN <<>> ELSE h
Log(op, args) == hist' = Append(Keep(hist), [op |-> op, args |-> args, st |-> [l |-> L', d |-> IF data' = data THEN <<>> ELSE data']])
OnlyL == UNCHANGED data
OnlyD == UNCHANGED L
SetL(k, s) == L' = [L EXCEPT ![k].s = s]
(* ---- sequence operations *)
Alloc(k) == Live /\ ~On(k) /\ L' = [L EXCEPT ![k] = Mk(<<>>, 0)] /\ OnlyL /\ Log("vlalloc", <<k>>)
Free(k) == Live /\ On(k) /\ L' = [L EXCEPT ![k] = Nil] /\ OnlyL /\ Log("vlfree", <<k>>)
PushOne(k, v) == Live /\ On(k) /\ SetL(k, Append(L[k].s, v)) /\ OnlyL /\ Log("vlpushone", <<k, v>>)
Push(k, v) == Live /\ On(k) /\ First[v] = v /\ SetL(k, L[k].s \o Fam(v)) /\ OnlyL /\ Log("vlpush", <<k, v>>)
PushList(k, m) == Live /\ On(k) /\ On(m) /\ SetL(k, L[k].s \o L[m].s) /\ OnlyL /\ Log("vlpushvl", <<k, m>>)
DropFirst(s, v) == IF \E i \in 1..Len(s) : s[i] = v
  THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = v /\ \A j \in 1..(i-1) : s[j] # v IN SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
  ELSE s
RECURSIVE DropAll(_, _)
DropAll(s, vs) == IF vs = <<>> THEN s ELSE DropAll(DropFirst(s, Head(vs)), Tail(vs))
DropOne(k, v) == Live /\ On(k) /\ SetL(k, DropFirst(L[k].s, v)) /\ OnlyL /\ Log("vldropone", <<k, v>>)
Drop(k, v) == Live /\ On(k) /\ First[v] = v /\ SetL(k, DropAll(L[k].s, Fam(v))) /\ OnlyL /\ Log("vldrop", <<k, v>>)
DropN(k, n) == Live /\ On(k) /\ LET m == Len(L[k].s) IN
  SetL(k, IF n <= 0 THEN L[k].s ELSE IF n >= m THEN <<>> ELSE SubSeq(L[k].s, 1, m - n)) /\ OnlyL /\ Log("vldropn", <<k, n>>)
Duplicate(k, m) == Live /\ On(k) /\ ~On(m) /\ L' = [L EXCEPT ![m] = L[k]] /\ OnlyL /\ Log("vlduplicate", <<k, m>>)
(* ---- arithmetic *)
Active == Boxes \ Inactive
Stored(s, n) == \A i \in 1..n : s[i] # OffVar
Upd(d, v, F(_, _)) == [b \in Boxes |-> IF b \in Active THEN [d[b] EXCEPT ![v] = [p \in 1..Shapes[b] |-> F(b, p)]] ELSE d[b]]
RECURSIVE FoldCopy(_, _, _, _)
FoldCopy(d, r, a, i) == IF i > Len(r) THEN d ELSE FoldCopy(Upd(d, r[i], LAMBDA b, p : d[b][a[i]][p]), r, a, i + 1)
RECURSIVE FoldConst(_, _, _, _)
FoldConst(d, r, c, i) == IF i > Len(r) THEN d ELSE FoldConst(Upd(d, r[i], LAMBDA b, p : c), r, c, i + 1)
RECURSIVE FoldSwap(_, _, _, _)
FoldSwap(d, r, a, i) == IF i > Len(r) THEN d
  ELSE FoldSwap(LET e == Upd(d, r[i], LAMBDA b, p : d[b][a[i]][p]) IN Upd(e, a[i], LAMBDA b, p : d[b][r[i]][p]), r, a, i + 1)
Mul(c, x) == (c[1] * x) \div c[2]
(* an operand with coefficient zero is not looked at *)
Lin(d, ca, va, cb, vb, b, p) == (IF ca[1] = 0 THEN 0 ELSE Mul(ca, d[b][va][p])) + (IF cb[1] = 0 THEN 0 ELSE Mul(cb, d[b][vb][p]))
RECURSIVE FoldLin(_, _, _, _, _, _, _)
FoldLin(d, r, ca, a, cb, a2, i) == IF i > Len(r) THEN d
  ELSE FoldLin(Upd(d, r[i], LAMBDA b, p : Lin(d, ca, IF ca[1] = 0 THEN r[i] ELSE a[i], cb, IF cb[1] = 0 THEN r[i] ELSE a2[i], b, p)), r, ca, a, cb, a2, i + 1)
Half == <<1, 2>>
One == <<1, 1>>
Minus == <<-1, 1>>
LinT(ca, ta, cb, tb) == (IF ca[1] = 0 THEN 0 ELSE Mul(ca, ta)) + (IF cb[1] = 0 THEN 0 ELSE Mul(cb, tb))
Target(k) == On(k) /\ Stored(L[k].s, Len(L[k].s))
Operand(k, m) == On(m) /\ Len(L[m].s) >= Len(L[k].s) /\ Stored(L[m].s, Len(L[k].s))
SetTime(k, t) == L' = [L EXCEPT ![k].t = t]
Even(d) == \A b \in Boxes : \A v \in Var : \A p \in 1..Shapes[b] : d[b][v][p] % 2 = 0
Small(d) == \A b \in Boxes : \A v \in Var : \A p \in 1..Shapes[b] : d[b][v][p] < 67108864 /\ d[b][v][p] > -67108864
TimesOK == \A k \in Lists : L[k].t % 2 = 0 /\ L[k].t < 67108864 /\ L[k].t > -67108864
SetConst(k, c) == Live /\ Target(k) /\ data' = FoldConst(data, L[k].s, c * S, 1) /\ OnlyD /\ Log("vlsetconstant", <<k, c>>)
Copy(k, m) == Live /\ Target(k) /\ Operand(k, m) /\ data' = FoldCopy(data, L[k].s, L[m].s, 1) /\ SetTime(k, L[m].t) /\ Log("vlcopy", <<k, m>>)
Swap(k, m) == Live /\ Target(k) /\ Operand(k, m) /\ data' = FoldSwap(data, L[k].s, L[m].s, 1)
  /\ L' = [L EXCEPT ![k].t = L[m].t, ![m].t = L[k].t] /\ Log("vlswap", <<k, m>>)
Average(k, m, n) == Live /\ Target(k) /\ Operand(k, m) /\ Operand(k, n) /\ Even(data) /\ TimesOK
  /\ data' = FoldLin(data, L[k].s, Half, L[m].s, Half, L[n].s, 1) /\ SetTime(k, LinT(Half, L[m].t, Half, L[n].t)) /\ Log("vlaverage", <<k, m, n>>)
Subtract(k, m, n) == Live /\ Target(k) /\ Operand(k, m) /\ Operand(k, n)
  /\ data' = FoldLin(data, L[k].s, One, L[m].s, Minus, L[n].s, 1) /\ SetTime(k, L[m].t - L[n].t) /\ Log("vlsubtract", <<k, m, n>>)
Add(k, ca, m, cb, n) == Live /\ Target(k) /\ (ca[1] = 0 \/ Operand(k, m)) /\ (cb[1] = 0 \/ Operand(k, n)) /\ Even(data) /\ TimesOK
  /\ data' = FoldLin(data, L[k].s, ca, L[m].s, cb, L[n].s, 1)
  /\ SetTime(k, LinT(ca, L[m].t, cb, L[n].t)) /\ Log("vladd", <<k, ca, m, cb, n>>)
AddTo(k, ca, m) == Live /\ Target(k) /\ (ca[1] = 0 \/ Operand(k, m)) /\ Even(data) /\ TimesOK
  /\ data' = FoldLin(data, L[k].s, One, L[k].s, ca, L[m].s, 1) /\ SetTime(k, LinT(One, L[k].t, ca, L[m].t)) /\ Log("vladdto", <<k, ca, m>>)
SetT(k, t) == Live /\ On(k) /\ SetTime(k, t * S) /\ OnlyL /\ Log("vltime", <<k, t>>)
(* one variable at a time *)
Storable == Var \ {OffVar}
VarCopy(v, u) == Live /\ data' = FoldCopy(data, <<v>>, <<u>>, 1) /\ OnlyD /\ Log("varcopy", <<v, u>>)
VarSwap(v, u) == Live /\ data' = FoldSwap(data, <<v>>, <<u>>, 1) /\ OnlyD /\ Log("varswap", <<v, u>>)
VarAdd(r, ca, a, cb, b) == Live /\ Even(data) /\ data' = FoldLin(data, <<r>>, ca, <<a>>, cb, <<b>>, 1) /\ OnlyD /\ Log("varadd", <<r, ca, a, cb, b>>)

ListsA == { [k \in Lists |-> Nil] }
ListsB == { [k \in Lists |-> CASE k = 1 -> Mk(<<0, 1>>, 2 * S) [] k = 2 -> Mk(<<1, 0>>, 6 * S) [] k = 3 -> Mk(<<2, 3, 4>>, 10 * S)
                              [] k = 4 -> Mk(<<5, 5, 5>>, 14 * S) [] k = 5 -> Mk(<<>>, -4 * S) [] OTHER -> Mk(<<0, 0>>, 18 * S)] }
ListsC == { [k \in Lists |-> CASE k = 1 -> Mk(<<0, 1>>, 2 * S) [] k = 2 -> Mk(<<1, 0, 5>>, 6 * S) [] OTHER -> Mk(<<2, 3, 4>>, 10 * S)] }
Init == L \in InitLists /\ data = Data0 /\ hist = <<[op |-> "init", args |-> [b \in {x - 1 : x \in Inactive} |-> b], st |-> Dump(L, data)]>>
G(g) == g \in Groups
Pick(X) == IF Mode = "random" THEN {RandomElement(X)} ELSE X
ListOp(k) == Alloc(k) \/ Free(k) \/ (\E v \in Pick(PushVars) : PushOne(k, v) \/ Push(k, v) \/ DropOne(k, v) \/ Drop(k, v))
  \/ (\E m \in Pick(Lists) : PushList(k, m) \/ Duplicate(k, m)) \/ (\E n \in Pick(-1..3) : DropN(k, n))
ArithOp(k) == (\E c \in Pick({0, -7}) : SetConst(k, c)) \/ (\E t \in Pick({0, 4}) : SetT(k, t))
  \/ \E m \in Pick(Lists) : Copy(k, m) \/ Swap(k, m) \/ (\E ca \in Pick(Coefs) : AddTo(k, ca, m))
     \/ \E n \in Pick(Lists) : Average(k, m, n) \/ Subtract(k, m, n) \/ \E ca \in Pick(Coefs), cb \in Pick(Coefs) : Add(k, ca, m, cb, n)
VarOp == \E v \in Pick(Storable), u \in Pick(Storable) : VarCopy(v, u) \/ VarSwap(v, u)
  \/ \E r \in Pick(Storable), ca \in Pick(Coefs), cb \in Pick(Coefs) : VarAdd(r, ca, v, cb, u)
Fits == Small(data') /\ \A k \in Lists : Len(L'[k].s) <= MaxLen
Next == /\ \/ G("list") /\ \E k \in Pick(Lists) : ListOp(k)
           \/ G("arith") /\ \E k \in Pick(Lists) : ArithOp(k)
           \/ G("var") /\ VarOp
        /\ Fits
        /\ CASE Mode = "edges" -> PrintT("@@" \o ToJson([f |-> L, e |-> hist'[Len(hist')], t |-> L']))
             [] Mode \in {"random", "paths"} -> (Len(hist') = MaxHist => PrintT("@@" \o ToJson(hist')))
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Last == hist'[Len(hist')]
ListOps == {"vlalloc","vlfree","vlpushone","vlpush","vlpushvl","vldropone","vldrop","vldropn","vlduplicate","vltime"}
SurgeryLeavesData == [][ Last.op \in ListOps => data' = data ]_vars
ArithLeavesLists == [][ Last.op \notin ListOps => \A k \in Lists : L'[k].s = L[k].s ]_vars
(* an operation changes at most its target (a swap: both operands) *)
OnlyTarget == [][ \A k \in Lists : (L'[k] # L[k]) => k \in {Last.args[1]} \/ (Last.op \in {"vlswap", "vlduplicate"} /\ k = Last.args[2]) ]_vars
InactiveUntouched == [][ \A b \in Inactive : data'[b] = data[b] ]_vars
OnlyTargetData == [][ Last.op \in {"vlsetconstant","vlcopy","vlaverage","vlsubtract","vladd","vladdto"} =>
   \A b \in Boxes : \A v \in Var : data'[b][v] # data[b][v] => \E i \in 1..Len(L[Last.args[1]].s) : L[Last.args[1]].s[i] = v ]_vars
=============================================================================
