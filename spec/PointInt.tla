------------------------------- MODULE PointInt ------------------------------
(* Lists of integers, lists of boxes chosen by attribute, and lists of grid   *)
(* points: the operations and the loops over them.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NI, NP,       \* numbers of integer lists and of point lists
          NB,           \* boxes
          Ints, Points, \* entries of integer lists, points of a box
          MaxLen, MaxHist, Mode, Groups
VARIABLES il,           \* integer lists
          pl,           \* point lists: on, pt[b] (points in box b-1), bl (boxes that got points, in order)
          off, at,      \* boxes: switched off, value of attribute 3
          hist
vars == <<il, pl, off, at, hist>>
state == <<il, pl, off, at>>
Boxes == 1..NB
NoPL == [on |-> FALSE, pt |-> [b \in Boxes |-> <<>>], bl |-> <<>>]
NewPL == [NoPL EXCEPT !.on = TRUE]
Keep(h) == IF Mode = "edges" THEN <<>> ELSE h
Live == Len(hist) < MaxHist
View == [il |-> il', pl |-> pl', off |-> off']
Log(op, args, ret) == hist' = Append(Keep(hist), [op |-> op, args |-> args, ret |-> ret] @@ View)
(* ---- sequences *)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
First(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i]) THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j]) ELSE 0
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Drop(s, x) == LET i == First(s, LAMBDA y : y = x) IN IF i = 0 THEN s ELSE DropAt(s, i)
DropAll(s, u) == FoldLeft(Drop, s, u)
Add(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
Union(s, u) == FoldLeft(Add, s, u)
(* ---- integer lists *)
RestI == UNCHANGED <<pl, off, at>>
Set(k, s) == Len(s) <= MaxLen /\ il' = [il EXCEPT ![k] = s] /\ RestI
Push(k, x) == Live /\ Set(k, Append(il[k], x)) /\ Log("ipush", <<k, x>>, "ok")
UnionPush(k, x) == Live /\ Set(k, Add(il[k], x)) /\ Log("iunionpush", <<k, x>>, "ok")
PushList(k, m) == Live /\ Set(k, il[k] \o il[m]) /\ Log("ipushlist", <<k, m>>, "ok")
UnionList(k, m) == Live /\ Set(k, Union(il[k], il[m])) /\ Log("iunionlist", <<k, m>>, "ok")
DropIndex(k, i) == Live /\ Set(k, IF i >= 0 /\ i < Len(il[k]) THEN DropAt(il[k], i + 1) ELSE il[k]) /\ Log("idropindex", <<k, i>>, "ok")
DropOne(k, x) == Live /\ Set(k, Drop(il[k], x)) /\ Log("idrop", <<k, x>>, "ok")
DropLast(k, n) == Live /\ Set(k, IF n <= 0 THEN il[k] ELSE IF n >= Len(il[k]) THEN <<>> ELSE SubSeq(il[k], 1, Len(il[k]) - n)) /\ Log("idroplastn", <<k, n>>, "ok")
DropList(k, m) == Live /\ Set(k, DropAll(il[k], il[m])) /\ Log("idroplist", <<k, m>>, "ok")
Clear(k) == Live /\ Set(k, <<>>) /\ Log("iclear", <<k>>, "ok")
Duplicate(k, m) == Live /\ k # m /\ Set(m, il[k]) /\ Log("iduplicate", <<k, m>>, "ok")
Same == UNCHANGED state
In(k, x) == Live /\ Same /\ Log("iin", <<k, x>>, IF Has(il[k], x) THEN "1" ELSE "0")
Index(k, x) == Live /\ Same /\ Log("iindex", <<k, x>>, ToString(First(il[k], LAMBDA y : y = x) - 1))
IndexProp(k, i0, x) == Live /\ Same /\ LET d == IF i0 < 0 THEN 0 ELSE i0  t == SubSeq(il[k], d + 1, Len(il[k]))  j == First(t, LAMBDA y : y >= x) IN
  Log("iindexprop", <<k, i0, x>>, ToString(IF j = 0 THEN -1 ELSE d + j - 1))
(* ---- lists of boxes *)
Ident == [b \in Boxes |-> b - 1]
WithAttr(s, v, yes) == SelectSeq(s, LAMBDA b : (at[b + 1] = v) = yes)
ActiveOf == SelectSeq(Ident, LAMBDA b : ~off[b + 1])
BlAttr(k, v, yes) == Live /\ Set(k, il[k] \o WithAttr(ActiveOf, v, yes)) /\ Log(IF yes THEN "blattr" ELSE "blnotattr", <<k, v>>, ToString(Len(il'[k])))
Bl2Attr(k, m, v, yes) == Live /\ k # m /\ (\A i \in 1..Len(il[k]) : il[k][i] \in 0..(NB-1)) /\ Set(m, il[m] \o WithAttr(il[k], v, yes))
  /\ Log(IF yes THEN "bl2attr" ELSE "bl2notattr", <<k, v, m>>, ToString(Len(il'[m])))
Attr(b, v) == Live /\ at' = [at EXCEPT ![b] = v] /\ UNCHANGED <<il, pl, off>> /\ Log("setattr", <<b - 1, v>>, "ok")
Switch(b) == Live /\ off' = [off EXCEPT ![b] = ~@] /\ UNCHANGED <<il, pl, at>> /\ Log("setoff", <<b - 1, IF off[b] THEN 0 ELSE 1>>, "ok")
(* ---- point lists *)
RestP == UNCHANGED <<il, off, at>>
Alloc(k) == Live /\ ~pl[k].on /\ pl' = [pl EXCEPT ![k] = NewPL] /\ RestP /\ Log("palloc", <<k>>, "ok")
Free(k) == Live /\ pl[k].on /\ pl' = [pl EXCEPT ![k] = NoPL] /\ RestP /\ Log("pfree", <<k>>, "ok")
AddPoint(k, b, x) == Live /\ pl[k].on /\ Len(pl[k].pt[b]) < MaxLen
  /\ pl' = [pl EXCEPT ![k].pt[b] = Append(@, x), ![k].bl = Add(@, b - 1)] /\ RestP /\ Log("padd", <<k, b - 1, x>>, "ok")
DropPoint(k, b, x) == Live /\ pl[k].on /\ pl' = [pl EXCEPT ![k].pt[b] = Drop(@, x)] /\ RestP /\ Log("pdrop", <<k, b - 1, x>>, "ok")
DropPoints(k, b, m) == Live /\ pl[k].on /\ pl' = [pl EXCEPT ![k].pt[b] = DropAll(@, il[m])] /\ RestP /\ Log("pdroplist", <<k, b - 1, m>>, "ok")
DupPL(k, m) == Live /\ pl[k].on /\ ~pl[m].on /\ pl' = [pl EXCEPT ![m] = pl[k]] /\ RestP /\ Log("pduplicate", <<k, m>>, "ok")
(* the loops over a list: every stored point of every box that is switched on *)
(* the points of one box with a step by step visit are observed after every operation *)
(* many entries at once: the lists have no limit on their lengths *)
Many(n) == [i \in 1..n |-> (i - 1) % 6]
Sizes == {1, 3, 7, 17, 40, 130}
PushMany(k, n) == Live /\ Set(k, il[k] \o Many(n)) /\ Log("ipushmany", <<k, n>>, "ok")
AddMany(k, b, n) == Live /\ pl[k].on /\ Len(pl[k].pt[b]) + n <= MaxLen
  /\ pl' = [pl EXCEPT ![k].pt[b] = @ \o Many(n), ![k].bl = Add(@, b - 1)] /\ RestP /\ Log("paddmany", <<k, b - 1, n>>, "ok")
Init == /\ il = [k \in 1..NI |-> <<>>] /\ pl = [k \in 1..NP |-> NoPL]
        /\ off = [b \in Boxes |-> FALSE] /\ at = [b \in Boxes |-> 0] /\ hist = <<>>
G(x) == x \in Groups
Pick(X) == IF Mode = "random" /\ X # {} THEN {RandomElement(X)} ELSE X
OpI(k) ==
  \/ G("many") /\ (\E n \in Pick(Sizes) : PushMany(k, n))
  \/ G("push") /\ (\E x \in Pick(Ints) : Push(k, x) \/ UnionPush(k, x))
  \/ G("list") /\ (\E m \in Pick(1..NI) : PushList(k, m) \/ UnionList(k, m) \/ DropList(k, m) \/ Duplicate(k, m))
  \/ G("drop") /\ ((\E i \in Pick(-1..MaxLen) : DropIndex(k, i)) \/ (\E x \in Pick(Ints \cup {99}) : DropOne(k, x)) \/ (\E n \in Pick(-1..(MaxLen + 1)) : DropLast(k, n)) \/ Clear(k))
  \/ G("ask") /\ (\E x \in Pick(Ints \cup {99}) : In(k, x) \/ Index(k, x) \/ \E i0 \in Pick(-1..MaxLen) : IndexProp(k, i0, x))
  \/ G("attr") /\ (\E v \in Pick({0, 1}), y \in Pick(BOOLEAN) : BlAttr(k, v, y) \/ \E m \in Pick(1..NI) : Bl2Attr(k, m, v, y))
OpP(k) ==
  \/ G("many") /\ (\E b \in Pick(Boxes), n \in Pick(Sizes) : AddMany(k, b, n))
  \/ G("alloc") /\ (Alloc(k) \/ Free(k) \/ \E m \in Pick(1..NP) : DupPL(k, m))
  \/ G("point") /\ (\E b \in Pick(Boxes), x \in Pick(Points) : AddPoint(k, b, x) \/ DropPoint(k, b, x))
  \/ G("points") /\ (\E b \in Pick(Boxes), m \in Pick(1..NI) : DropPoints(k, b, m))
Next == /\ \/ \E k \in Pick(1..NI) : OpI(k)
           \/ \E k \in Pick(1..NP) : OpP(k)
           \/ G("attr") /\ \E b \in Pick(Boxes), v \in Pick({0, 1}) : Attr(b, v)
           \/ G("off") /\ \E b \in Pick(Boxes) : Switch(b)
        /\ CASE Mode = "edges" -> PrintT("@@" \o ToJson([f |-> state, e |-> hist'[Len(hist')], t |-> <<il', pl', off', at'>>]))
             [] Mode = "random" -> (Len(hist') = MaxHist => PrintT("@@" \o ToJson(hist')))
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_vars
(* ---- properties *)
BlistRight == \A k \in 1..NP : LET p == pl[k] IN
  /\ \A i, j \in 1..Len(p.bl) : i # j => p.bl[i] # p.bl[j]
  /\ \A b \in Boxes : p.pt[b] # <<>> => Has(p.bl, b - 1)
Lst == hist'[Len(hist')]
(* union keeps a list free of duplicates *)
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
UnionRight == [][ Lst.op \in {"iunionlist", "iunionpush"} => LET k == Lst.args[1] IN
   /\ (NoDup(il[k]) => NoDup(il'[k])) /\ IsPrefix(il[k], il'[k]) ]_vars
OthersKept == [][ (\A k \in 1..NI : il'[k] # il[k] => k \in {Lst.args[1], Lst.args[Len(Lst.args)]}) /\ (\A k \in 1..NP : pl'[k] # pl[k] => k \in {Lst.args[1], Lst.args[Len(Lst.args)]}) ]_vars
==============================================================================
