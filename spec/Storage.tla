------------------------------- MODULE Storage ------------------------------
(* Storage of variables on the boxes of one or two grids, copies of grids.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NG,          \* number of grid slots
          Shapes,      \* points of each box
          Fams,        \* number of components of each variable declared at the start
          MaxVars, Vals, MaxHist, Mode, Groups
VARIABLES nv,          \* variables declared so far
          fam,         \* fam[i]: <<first index, number of components>> of variable i-1
          g,           \* grids: on, n (variables it has room for), st (settings), box[b] = [off, v]
          hist
vars == <<nv, fam, g, hist>>
state == <<nv, fam, g>>
ShapesA == <<1, 1>>
ShapesB == <<2, 1, 3>>
FamsA == <<1, 2>>
FamsB == <<1>>
FamsC == <<1, 3, 1, 2>>
Off == <<>>
Boxes == 1..Len(Shapes)
Zero(b) == [p \in 1..Shapes[b] |-> 0]
RECURSIVE Fam0(_, _)
Fam0(fs, n) == IF fs = <<>> THEN <<>> ELSE [k \in 1..Head(fs) |-> <<n, Head(fs)>>] \o Fam0(Tail(fs), n + Head(fs))
NoGrid == [on |-> FALSE, n |-> 0, iter |-> 0, set |-> <<>>, box |-> <<>>]
NewGrid(n) == [on |-> TRUE, n |-> n, iter |-> 0, set |-> [b \in Boxes |-> 0],
               box |-> [b \in Boxes |-> [off |-> FALSE, v |-> [i \in 1..n |-> Off]]]]
Grids == 1..NG
On(k) == g[k].on
Room(k, i) == i + 1 <= g[k].n
First(i) == fam[i+1][1]
Comps(i) == [j \in 1..fam[i+1][2] |-> i + j - 1]           \* components from i on
Live == Len(hist) < MaxHist
Enabled(gg) == LET c(k) == IF gg[k].on THEN Cardinality({<<b, i>> \in Boxes \X (1..gg[k].n) : gg[k].box[b].v[i] # Off}) ELSE 0
               IN FoldSeq(LAMBDA x, y : x + y, 0, [k \in Grids |-> c(k)])
View(gg) == [k \in Grids |-> gg[k]]
Keep(h) == IF Mode = "edges" THEN <<>> ELSE h
Log(op, args, ret) == hist' = Append(Keep(hist), [op |-> op, args |-> args, ret |-> ret, g |-> View(g'), en |-> Enabled(g')])
SameReg == UNCHANGED <<nv, fam>>
(* ---- declarations and grids *)
Make(k) == Live /\ ~On(k) /\ g' = [g EXCEPT ![k] = NewGrid(nv)] /\ SameReg /\ Log("mkgrid", <<k>>, "ok")
Free(k) == Live /\ On(k) /\ g' = [g EXCEPT ![k] = NoGrid] /\ SameReg /\ Log("freegrid", <<k>>, "ok")
Grow(gr, n) == [gr EXCEPT !.n = n, !.box = [b \in Boxes |-> [gr.box[b] EXCEPT !.v = [i \in 1..n |-> IF i <= gr.n THEN gr.box[b].v[i] ELSE Off]]]]
AddVarTo(k, c) == Live /\ On(k) /\ nv + c <= MaxVars /\ nv' = nv + c /\ fam' = fam \o [j \in 1..c |-> <<nv, c>>]
  /\ g' = [g EXCEPT ![k] = Grow(@, nv + c)] /\ Log("addvarto", <<k, nv, c>>, "ok")
(* ---- storage of variables *)
EnableIn(gr, bs, is) == [gr EXCEPT !.box = [b \in Boxes |-> [gr.box[b] EXCEPT !.v =
   [i \in 1..gr.n |-> IF b \in bs /\ (i - 1) \in is /\ gr.box[b].v[i] = Off THEN Zero(b) ELSE gr.box[b].v[i]]]]]
DisableIn(gr, bs, is) == [gr EXCEPT !.box = [b \in Boxes |-> [gr.box[b] EXCEPT !.v =
   [i \in 1..gr.n |-> IF b \in bs /\ (i - 1) \in is THEN Off ELSE gr.box[b].v[i]]]]]
Fits(k, i) == On(k) /\ i + fam[i+1][2] <= g[k].n
Rng(s) == {s[j] : j \in 1..Len(s)}
Family(i) == Rng(Comps(First(i)))
EnableVar(k, i) == Live /\ First(i) = i /\ Fits(k, i) /\ g' = [g EXCEPT ![k] = EnableIn(@, Boxes, Family(i))] /\ SameReg /\ Log("envar", <<k, i>>, "ok")
DisableVar(k, i) == Live /\ First(i) = i /\ Fits(k, i) /\ g' = [g EXCEPT ![k] = DisableIn(@, Boxes, Family(i))] /\ SameReg /\ Log("disvar", <<k, i>>, "ok")
EnableComp(k, i) == Live /\ On(k) /\ Room(k, i) /\ g' = [g EXCEPT ![k] = EnableIn(@, Boxes, {i})] /\ SameReg /\ Log("encomp", <<k, i>>, "ok")
DisableComp(k, i) == Live /\ On(k) /\ Room(k, i) /\ g' = [g EXCEPT ![k] = DisableIn(@, Boxes, {i})] /\ SameReg /\ Log("discomp", <<k, i>>, "ok")
EnableBox(k, b, i) == Live /\ First(i) = i /\ Fits(k, i) /\ g' = [g EXCEPT ![k] = EnableIn(@, {b}, Family(i))] /\ SameReg /\ Log("envarbox", <<k, b - 1, i>>, "ok")
DisableBox(k, b, i) == Live /\ First(i) = i /\ Fits(k, i) /\ g' = [g EXCEPT ![k] = DisableIn(@, {b}, Family(i))] /\ SameReg /\ Log("disvarbox", <<k, b - 1, i>>, "ok")
EnableList(k, l) == Live /\ On(k) /\ (\A i \in Rng(l) : Room(k, i)) /\ g' = [g EXCEPT ![k] = EnableIn(@, Boxes, Rng(l))] /\ SameReg /\ Log("enlist", <<k, l>>, "ok")
DisableList(k, l) == Live /\ On(k) /\ (\A i \in Rng(l) : Room(k, i)) /\ g' = [g EXCEPT ![k] = DisableIn(@, Boxes, Rng(l))] /\ SameReg /\ Log("dislist", <<k, l>>, "ok")
(* a duplicate of a list is declared on the grid of the list, and here enabled at once *)
DupEnable(k, i) == Live /\ On(k) /\ First(i) = i /\ Fits(k, i) /\ g[k].n = nv /\ nv + fam[i+1][2] <= MaxVars
  /\ LET c == fam[i+1][2] IN nv' = nv + c /\ fam' = fam \o [j \in 1..c |-> <<nv, c>>]
     /\ g' = [g EXCEPT ![k] = EnableIn(Grow(@, nv + c), Boxes, nv..(nv + c - 1))] /\ Log("dupenable", <<k, i, c, nv>>, "ok")
Write(k, b, i, p, x) == Live /\ On(k) /\ Room(k, i) /\ p \in 1..Shapes[b] /\ g[k].box[b].v[i+1] # Off /\ g[k].box[b].v[i+1][p] # x
  /\ g' = [g EXCEPT ![k].box[b].v[i+1][p] = x] /\ SameReg /\ Log("setpt", <<k, b - 1, i, p - 1, x>>, "ok")
(* ---- settings and active boxes *)
Setting(k, b, x) == Live /\ On(k) /\ g' = [g EXCEPT ![k].set[b] = x] /\ SameReg /\ Log("setset", <<k, b - 1, x>>, "ok")
SetIter(k, n) == Live /\ On(k) /\ g' = [g EXCEPT ![k].iter = n] /\ SameReg /\ Log("setiter", <<k, n>>, "ok")
Flag(k, bs, fl) == [g EXCEPT ![k].box = [b \in Boxes |-> IF b \in bs THEN [g[k].box[b] EXCEPT !.off = fl] ELSE g[k].box[b]]]
SortedSeq(X) == SetToSortSeq(X, LAMBDA x, y : x < y)
Deact(k, bs) == Live /\ On(k) /\ g' = Flag(k, bs, TRUE) /\ SameReg /\ Log("deact", <<k, [j \in 1..Cardinality(bs) |-> SortedSeq(bs)[j] - 1]>>, "ok")
Act(k, bs) == Live /\ On(k) /\ g' = Flag(k, bs, FALSE) /\ SameReg /\ Log("act", <<k, [j \in 1..Cardinality(bs) |-> SortedSeq(bs)[j] - 1]>>, "ok")
DeactAll(k) == Live /\ On(k) /\ g' = Flag(k, Boxes, TRUE) /\ SameReg /\ Log("deactall", <<k>>, "ok")
ActAll(k) == Live /\ On(k) /\ g' = Flag(k, Boxes, FALSE) /\ SameReg /\ Log("actall", <<k>>, "ok")
ActiveSeq(k) == SelectSeq([b \in Boxes |-> b], LAMBDA b : ~g[k].box[b].off)
Ith(k, i) == Live /\ On(k) /\ UNCHANGED <<nv, fam, g>>
  /\ Log("ithactive", <<k, i>>, IF i >= 0 /\ i < Len(ActiveSeq(k)) THEN ToString(ActiveSeq(k)[i+1] - 1) ELSE "-1")
(* ---- copies: everything but the data of switched off boxes; storage the target has already stays *)
CopyData(a, c, is, flags) == [c EXCEPT !.box = [b \in Boxes |-> [c.box[b] EXCEPT !.v = [i \in 1..c.n |->
    IF i \in is /\ ~flags[b] /\ a.box[b].v[i] # Off /\ c.box[b].v[i] # Off THEN a.box[b].v[i] ELSE c.box[b].v[i]]]]]
WithoutVars(a, c) == LET d == Grow(c, a.n) IN [d EXCEPT !.iter = a.iter, !.set = a.set, !.box = [b \in Boxes |-> [d.box[b] EXCEPT !.off = a.box[b].off]]]
Same(a, c) == [c EXCEPT !.box = [b \in Boxes |-> [c.box[b] EXCEPT !.v = [i \in 1..c.n |-> IF a.box[b].v[i] # Off /\ c.box[b].v[i] = Off THEN Zero(b) ELSE c.box[b].v[i]]]]]
OffFlags(a) == [b \in Boxes |-> a.box[b].off]
CopyGrid(k, m) == Live /\ k # m /\ On(k) /\ On(m) /\ g[m].n <= g[k].n
  /\ g' = [g EXCEPT ![m] = CopyData(g[k], Same(g[k], WithoutVars(g[k], g[m])), 1..g[k].n, OffFlags(g[k]))] /\ SameReg /\ Log("copygrid", <<k, m>>, "ok")
CopyWithout(k, m) == Live /\ k # m /\ On(k) /\ On(m) /\ g[m].n <= g[k].n
  /\ g' = [g EXCEPT ![m] = WithoutVars(g[k], g[m])] /\ SameReg /\ Log("copywithout", <<k, m>>, "ok")
CopyVar(k, m, i) == Live /\ k # m /\ On(k) /\ On(m) /\ Room(k, i) /\ Room(m, i)
  /\ g' = [g EXCEPT ![m] = CopyData(g[k], @, {i + 1}, OffFlags(g[m]))] /\ SameReg /\ Log("copygridvar", <<i, k, m>>, "ok")
EnableSame(k, m) == Live /\ k # m /\ On(k) /\ On(m) /\ g[m].n = g[k].n
  /\ g' = [g EXCEPT ![m] = Same(g[k], @)] /\ SameReg /\ Log("enablesame", <<k, m>>, "ok")

Init == nv = Len(Fam0(Fams, 0)) /\ fam = Fam0(Fams, 0) /\ hist = <<>>
  /\ g = [k \in Grids |-> IF k = 1 THEN NewGrid(nv) ELSE NoGrid]
G(x) == x \in Groups
Pick(X) == IF Mode = "random" /\ X # {} THEN {RandomElement(X)} ELSE X
Idx == 0..(nv - 1)
Op(k) ==
  \/ G("make") /\ (Make(k) \/ Free(k))
  \/ G("add") /\ (\E c \in Pick({1, 2}) : AddVarTo(k, c))
  \/ G("dup") /\ (\E i \in Pick(Idx) : DupEnable(k, i))
  \/ \E i \in Pick(Idx) :
       \/ G("var") /\ (EnableVar(k, i) \/ DisableVar(k, i))
       \/ G("comp") /\ (EnableComp(k, i) \/ DisableComp(k, i))
       \/ G("box") /\ (\E b \in Pick(Boxes) : EnableBox(k, b, i) \/ DisableBox(k, b, i))
       \/ G("list") /\ (\E j \in Pick(Idx) : EnableList(k, <<i, j>>) \/ DisableList(k, <<i, j>>))
       \/ G("write") /\ (\E b \in Pick(Boxes) : \E p \in Pick(1..Shapes[b]) : \E x \in Pick(Vals) : Write(k, b, i, p, x))
       \/ G("copy") /\ (\E m \in Pick(Grids) : CopyVar(k, m, i))
  \/ G("active") /\ ((\E bs \in Pick(SUBSET Boxes) : Deact(k, bs) \/ Act(k, bs)) \/ DeactAll(k) \/ ActAll(k) \/ \E i \in Pick(-1..Len(Shapes)) : Ith(k, i))
  \/ G("off1") /\ (Deact(k, {1}) \/ Act(k, {1}))
  \/ G("set") /\ (SetIter(k, 3) \/ \E b \in Pick(Boxes), x \in Pick({0, 5, 11}) : Setting(k, b, x))
  \/ G("copy") /\ (\E m \in Pick(Grids) : CopyGrid(k, m) \/ EnableSame(k, m) \/ CopyWithout(k, m))
Next == /\ \E k \in Pick(Grids) : Op(k)
        /\ CASE Mode = "edges" -> PrintT("@@" \o ToJson([f |-> <<nv, fam, g>>, e |-> hist'[Len(hist')], t |-> <<nv', fam', g'>>]))
             [] Mode = "random" -> (Len(hist') = MaxHist => PrintT("@@" \o ToJson(hist')))
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_vars
(* ---- properties *)
LastOp == hist'[Len(hist')]
Ok(k) == g[k].on /\ g'[k].on
(* only the grid an operation names last changes *)
Target == IF LastOp.op \in {"copygrid","copywithout","enablesame"} THEN LastOp.args[2] ELSE IF LastOp.op = "copygridvar" THEN LastOp.args[3] ELSE LastOp.args[1]
Isolated == [][ \A k \in Grids : g'[k] # g[k] => k = Target ]_vars
EnableKeeps == [][ LastOp.op \in {"envar","encomp","envarbox","enlist","addvarto","enablesame","dupenable"} =>
   \A k \in Grids : Ok(k) => \A b \in Boxes : \A i \in 1..g[k].n : g[k].box[b].v[i] # Off => g'[k].box[b].v[i] = g[k].box[b].v[i] ]_vars
CopyEqual == [][ LastOp.op = "copygrid" => LET a == g'[LastOp.args[1]] c == g'[LastOp.args[2]] IN
   a.iter = c.iter /\ a.set = c.set /\ \A b \in Boxes : a.box[b].off = c.box[b].off /\ (~a.box[b].off => \A i \in 1..a.n : a.box[b].v[i] # Off => c.box[b].v[i] = a.box[b].v[i]) ]_vars
=============================================================================
