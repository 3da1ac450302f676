------------------------------- MODULE VarReg -------------------------------
(* The variable registry: declarations, attributes, duplicates, lookups.      *)
EXTENDS Tensor, Json
CONSTANTS Names, Forms, Posts, MaxVars, MaxHist, Mode, Bnds, Groups
VARIABLES reg,      \* sequence of [name, ti, descr, comp, n, const, far, fall, speed, par]
          again,    \* a later run of the same process declares its variables again
          dead, hist
state == <<reg, again, dead>>
vars == <<reg, again, dead, hist>>

BndsA == {<<1, 2, 3>>}
BndsB == {<<1, 2, 3>>, <<0, 1, -1>>, <<5, 0, 7>>}
Comps == [f \in Forms |-> Components(f)]
N == Len(reg)
Index(nm) == IF \E i \in 1..N : reg[i].name = nm THEN (CHOOSE i \in 1..N : reg[i].name = nm) - 1 ELSE -1
Has(nm) == Index(nm) >= 0
Full(nm, f) == [j \in 1..Len(Comps[f]) |-> nm \o Comps[f][j].suf]
Entry(nm, f, j, d, c) == [name |-> nm \o Comps[f][j].suf, ti |-> f, descr |-> d, comp |-> j - 1, n |-> Len(Comps[f]), const |-> c,
                          far |-> 0, fall |-> 0, speed |-> 0, par |-> Comps[f][j].par]
First(i) == i - reg[i+1].comp                \* index (from 0) of component 0
Family(i) == First(i)..(First(i) + reg[i+1].n - 1)
Live == ~dead /\ Len(hist) < MaxHist
Log(op, args, ret) == hist' = Append(hist, [op |-> op, args |-> args, ret |-> ret, reg |-> reg'])
Same == UNCHANGED <<again, dead>>
Exit(op, args) == Live /\ dead' = TRUE /\ UNCHANGED <<reg, again>> /\ Log(op, args, "<exit>")

Declare(op, nm, f, c) == Live /\
  LET full == Full(nm, f) old == {j \in 1..Len(full) : Has(full[j])} IN
  \/ old = {} /\ N + Len(full) <= MaxVars /\ reg' = reg \o [j \in 1..Len(full) |-> Entry(nm, f, j, "d_" \o nm, c)]
     /\ Same /\ Log(op, <<nm, f, "d_" \o nm>>, "ok")
  \* declaring a component that exists is an error, except when a later run declares the same variables again
  \/ old # {} /\ ~again /\ "die" \in Groups /\ Exit(op, <<nm, f, "d_" \o nm>>)
  \/ old = 1..Len(full) /\ again /\ reg[Index(full[1]) + 1].comp = 0 /\ reg[Index(full[1]) + 1].ti = f
     /\ reg' = [i \in 1..N |-> IF c = 1 /\ (i - 1) \in Family(Index(full[1])) THEN [reg[i] EXCEPT !.const = 1] ELSE reg[i]]
     /\ Same /\ Log(op, <<nm, f, "d_" \o nm>>, "ok")
AddVar(nm, f) == Declare("addvar", nm, f, 0)
AddConst(nm, f) == Declare("addconst", nm, f, 1)
Again == Live /\ ~again /\ N > 0 /\ again' = TRUE /\ UNCHANGED <<reg, dead>> /\ Log("again", <<>>, "ok")
SetBound(i, b) == Live /\ i < N /\ reg' = [reg EXCEPT ![i+1].far = b[1], ![i+1].fall = b[2], ![i+1].speed = b[3]] /\ Same
  /\ Log("setbound", <<reg[i+1].name, ToString(b[1]), ToString(b[2]), ToString(b[3])>>, "ok")
SetConst(i) == Live /\ i < N /\ reg' = [k \in 1..N |-> IF (k-1) \in Family(i) THEN [reg[k] EXCEPT !.const = 1] ELSE reg[k]] /\ Same
  /\ Log("setconst", <<reg[i+1].name>>, "ok")
(* a duplicate of a list of whole variables: same attributes, name with a postfix; names that exist are reused *)
RECURSIVE Dup(_, _, _)
Dup(r, l, p) == IF l = <<>> THEN r
  ELSE LET o == r[l[1] + 1] nm == o.name \o p
           has == \E k \in 1..Len(r) : r[k].name = nm
       IN Dup(IF has THEN r ELSE Append(r, [o EXCEPT !.name = nm]), Tail(l), p)
IndIn(r, nm) == (CHOOSE k \in 1..Len(r) : r[k].name = nm) - 1
FamSeq(i) == [k \in 1..reg[i+1].n |-> First(i) + k - 1]
IntsText(l) == LET RECURSIVE T(_) T(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN ToString(q[1]) ELSE ToString(q[1]) \o "," \o T(Tail(q)) IN T(l)
WholeOrNone(l, p) == \A i \in 1..Len(l) : LET nm == reg[l[i]+1].name \o p IN Has(nm) =>
    reg[Index(nm)+1].comp = reg[l[i]+1].comp /\ reg[Index(nm)+1].n = reg[l[i]+1].n
    /\ \A k \in Family(l[i]) : Has(reg[k+1].name \o p)
DupList(l, p) == Live /\ WholeOrNone(l, p) /\ LET r == Dup(reg, l, p) IN
   Len(r) <= MaxVars /\ reg' = r /\ Same
   /\ Log("adddup", <<p, IntsText(l)>>, IntsText([i \in 1..Len(l) |-> IndIn(r, reg[l[i]+1].name \o p)]))
(* lookups *)
Pure == UNCHANGED <<reg, again, dead>>
IndLax(nm) == Live /\ Pure /\ Log("indlax", <<nm>>, ToString(Index(nm)))
Ind(nm) == IF Has(nm) THEN Live /\ Pure /\ Log("ind", <<nm>>, ToString(Index(nm))) ELSE "die" \in Groups /\ Exit("ind", <<nm>>)
Start(nm) == IF Has(nm) THEN Live /\ Pure /\ Log("vstart", <<nm>>, "ok") ELSE "die" \in Groups /\ Exit("vstart", <<nm>>)
NameOf(i) == IF i \in 0..(N-1) THEN Live /\ Pure /\ Log("varname", <<ToString(i)>>, reg[i+1].name) ELSE "die" \in Groups /\ Exit("varname", <<ToString(i)>>)
NComp(i) == IF i \in 0..(N-1) THEN Live /\ Pure /\ Log("ncomp", <<ToString(i)>>, ToString(reg[i+1].n)) ELSE "die" \in Groups /\ Exit("ncomp", <<ToString(i)>>)
Comp0(i) == i < N /\ Live /\ Pure /\ Log("comp0", <<reg[i+1].name>>, reg[First(i)+1].name)

Init == reg = <<>> /\ again = FALSE /\ dead = FALSE /\ hist = <<>>
Pick(S) == IF Mode = "random" /\ S # {} THEN {RandomElement(S)} ELSE S
Idx == 0..(N-1)
Some == Names \cup {reg[i].name : i \in 1..N}
Next ==
  /\ \/ \E nm \in Pick(Names), f \in Pick(Forms) : AddVar(nm, f) \/ AddConst(nm, f)
     \/ \E i \in Pick(Idx) : SetConst(i) \/ Comp0(i) \/ \E b \in Pick(Bnds) : SetBound(i, b)
     \/ \E i \in Pick(Idx), p \in Pick(Posts) : DupList(FamSeq(i), p) \/ \E k \in Pick(Idx) : DupList(FamSeq(i) \o FamSeq(k), p)
     \/ \E nm \in Pick(Some) : IndLax(nm) \/ Ind(nm) \/ Start(nm)
     \/ \E i \in Pick(-1..N) : NameOf(i) \/ NComp(i)
     \/ "again" \in Groups /\ Again
  /\ CASE Mode = "transitions" -> PrintT("@@" \o ToJson(hist'))
       [] Mode = "random" -> ((Len(hist') = MaxHist \/ dead') => PrintT("@@" \o ToJson(hist')))
       [] OTHER -> TRUE
Spec == Init /\ [][Next]_vars

Unique == \A i, j \in 1..N : reg[i].name = reg[j].name => i = j
Families == \A i \in 0..(N-1) : First(i) >= 0 /\ First(i) + reg[i+1].n <= N /\
   \A k \in Family(i) : reg[k+1].comp = k - First(i) /\ reg[k+1].n = reg[i+1].n /\ reg[k+1].ti = reg[i+1].ti
(* what was handed out stays *)
Stable == [][ \A i \in 1..N : reg'[i].name = reg[i].name /\ reg'[i].comp = reg[i].comp /\ reg'[i].n = reg[i].n /\ reg'[i].ti = reg[i].ti
              /\ reg'[i].descr = reg[i].descr /\ reg'[i].par = reg[i].par /\ reg'[i].const >= reg[i].const ]_vars
=============================================================================
