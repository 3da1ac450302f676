------------------------------- MODULE ParDB --------------------------------
(* The parameter data base: assignments, typed and word-wise reads, word     *)
(* iteration, and copies of the whole data base.                             *)
EXTENDS ParVal, Json, FiniteSets
CONSTANTS Names, Vals, Words1, Descr, Ints, Dbls, MaxPar, MaxLen, MaxHist, Mode,
          Groups     \* operation groups in play
VARIABLES db,      \* sequence of [n, v, d]
          cp,      \* copy of the data base (empty: none)
          it,      \* word iteration: words not yet delivered, <<>> when idle
          on,      \* an iteration is under way
          dead,    \* the program stopped with an error
          hist
state == <<db, cp, it, on, dead>>
vars == <<db, cp, it, on, dead, hist>>

Pos(n) == {i \in 1..Len(db) : db[i].n = n}
Has(n) == Pos(n) # {}
At(n) == CHOOSE i \in Pos(n) : TRUE
Val(n) == db[At(n)].v
Put(n, v) == [db EXCEPT ![At(n)].v = Translate(v)]
New(n, v, d) == Append(db, [n |-> n, v |-> Translate(v), d |-> d])

(* text that reading v as a number yields *)
FirstWord(v) == IF v = "" THEN "" ELSE Words(v)[1]
NumText(v) ==
  LET w == FirstWord(v) IN
  CASE w \in {"0.5", "5.00000000000000000000e-01"} -> "0.5"
    [] w \in {"-2.5e3", "-2.50000000000000000000e+03"} -> "-2500"
    [] w \in {"1e-300", "1.00000000000000002506e-300"} -> "1e-300"
    [] w \in {"0.1", "1.00000000000000005551e-01"} -> "0.10000000000000001"
    [] w = "3.00000000000000000000e+00" -> "3"
    [] w = "3.141592653589793116e+00" -> "3.1415926535897931"
    [] w = "-1.570796326794896558e+00" -> "-1.5707963267948966"
    [] OTHER -> ToString(IntOf(v))
DblText(x) ==   \* text stored when a number is assigned
  CASE x = "0.5" -> "5.00000000000000000000e-01"
    [] x = "-2500" -> "-2.50000000000000000000e+03"
    [] x = "1e-300" -> "1.00000000000000002506e-300"
    [] x = "0.1" -> "1.00000000000000005551e-01"
    [] x = "3" -> "3.00000000000000000000e+00"
View == [i \in 1..Len(db) |-> [n |-> db[i].n, v |-> db[i].v, d |-> db[i].d, x |-> NumText(db[i].v), b |-> BoolOf(db[i].v)]]
ViewOf(d) == [i \in 1..Len(d) |-> [n |-> d[i].n, v |-> d[i].v, d |-> d[i].d, x |-> NumText(d[i].v), b |-> BoolOf(d[i].v)]]

Log(op, args, ret) == hist' = Append(hist, [op |-> op, args |-> args, ret |-> ret, db |-> ViewOf(db')])
Live == ~dead /\ Len(hist) < MaxHist
Keep(S) == /\ ("cp" \in S => cp' = cp) /\ ("it" \in S => it' = it /\ on' = on) /\ ("dead" \in S => dead' = dead) /\ ("db" \in S => db' = db)
Rest == Keep({"cp", "it", "dead"})

(* a default only supplies the description when a value is there already *)
AddPar(n, v, d) == Live /\ (Has(n) \/ Len(db) < MaxPar)
  /\ db' = (IF Has(n) THEN [db EXCEPT ![At(n)].d = d] ELSE New(n, v, d)) /\ Rest /\ Log("addpar", <<n, v, d>>, "ok")
AddMod(n, v, d) == Live /\ (Has(n) \/ Len(db) < MaxPar)
  /\ db' = (IF Has(n) THEN Put(n, v) ELSE New(n, v, d)) /\ Rest /\ Log("addmod", <<n, v, d>>, "ok")
Sets(n, v) == Live /\ Has(n) /\ db' = Put(n, v) /\ Rest /\ Log("sets", <<n, v>>, "ok")
(* the new value is what another parameter, or the parameter itself, holds *)
SetFrom(n, m) == Live /\ Has(n) /\ Has(m) /\ db' = Put(n, Val(m)) /\ Rest /\ Log("setself", <<n, m>>, "ok")
Seti(n, i) == Live /\ Has(n) /\ db' = Put(n, ToString(i)) /\ Rest /\ Log("seti", <<n, ToString(i)>>, "ok")
Setd(n, x) == Live /\ Has(n) /\ db' = Put(n, DblText(x)) /\ Rest /\ Log("setd", <<n, x>>, "ok")
Appends(n, w) == Live /\ Has(n)
  /\ db' = (IF HasWord(Val(n), w) THEN db ELSE Put(n, IF Val(n) = "" THEN w ELSE Val(n) \o " " \o w))
  /\ Rest /\ Log("appends", <<n, w>>, "ok")
(* reads *)
Read0 == db' = db /\ Rest
Gets(n) == Live /\ Has(n) /\ Read0 /\ Log("gets", <<n>>, Val(n))
GetsLax(n) == Live /\ Read0 /\ Log("getslax", <<n>>, IF Has(n) THEN Val(n) ELSE "<null>")
Geti(n) == Live /\ Has(n) /\ Read0 /\ Log("geti", <<n>>, ToString(IntOf(Val(n))))
Getd(n) == Live /\ Has(n) /\ Read0 /\ Log("getd", <<n>>, NumText(Val(n)))
Getv(n, w) == Live /\ Has(n) /\ Read0 /\ Log("getv", <<n, w>>, IF HasWord(Val(n), w) THEN "1" ELSE "0")
GetvLax(n, w) == Live /\ Read0 /\ Log("getvlax", <<n, w>>, IF Has(n) /\ HasWord(Val(n), w) THEN "1" ELSE "0")
Cached(n) == Live /\ Has(n) /\ Read0 /\ Log("cached", <<n>>, NumText(Val(n)) \o " " \o ToString(BoolOf(Val(n))))
IndexOf(n) == Live /\ Read0 /\ Log("index", <<n>>, IF Has(n) THEN ToString(At(n) - 1) ELSE "-1")
(* where a search starts is a matter of speed only *)
StartAt(n) == Live /\ Has(n) /\ Read0 /\ Log("istart", <<n>>, "ok")
(* word iteration: the list given first is walked to its end, then a null marks the end *)
NextWord(n) == Live /\ Has(n) /\ db' = db /\ Keep({"cp", "dead"})
  /\ LET l == Val(n) IN
     IF l = "" \/ (on /\ it = <<>>) THEN on' = FALSE /\ it' = <<>> /\ Log("nextpar", <<n>>, "<null>")
     ELSE LET w == IF on THEN it ELSE Words(l) IN
          on' = TRUE /\ it' = Tail(w) /\ Log("nextpar", <<n>>, w[1])
(* copies *)
MkCopy == Live /\ db # <<>> /\ cp' = db /\ db' = db /\ Keep({"it", "dead"}) /\ Log("mkcopy", <<>>, "ok")
CpCopy == Live /\ db # <<>> /\ Len(cp) <= Len(db) /\ cp' = db /\ db' = db /\ Keep({"it", "dead"}) /\ Log("cpcopy", <<>>, "ok")
Restore == Live /\ cp # <<>> /\ Len(cp) <= Len(db)
  /\ db' = [i \in 1..Len(db) |-> IF i <= Len(cp) THEN cp[i] ELSE db[i]] /\ Rest /\ Log("restore", <<>>, "ok")
DumpCopy == Live /\ cp # <<>> /\ Read0 /\ Log("dumpcopy", <<>>, ViewOf(cp))
(* using a parameter that does not exist stops the program *)
Die(op, args) == Live /\ dead' = TRUE /\ db' = db /\ Keep({"cp", "it"}) /\ Log(op, args, "<exit>")
Missing(n) == ~Has(n) /\ (\/ Die("gets", <<n>>) \/ Die("geti", <<n>>) \/ Die("getd", <<n>>) \/ Die("sets", <<n, "x">>)
                          \/ Die("seti", <<n, "1">>) \/ Die("appends", <<n, "x">>) \/ Die("getv", <<n, "x">>) \/ Die("istart", <<n>>))

Init == db = <<>> /\ cp = <<>> /\ it = <<>> /\ on = FALSE /\ dead = FALSE /\ hist = <<>>
(* random simulation draws the arguments, everything else tries all *)
Pick(S) == IF Mode = "random" THEN {RandomElement(S)} ELSE S
G(g) == g \in Groups
OpW(n, w) == \/ G("app") /\ Appends(n, w)
             \/ G("read") /\ (Getv(n, w) \/ GetvLax(n, w))
OpN(n) == \/ G("read") /\ (Gets(n) \/ GetsLax(n) \/ Geti(n) \/ Getd(n) \/ Cached(n) \/ IndexOf(n) \/ StartAt(n))
          \/ G("iter") /\ NextWord(n)
          \/ G("die") /\ Missing(n)
          \/ G("num") /\ (\E i \in Pick(Ints) : Seti(n, i))
          \/ G("num") /\ (\E x \in Pick(Dbls) : Setd(n, x))
          \/ \E w \in Pick(Words1) : OpW(n, w)
          \/ G("set") /\ (\E v \in Pick(Vals) : Sets(n, v))
          \/ G("self") /\ (\E m \in Pick(Names) : SetFrom(n, m))
          \/ G("add") /\ (\E v \in Pick(Vals), d \in Pick(Descr) : AddPar(n, v, d) \/ AddMod(n, v, d))
Op == \/ \E n \in Pick(Names) : OpN(n)
      \/ G("copy") /\ (MkCopy \/ CpCopy \/ Restore \/ DumpCopy)
Fits == \A i \in 1..Len(db') : Len(db'[i].v) <= MaxLen
Emit == CASE Mode = "transitions" -> PrintT("@@" \o ToJson(hist'))
          [] Mode \in {"paths", "random"} -> ((Len(hist') = MaxHist \/ dead') => PrintT("@@" \o ToJson(hist')))
          [] OTHER -> TRUE
Next == Op /\ Fits /\ Emit
Spec == Init /\ [][Next]_vars

(* ----- properties --------------------------------------------------------- *)
Unique == \A i, j \in 1..Len(db) : db[i].n = db[j].n => i = j
(* one operation changes the value of at most the one parameter it names *)
Last == hist'[Len(hist')]
OnlyNamed == [][ \A i \in 1..Len(db) : /\ db'[i].n = db[i].n
                 /\ (db'[i].v # db[i].v => Last.op = "restore" \/ Last.args[1] = db[i].n) ]_vars
DefaultNeverOverrides == [][ \A i \in 1..Len(db) : Last.op = "addpar" => db'[i].v = db[i].v ]_vars
ReadsPure == [][ Last.op \in {"gets","getslax","geti","getd","getv","getvlax","cached","index","istart","nextpar","dumpcopy","mkcopy","cpcopy"} => db' = db ]_vars
AppendKeeps == [][ Last.op = "appends" /\ ~dead' => \A i \in 1..Len(db) : HasWord(db'[i].v, Last.args[2]) \/ db[i].n # Last.args[1] ]_vars
=============================================================================
