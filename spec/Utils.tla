---- MODULE Utils ----
(* What changes the parameters and fields of a run from outside: files of parameter updates, the file of current parameters,   *)
(* checkpoints of other grids, and parameters that stand for others (ParManipulator). Each changes what it is asked to.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family,      \* "pars" (exhaustive), "mix" (random), "manip" (random)
          Depth
VARIABLES conf,        \* the run and the checkpoint of the other one
          pat,         \* places of the boxes: par, as the parameters say; upd and cur, as the two files say
          P,           \* parameters of this run
          F,           \* fields -> [m: monomial, ok: still that of the present coordinates]
          upd, cur,    \* the file with updates; the file of current parameters
          hist, over
vars == <<conf, pat, P, F, upd, cur, hist, over>>
Names == {"verif_p", "verif_q", "verif_r"}
NoFile == <<[name |-> "(none)", pre |-> 0, post |-> 0, lead |-> 0, body |-> ""]>>
NoCur == [x \in Names |-> "(none)"]
Blanks(k) == CASE k = 0 -> "" [] k = 1 -> " " [] k = 2 -> "  " [] OTHER -> "   "
One(S) == RandomElement(S)
(* ---- updates. A line names a parameter before its first "="; the value is the rest without one leading blank *)
Text(l) == IF l.name = "" THEN Blanks(l.pre) ELSE Blanks(l.pre) \o l.name \o Blanks(l.post) \o "=" \o Blanks(l.lead) \o l.body
Value(l) == Blanks(IF l.lead > 0 THEN l.lead - 1 ELSE 0) \o l.body
Apply(p, ls) == FoldLeft(LAMBDA q, l : IF l.name \in DOMAIN q THEN [q EXCEPT ![l.name] = Value(l)] ELSE q, p, ls)
Lines(names, pres, leads, bodies) == {[name |-> n, pre |-> a, post |-> b, lead |-> c, body |-> d] : n \in names, a \in pres, b \in pres, c \in leads, d \in bodies}
FewLines == Lines({"verif_p", "verif_pq"}, {0}, {0, 1, 2}, {"", "y=z"}) \cup Lines({"verif_q"}, {0, 1}, {1}, {"a b"}) \cup Lines({"", "#"}, {0}, {1}, {"x"})
AnyLine(i) == One(Lines({"verif_p", "verif_q", "verif_r", "verif_p", "verif_q", "verif_pq", "nope", "#", ""}, 0..2, 0..3, {"", "x", "a b", "a  b", "y=z", "= w", "7", "t "}))
FewFiles == {<<a>> : a \in FewLines} \cup {<<a, b>> : a, b \in {l \in FewLines : l.name \in {"verif_p", ""} /\ l.lead < 2}} \cup {<<>>}
Values == {"", "x", "a b", " s", "t ", "1e-3", "a = b", "  "}
(* ---- the other checkpoint *)
Pairs == <<<<"-1", "1">>, <<"0", "2">>, <<"-0.5", "1.5">>, <<"1", "1.25">>, <<"2", "3">>>>
Bases == <<"ChebExtrema", "ChebZeros", "Fourier">>
ABox(i) == [n |-> [d \in 1..3 |-> One(2..5)], at |-> [d \in 1..3 |-> One(1..5)], basis |-> [d \in 1..3 |-> One({1, 1, 2, 3})]]
Even(b) == [b EXCEPT !.n = [d \in 1..3 |-> IF b.basis[d] = 3 THEN 4 ELSE b.n[d]]]
AGrid(nb) == [k \in 1..nb |-> Even(TLCEval(ABox(k)))]
(* powers that the grid of the checkpoint resolves *)
Powers(g) == [c |-> One({1, 2, 0 - 3}), e |-> [d \in 1..3 |-> One(0..(CHOOSE m \in 0..4 : \A k \in DOMAIN g : (IF g[k].basis[d] = 3 THEN m = 0 ELSE m < g[k].n[d])
                                                                            /\ (m = 4 \/ \E j \in DOMAIN g : IF g[j].basis[d] = 3 THEN TRUE ELSE m + 1 >= g[j].n[d])))]]
Free(i) == [c |-> One({1, 2, 0 - 3}), e |-> [d \in 1..3 |-> One(0..2)]]
Conf(nb, onb) == LET g == TLCEval(AGrid(nb))  o == TLCEval(AGrid(onb)) IN
   [nb |-> nb, onb |-> onb, g |-> g, o |-> o, P |-> [x \in Names |-> One({"p0", "q0", "7"})], oP |-> [x \in Names |-> One({"x", "5", "a b", "y=z", "z  z"})],
    oF |-> [v \in {"u", "w"} |-> Powers(o)], at0 |-> [k \in 1..nb |-> g[k].at], noread |-> One(SUBSET {"verif_q", "verif_r"}), F |-> [v \in {"u", "w"} |-> Free(v)], seed |-> 0]
Corner(g, b, d) == Pairs[g[b].at[d]]
Bounds(g) == [b \in DOMAIN g |-> [d \in 1..3 |-> Corner(g, b, d)]]
(* ---- parameters that stand for others *)
Keys == <<"n1", "n2", "n3", "min1", "min2", "min3", "max1", "max2", "max3", "basis1", "basis2", "basis3">>
Forms(k) == LET lit == IF k <= 3 THEN {"4", "8", "2"} ELSE IF k <= 6 THEN {"-2", "-1", "0"} ELSE IF k <= 9 THEN {"3", "2", "4"} ELSE {"ChebZeros", "Fourier", "ChebExtrema"} IN
   [t : {"lit"}, l : lit, w : {"", Keys[k] \o "x", "x" \o Keys[k], "z." \o Keys[k]}] \cup [t : {"ref"}, l : lit, w : {""}]
FormText(k, f) == IF f.w = "" THEN f.l ELSE f.l \o " " \o f.w
AGlobal(k) == IF k <= 3 THEN One({"4", "8", "2"}) ELSE IF k <= 6 THEN One({"-3", "-0.5", "1"}) ELSE IF k <= 9 THEN One({"5", "1.5"}) ELSE One({"ChebZeros", "ChebExtrema"})
Refs(k) == {Keys[k], "8 " \o Keys[k], Keys[k] \o " 8", "a " \o Keys[k] \o " b"}
Manip(i) == LET nb == One(1..3) IN
   TLCEval([nb |-> nb, glob |-> [k \in 1..12 |-> AGlobal(k)],
    box |-> [b \in 1..nb |-> [k \in 1..12 |-> IF One(1..2) = 1 THEN [t |-> "ref", x |-> One(Refs(k)), l |-> ""] ELSE LET f == TLCEval(One(Forms(k))) IN [t |-> "lit", x |-> FormText(k, f), l |-> f.l]]],
    scal |-> One({"no", "no", "1/n1^2", "1/n1", "1/n1^2", "1/n1", "1/n", "n1"}), coeff |-> One({1, 2, 8, 16}), fac4 |-> One({1, 2, 4, 8}), time |-> One({0, 0, 1, 3, 20})])
Meant(m, b, k) == IF m.box[b][k].t = "ref" THEN m.glob[k] ELSE m.box[b][k].l           \* what box b gets
After(m, b, k) == IF m.box[b][k].t = "ref" THEN m.glob[k] \o " " \o Keys[k] ELSE m.box[b][k].x
Num(s) == CASE s = "2" -> 2 [] s = "4" -> 4 [] OTHER -> 8
(* time steps in units of 1/256, as num/den *)
Step(m, b) == LET n == Num(Meant(m, b, 1))  K == (m.fac4 * m.coeff * 64) \div (IF m.scal = "1/n1^2" THEN n * n ELSE n) IN
   IF m.time = 0 THEN <<K, 256>> ELSE <<m.time, 1 + (m.time * 256) \div K>>
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Dt(m) == IF m.scal = "no" THEN <<0, 0>> ELSE LET S == {Step(m, b) : b \in 1..m.nb} IN CHOOSE x \in S : \A y \in S : ~Less(y, x)
Ends(m) == m.scal \notin {"no", "1/n1^2", "1/n1"}
Changed(m) == {<<b, k>> \in (1..m.nb) \X (1..12) : After(m, b, k) # m.box[b][k].x}
(* ---- the history *)
Start == [x \in Names |-> "p0"]
Simple == [nb |-> 1, onb |-> 1, g |-> <<[n |-> <<2, 2, 2>>, at |-> <<1, 1, 1>>, basis |-> <<1, 1, 1>>]>>, P |-> Start, F |-> [v \in {"u", "w"} |-> [c |-> 1, e |-> <<0, 0, 0>>]], noread |-> {}, seed |-> 0]
Init == /\ conf = (IF Family = "pars" THEN Simple ELSE [seed |-> 1]) /\ P = Start /\ F = [v \in {"u", "w"} |-> [m |-> <<>>, ok |-> TRUE]]
        /\ upd = NoFile /\ cur = NoCur /\ pat = [par |-> <<>>, upd |-> <<>>, cur |-> <<>>] /\ hist = <<>> /\ over = FALSE
Begin == /\ Family = "mix" /\ DOMAIN conf = {"seed"}
         /\ \E nb \in {One({1, 1, 2, 2, 3})} : \E onb \in {IF One(1..12) = 1 THEN 1 + (nb % 3) ELSE nb} : \E c \in {Conf(nb, onb)} :
             conf' = c /\ pat' = [pat EXCEPT !.par = c.at0] /\ P' = c.P /\ F' = [v \in {"u", "w"} |-> [m |-> c.F[v], ok |-> TRUE]]
         /\ UNCHANGED <<upd, cur, hist, over>>
Ready == Family \in {"pars", "mix"} /\ "nb" \in DOMAIN conf /\ ~over /\ Len(hist) < Depth
Log(op, a, ret) == hist' = Append(hist, [op |-> op, a |-> a, ret |-> ret, P |-> P', upd |-> upd' # NoFile, F |-> F', at |-> pat'.par])
Set(x, v) == UNCHANGED pat /\ P' = [P EXCEPT ![x] = v] /\ UNCHANGED <<F, upd, cur>> /\ Log("set", [x |-> x, v |-> v], 0)
Place(ls, nl) == pat' = [pat EXCEPT !.upd = <<>>] /\ upd' = ls /\ UNCHANGED <<P, F, cur>> /\ Log("place", [text |-> [i \in DOMAIN ls |-> Text(ls[i])], nl |-> nl], 0)
Update == /\ P' = (IF upd = NoFile THEN P ELSE Apply(P, upd)) /\ upd' = NoFile /\ pat' = [pat EXCEPT !.par = IF pat.upd = <<>> THEN @ ELSE pat.upd, !.upd = <<>>] /\ UNCHANGED <<F, cur>> /\ Log("update", [text |-> ""], IF upd = NoFile THEN 0 ELSE 1)
Write == pat' = [pat EXCEPT !.cur = pat.par] /\ cur' = [x \in Names |-> P[x]] /\ UNCHANGED <<P, F, upd>> /\ Log("write", [text |-> ""], 0)
(* the file of current parameters is one that can be read back as updates *)
Reuse == /\ cur # NoCur /\ pat' = [pat EXCEPT !.upd = pat.cur] /\ upd' = SetToSeq({[name |-> x, pre |-> 0, post |-> 1, lead |-> 1, body |-> cur[x]] : x \in Names}) /\ cur' = NoCur /\ UNCHANGED <<P, F>> /\ Log("reuse", [text |-> ""], 0)
Refill(v, m) == UNCHANGED pat /\ F' = [F EXCEPT ![v] = [m |-> m, ok |-> TRUE]] /\ UNCHANGED <<P, upd, cur>> /\ Log("refill", [v |-> v], 0)
Interp(vs, ps) ==
   /\ IF conf.onb # conf.nb THEN over' = TRUE /\ UNCHANGED <<P, F, upd, cur, conf, pat>> /\ Log("interp", [vs |-> vs, ps |-> ps], 1)
      ELSE /\ P' = [x \in Names |-> IF x \in ps \ conf.noread THEN conf.oP[x] ELSE P[x]]
           /\ conf' = [conf EXCEPT !.g = [b \in DOMAIN conf.g |-> [conf.g[b] EXCEPT !.at = conf.o[b].at]]]
           /\ F' = [v \in DOMAIN F |-> IF v \in vs THEN [m |-> conf.oF[v], ok |-> TRUE] ELSE [F[v] EXCEPT !.ok = F[v].ok /\ Bounds(conf.o) = Bounds(conf.g)]]
           /\ pat' = [pat EXCEPT !.par = [b \in DOMAIN conf.o |-> conf.o[b].at]]
           /\ UNCHANGED <<upd, cur, over>> /\ Log("interp", [vs |-> vs, ps |-> ps], 0)
Small == /\ Family = "pars" /\ Ready /\ UNCHANGED <<conf, over>>
         /\ \/ \E v \in {"", " s", "a = b"} : v # P["verif_p"] /\ Set("verif_p", v)
            \/ upd = NoFile /\ \E f \in FewFiles : Place(f, Len(f) = 1)
            \/ Update
            \/ Write
            \/ Reuse
Random == /\ Family = "mix" /\ Ready
          /\ \E k \in {One(1..9)} :
             IF k \in {7, 8, 9} THEN Interp(One(SUBSET {"u", "w"}), One(SUBSET Names))
             ELSE /\ UNCHANGED <<conf, over>>
                  /\ CASE k = 1 -> Set(One(Names), One(Values))
                       [] k = 2 -> \E n \in {One(0..5)} : \E f \in {[i \in 1..n |-> AnyLine(i)]} : Place(f, One(BOOLEAN))
                       [] k = 3 -> Update
                       [] k = 4 -> Write
                       [] k = 5 -> IF cur # NoCur THEN Reuse ELSE Write
                       [] OTHER -> Refill(One({"u", "w"}), Free(k))
Change == /\ Family = "manip" /\ ~over /\ over' = TRUE
          /\ \E m \in {Manip(Len(hist))} : conf' = m /\ hist' = <<[ends |-> Ends(m), dt |-> Dt(m), after |-> [b \in 1..m.nb |-> [k \in 1..12 |-> After(m, b, k)]], gets |-> [b \in 1..m.nb |-> [k \in 1..12 |-> Meant(m, b, k)]],
                                                          changed |-> Changed(m)]>>
          /\ UNCHANGED <<P, F, upd, cur, pat>>
Done == /\ Family # "manip" /\ ~over /\ Len(hist) = Depth /\ over' = TRUE /\ UNCHANGED <<conf, pat, P, F, upd, cur, hist>>
Next == Begin \/ Small \/ Random \/ Change \/ Done
Spec == Init /\ [][Next]_vars
(* ---- what holds *)
Op(i) == hist'[i].op
New == Len(hist') > Len(hist) /\ Family # "manip"
Entry == hist'[Len(hist')]
(* an update changes only parameters that the file names *)
OnlyNamed == [][New /\ Entry.op = "update" => (upd = NoFile => P' = P) /\ upd' = NoFile /\ \A x \in Names : P'[x] # P[x] => \E i \in DOMAIN upd : upd[i].name = x]_vars
(* writing the current parameters and reading them back restores them whatever happened in between *)
RoundTrip == [][New /\ Entry.op = "update" /\ Len(hist) > 0 /\ hist[Len(hist)].op = "reuse" =>
               P' = (LET k == CHOOSE k \in 1..Len(hist) : hist[k].op = "write" /\ \A j \in k + 1..Len(hist) : hist[j].op # "write" IN hist[k].P)]_vars
(* a checkpoint of another grid gives the listed variables and parameters and the place of the boxes *)
OnlyListed == [][New /\ Entry.op = "interp" => /\ \A v \in DOMAIN F : v \notin Entry.a.vs => F'[v].m = F[v].m
                                               /\ \A x \in Names : x \notin Entry.a.ps => P'[x] = P[x]
                                               /\ \A b \in DOMAIN conf.g : conf'.g[b].n = conf.g[b].n /\ conf'.g[b].basis = conf.g[b].basis]_vars
(* the time step fits into that of every box, and divides the required time *)
Small0 == (Family = "manip" /\ over /\ ~Ends(conf) /\ conf.scal # "no") =>
   LET d == Dt(conf) IN (\A b \in 1..conf.nb : ~Less(Step(conf, b), d)) /\ (conf.time > 0 => d[1] = conf.time)
Emit == over => PrintT("@@" \o ToJson([conf |-> conf, hist |-> hist]))
====
