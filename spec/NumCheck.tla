------------------------------ MODULE NumCheck ------------------------------
(* The number checker: which values count as invalid, how many there are, which stretches of points are named; and runs that are told to end *)
(* when a variable has an invalid value after a step.                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family       \* "values", "patterns", "lists", "runs"
VARIABLES grid,        \* variables -> boxes -> sequence of kinds of numbers, <<"-">> without storage
          hist, over
vars == <<grid, hist, over>>
(* kinds of numbers: m is the largest valid number *)
Good == {"zero", "negzero", "one", "minusone", "tiny", "m", "minusm"}
Bad == {"nan", "minusnan", "nan1", "nanall", "inf", "minusinf", "abovem", "belowminusm"}
None == <<"-">>
Sizes == <<2, 1, 3>>
(* ---- what is found: all points of the boxes with storage in order *)
AllPts(v) == FlattenSeq([b \in 1..Len(grid[v]) |-> IF grid[v][b] = None THEN <<>> ELSE [i \in 1..Len(grid[v][b]) |-> [b |-> b - 1, i |-> i - 1, x |-> grid[v][b][i]]]])
IsBad(p) == p.x \in Bad
Count(v) == LET s == AllPts(v) IN Cardinality({i \in 1..Len(s) : IsBad(s[i])})
(* every stretch of invalid numbers in a box is named by its first point and, if longer, its last *)
Starts(s, i) == IsBad(s[i]) /\ (i = 1 \/ ~IsBad(s[i-1]) \/ s[i-1].b # s[i].b)
Ends(s, i) == IsBad(s[i]) /\ (i = Len(s) \/ ~IsBad(s[i+1]) \/ s[i+1].b # s[i].b) /\ ~Starts(s, i)
Named(v) == LET s == AllPts(v)  F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE
     F[i-1] \o (IF Starts(s, i) THEN <<<<"at", s[i].b, s[i].i, s[i].x>>>> ELSE <<>>) \o (IF Ends(s, i) THEN <<<<"til", s[i].b, s[i].i, s[i].x>>>> ELSE <<>>) IN F[Len(s)]
Found(v) == [v |-> v, n |-> Count(v), named |-> Named(v)]
(* ---- data *)
Seqs(S, n) == [1..n -> S]
Two(S, st) == {[b \in 1..3 |-> IF b \in st THEN f[b] ELSE None] : f \in {<<a, c, d>> : a \in Seqs(S, 2), c \in Seqs(S, 1), d \in Seqs(S, 3)}}
Where == {{}, {1}, {2}, {3}, {1, 2}, {1, 3}, {2, 3}, {1, 2, 3}}
Clean == [b \in 1..3 |-> [i \in 1..Sizes[b] |-> "one"]]
Spots == {<<b, i>> : b \in 1..3, i \in 1..3} \ {<<1, 3>>, <<2, 2>>, <<2, 3>>}
Put(d, s, x) == [d EXCEPT ![s[1]][s[2]] = x]
Datas == CASE Family = "values" -> {Put(Put(Clean, s, x), t, y) : s, t \in Spots, x, y \in Good \cup Bad}
           [] Family = "patterns" -> UNION {Two({"one", "nan"}, st) : st \in Where}
           [] OTHER -> {Clean, [Clean EXCEPT ![2] = None], Put(Clean, <<3, 3>>, "inf"), Put(Put(Clean, <<1, 1>>, "nan"), <<1, 2>>, "minusinf"), [b \in 1..3 |-> None]}
(* ---- runs: n steps; at iteration at a value is put at a point of a box of variable w, in a phase; the parameter names variable v or none *)
Phases == <<"PRE_EVOLVE", "EVOLVE", "PRE_POST_EVOLVE", "POST_EVOLVE", "ANALYZE", "OUTPUT", "POST_OUTPUT">>
Setup == <<"INITIALDATA", "POST_INITIALDATA", "PRE_POST_EVOLVE", "POST_EVOLVE", "ANALYZE", "OUTPUT", "POST_OUTPUT">>
RunsOf == {[n |-> n, it |-> i, ph |-> p, v |-> v, w |-> w, b |-> b, pt |-> pt, x |-> x] :
            n \in 0..3, i \in (0 - 1)..3, p \in {Phases[k] : k \in 1..7} \cup {"INITIALDATA"}, v \in {"u", "no"}, w \in {"u", "w"}, b \in {0, 1}, pt \in {0, 11}, x \in {"nan", "inf", "abovem", "m"}}
Possible(r) == /\ r.it <= r.n - (IF r.ph \in {"PRE_EVOLVE", "EVOLVE"} \/ (r.ph = "PRE_POST_EVOLVE" /\ r.it > 0) THEN 1 ELSE 0) /\ (r.it = 0 - 1 <=> r.ph = "INITIALDATA")
               /\ (r.ph = "POST_EVOLVE" => FALSE)                        \* the order within that phase is that of the modules
               /\ (r.v = "no" => r.x = "nan" /\ r.b = 0) /\ (r.w = "w" => r.x = "nan" /\ r.pt = 0)
(* iteration at which a check first sees it: PRE_POST_EVOLVE, POST_EVOLVE of the setup come with iteration 0, those of a step with the iteration before it *)
Hits(r) == r.v = r.w /\ r.x \in Bad
(* number of steps made in full before and including the one whose check sees it *)
Steps(r) == IF ~Hits(r) THEN r.n ELSE
  LET k == CASE r.ph = "INITIALDATA" -> 0
             [] r.ph = "PRE_POST_EVOLVE" /\ r.it = 0 -> 0     \* in the setup already
             [] r.ph \in {"PRE_EVOLVE", "EVOLVE"} -> r.it + 1
             [] OTHER -> r.it + 1 IN
  IF k > r.n THEN r.n ELSE k
SeenAtAll(r) == Hits(r) /\ (CASE r.ph \in {"ANALYZE", "OUTPUT", "POST_OUTPUT"} -> r.it + 1 <= r.n [] OTHER -> TRUE)
Init == hist = <<>> /\ over = FALSE /\ grid = [v \in {"u", "w"} |-> Clean]
Check == Family # "runs" /\ ~over /\ over' = TRUE /\ \E d, e \in (IF Family = "lists" THEN Datas ELSE {Clean}) : \E f \in Datas :
   /\ grid' = IF Family = "lists" THEN [v \in {"u", "w"} |-> IF v = "u" THEN d ELSE e] ELSE [v \in {"u", "w"} |-> IF v = "u" THEN f ELSE Clean]
   /\ (Family = "lists" => f = Clean) /\ hist' = <<>>
Run == Family = "runs" /\ ~over /\ over' = TRUE /\ \E r \in RunsOf : Possible(r) /\ hist' = <<[run |-> r, steps |-> Steps(r), seen |-> SeenAtAll(r)]>> /\ UNCHANGED grid
Next == Check \/ Run
Spec == Init /\ [][Next]_vars
(* ---- what holds: every invalid point lies in a stretch that is named, no valid point does *)
Covered == (Family \in {"values", "patterns"} /\ over) => LET s == AllPts("u")  N == Named("u")
     Msg(w) == {<<N[k][2], N[k][3]>> : k \in {j \in 1..Len(N) : N[j][1] = w}} IN
   /\ (Count("u") > 0 <=> Msg("at") # {}) /\ Cardinality(Msg("til")) <= Cardinality(Msg("at"))
   /\ \A i \in 1..Len(s) : IsBad(s[i]) <=> \/ <<s[i].b, s[i].i>> \in Msg("at")
        \/ \E p \in Msg("at"), q \in Msg("til") : p[1] = s[i].b /\ q[1] = s[i].b /\ p[2] < s[i].i /\ s[i].i <= q[2] /\ ~\E m \in Msg("til") : m[1] = p[1] /\ m[2] > p[2] /\ m[2] < s[i].i
Emit == over => PrintT("@@" \o (IF Family = "runs" THEN ToJson(hist[1]) ELSE ToJson([grid |-> grid, u |-> Found("u"), w |-> Found("w")])))
=============================================================================
