-------------------------------- MODULE BCRules --------------------------------
(* Rules at the outer boundary.  Lists of boundary points are made from the        *)
(* parameters (which rules are on, kind of coordinates, basis of each direction);  *)
(* the rules then act, in a fixed order, on the points of their lists only:        *)
(*   radiative          new = [pre + c] rhs, rhs = -v ((u - far) + x.grad u) / r    *)
(*   radiative_analytic the same for the difference to the field at time 0         *)
(*   constant, constantExcision, selectedconstantExcision   new = pre              *)
(*   simpleExcision     new = pre + change at the next point inward                *)
(*   VonNeumannExcision, selectedVonNeumannExcision   slope across the face is 0   *)
(* All numbers are integers: r divides the speed.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS MaxB, MaxN, Calls
VARIABLES nb, n, coords, basis, D, X, v0, far, frozen, chosen,   \* the grid and what is fixed
          on,           \* rules that are on
          lists,        \* list -> box -> set of points
          fld,          \* "new", "pre", "cur", "old" -> variable -> box -> field
          saved,        \* the field at time 0 is known
          hist, phase
vars == <<nb, n, coords, basis, D, X, v0, far, frozen, chosen, on, lists, fld, saved, hist, phase>>
fixed == <<nb, n, coords, basis, D, X, v0, far, frozen, chosen>>
Dirs == 1..3
Names == <<"u", "k_r">>
AsNamed(v) == IF v = 1 THEN {"u"} ELSE {"k", "k_r"}
Rules == {"radiative", "radiative_analytic", "constant", "constantExcision", "simpleExcision", "selectedconstantExcision", "VonNeumannExcision", "selectedVonNeumannExcision"}
Round == {"SphericalDF", "compactSphericalDF", "Spherical", "Spherical2", "Spherical3"}
Rnd(S, k) == RandomElement(S)
PointIn(s, i) == <<i % s[1], (i \div s[1]) % s[2], i \div (s[1] * s[2])>>
IndexIn(s, p) == p[1] + s[1] * (p[2] + s[2] * p[3])
SizeOf(s) == s[1] * s[2] * s[3]
Spots == <<<<3, 4, 0>>, <<0, 0 - 5, 0>>, <<2, 1, 0 - 2>>, <<6, 0 - 2, 3>>, <<0, 0, 1>>, <<0 - 1, 2, 2>>, <<0, 0 - 3, 4>>>>
Radius == <<5, 5, 3, 7, 1, 3, 5>>
Boxes == 1..nb
(* ---- lists *)
Plane(b, d, x) == {i \in 0..(SizeOf(n[b]) - 1) : PointIn(n[b], i)[d] = x}
Ends(b, d) == Plane(b, d, 0) \cup Plane(b, d, n[b][d] - 1)
Outside(b) == IF coords[b] \in Round THEN Plane(b, 1, n[b][1] - 1) ELSE UNION {Ends(b, d) : d \in Dirs}
Hole == IF coords[1] \in Round THEN Plane(1, 1, 0) ELSE {}
Open(x) == x \notin {"Fourier", "fd2_periodic"}
ListNames == {"box", "radiative", "constant", "selected", "Excision"}
Filled == [L \in ListNames |-> [b \in Boxes |->
   CASE L = "box" -> UNION {Ends(b, d) : d \in {d \in Dirs : Open(basis[b][d])}}
     [] L = "radiative" -> IF b = nb /\ on \cap {"radiative", "radiative_analytic"} # {} THEN Outside(b) ELSE {}
     [] L = "constant" -> (IF b = nb /\ "constant" \in on THEN Outside(b) ELSE {}) \cup (IF b = 1 /\ "constantExcision" \in on THEN Hole ELSE {})
     [] L = "Excision" -> IF b = 1 /\ on \cap {"simpleExcision", "VonNeumannExcision"} # {} THEN Hole ELSE {}
     [] L = "selected" -> IF b = 1 /\ on \cap {"selectedconstantExcision", "selectedVonNeumannExcision"} # {} THEN Hole ELSE {}]]
(* ---- rules for one variable *)
Slope(b, d, g) == TLCEval([i \in DOMAIN g |-> LET p == PointIn(n[b], i - 1) IN
   MapThenSumSet(LAMBDA x : D[b][d][p[d] + 1][x + 1] * g[IndexIn(n[b], [p EXCEPT ![d] = x]) + 1], 0..(n[b][d] - 1))])
On(PL, b, g, val(_)) == TLCEval([i \in DOMAIN g |-> IF i - 1 \in PL[b] THEN val(i) ELSE g[i]])
Rate(b, speed, diff, G, i) == LET sp == 1 + X[b][i] IN      \* diff: the field less its limit, G: its gradient
   0 - (speed \div Radius[sp]) * (diff[i] + MapThenSumSet(LAMBDA d : Spots[sp][d] * G[d][i], Dirs))
Flat(b, c) == TLCEval([i \in 1..SizeOf(n[b]) |-> c])
Speed(v) == IF AsNamed(v) \cap frozen # {} THEN 0 ELSE v0[v]
Selected(v) == Names[v] \in chosen
RadOf(b, v, c, nw, pre, cur, base, gb) == IF lists["radiative"][b] = {} THEN nw ELSE
   LET diff == TLCEval([i \in DOMAIN cur |-> cur[i] - base[i]])
       G == TLCEval(<<Slope(b, 1, cur), Slope(b, 2, cur), Slope(b, 3, cur)>>) H == TLCEval(<<Slope(b, 1, gb), Slope(b, 2, gb), Slope(b, 3, gb)>>)
       GH == TLCEval([d \in Dirs |-> TLCEval([i \in DOMAIN cur |-> G[d][i] - H[d][i]])]) IN
   On(lists["radiative"], b, nw, LAMBDA i : (IF c = 0 THEN 0 ELSE pre[i]) + (IF c = 0 THEN 1 ELSE c) * Rate(b, Speed(v), diff, GH, i))
Neumann(PL, b, g, d, deriv, last) == LET s == TLCEval(IF PL[b] = {} THEN g ELSE Slope(b, d, g)) k == IF last THEN D[b][d][n[b][d]][n[b][d]] ELSE D[b][d][1][1] IN
   On(PL, b, g, LAMBDA i : (deriv - s[i] + k * g[i]) * k)       \* k is 1 or -1
If(r, g, h) == IF r \in on THEN h ELSE g
Apply(b, v, c, base) ==
   LET pre == fld.pre[v][b] cur == fld.cur[v][b]
       g1 == If("radiative", fld.new[v][b], RadOf(b, v, c, fld.new[v][b], pre, cur, Flat(b, far[v]), Flat(b, 0)))
       g2 == If("radiative_analytic", g1, RadOf(b, v, c, g1, pre, cur, base, base))
       g3 == IF on \cap {"constant", "constantExcision"} = {} THEN g2 ELSE On(lists["constant"], b, g2, LAMBDA i : pre[i])
       g4 == If("simpleExcision", g3, On(lists["Excision"], b, g3, LAMBDA i : pre[i] + g3[i + 1] - pre[i + 1]))
       g5 == IF Selected(v) THEN If("selectedconstantExcision", g4, On(lists["selected"], b, g4, LAMBDA i : pre[i])) ELSE g4
       g6 == If("VonNeumannExcision", g5, Neumann(lists["Excision"], b, g5, 1, 0, FALSE))
       g7 == IF Selected(v) THEN If("selectedVonNeumannExcision", g6, Neumann(lists["selected"], b, g6, 1, 0, FALSE)) ELSE g6
   IN g7
(* ---- behaviours *)
None == [L \in ListNames |-> [b \in Boxes |-> {}]]
Init == /\ nb = 0 /\ n = <<>> /\ coords = <<>> /\ basis = <<>> /\ D = <<>> /\ X = <<>> /\ v0 = <<>> /\ far = <<>> /\ frozen = {} /\ chosen = {}
        /\ on = {} /\ lists = <<>> /\ fld = <<>> /\ saved = FALSE /\ hist = <<>> /\ phase = "new"
Nums(m, S) == TLCEval([i \in 1..m |-> Rnd(S, i)])
Subset(S, k) == {x \in S : Rnd(1..3, x) = 1}
Mat(s) == TLCEval([i \in 1..s |-> TLCEval([j \in 1..s |-> IF i = j /\ (i = 1 \/ i = s) THEN Rnd({1, 0 - 1}, i) ELSE Rnd((0 - 2)..2, i)])])
Setup == /\ phase = "new" /\ phase' = "go" /\ on' = {} /\ lists' = <<>> /\ saved' = FALSE 
   /\ \E m \in {Rnd(1..MaxB, 0)} : \E s \in {TLCEval([b \in 1..m |-> Nums(3, 2..MaxN)])} :
        /\ nb' = m /\ n' = s
        /\ coords' = TLCEval([b \in 1..m |-> IF Rnd(1..4, b) > 1 THEN Rnd(Round, b) ELSE Rnd({"Cartesian", "Spherical4", "AnsorgNS0"}, b)])
        /\ basis' = TLCEval([b \in 1..m |-> TLCEval([d \in Dirs |-> Rnd({"ChebExtrema", "Fourier", "fd2_periodic", "fd2_onesided", "ChebZeros"}, b)])])
        /\ D' = TLCEval([b \in 1..m |-> <<Mat(s[b][1]), Mat(s[b][2]), Mat(s[b][3])>>])
        /\ X' = TLCEval([b \in 1..m |-> Nums(SizeOf(s[b]), 0..6)])
        /\ v0' = <<Rnd({0, 105, 210}, 1), Rnd({105, 0 - 105}, 2)>> /\ far' = Nums(2, (0 - 3)..3)
        /\ frozen' = (IF Rnd(1..2, 1) = 1 THEN {} ELSE {x \in {"u", "k", "k_r", "kk"} : Rnd(1..2, x) = 1})
        /\ chosen' = {x \in {"u", "k_r", "k"} : Rnd(1..2, x) = 1}
        /\ fld' = TLCEval([w \in {"new", "pre", "cur", "old"} |-> TLCEval([v \in 1..2 |-> TLCEval([b \in 1..m |-> Nums(SizeOf(s[b]), (0 - 9)..9)])])])
        /\ hist' = <<[op |-> "fields", a |-> <<>>, out |-> [w \in {"new", "pre", "cur"} |-> fld'[w]]]>>
Note(op, a, out) == hist' = Append(hist, [op |-> op, a |-> a, out |-> out])
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
ShowLists(L) == [x \in ListNames |-> [b \in Boxes |-> Sorted(L[x][b])]]
Tops == \A v \in 1..2 : \A b \in Boxes : \A i \in DOMAIN fld.new[v][b] : fld.new[v][b][i] \in (0 - 3000)..3000
Refill(k) == \E w \in {Rnd({"new", "pre", "cur"}, k)} : \E v \in {Rnd(1..2, k)} : \E g \in {TLCEval([b \in Boxes |-> Nums(SizeOf(n[b]), (0 - 9)..9)])} :
   /\ fld' = [fld EXCEPT ![w][v] = g] /\ Note("fill", <<w, v - 1>>, g) /\ UNCHANGED <<on, lists, saved, phase>>
Settle(k) == \E g \in {[v \in 1..2 |-> TLCEval([b \in Boxes |-> Nums(SizeOf(n[b]), (0 - 9)..9)])]} :
   /\ fld' = [fld EXCEPT !.new = g] /\ Note("fill2", <<>>, g) /\ UNCHANGED <<on, lists, saved, phase>>
Step(k) ==
   IF lists = <<>> \/ (hist[Len(hist)].op = "on" /\ Rnd(1..4, k) > 1) THEN
        /\ lists' = Filled /\ Note("init", <<>>, ShowLists(Filled)) /\ UNCHANGED <<on, fld, saved, phase>>
   ELSE IF ~Tops THEN Settle(k)
   ELSE \E o \in {Rnd({"on", "apply", "apply", "apply", "value", "left", "right", "fill", "init"}, k)} :
    CASE o = "on" -> \E r \in {Subset(Rules, k)} : on' = r /\ Note("on", <<>>, SetToSeq(r)) /\ UNCHANGED <<lists, fld, saved, phase>>
      [] o = "init" -> lists' = Filled /\ Note("init", <<>>, ShowLists(Filled)) /\ UNCHANGED <<on, fld, saved, phase>>
      [] o = "fill" -> Refill(k)
      [] o = "apply" -> \E c \in {Rnd(0..2, k)} : \E t \in {IF "radiative_analytic" \in on /\ ~saved THEN 0 ELSE Rnd({0, 1, 1}, k)} :
           LET fresh == t = 0 /\ "radiative_analytic" \in on
               old == IF fresh THEN fld.pre ELSE fld.old
               g == TLCEval([v \in 1..2 |-> TLCEval([b \in Boxes |-> Apply(b, v, c, old[v][b])])]) IN
           /\ fld' = [fld EXCEPT !.new = g, !.old = old] /\ saved' = (saved \/ fresh) /\ Note("apply", <<c, t>>, g) /\ UNCHANGED <<on, lists, phase>>
      [] o \in {"value", "left", "right"} -> \E v \in {Rnd(1..2, k)} : \E d \in {Rnd(Dirs, k)} : \E x \in {Rnd((0 - 5)..5, k)} :
           \E pl \in {TLCEval([b \in Boxes |-> {i \in (IF o = "value" THEN 0..(SizeOf(n[b]) - 1) ELSE Plane(b, d, IF o = "left" THEN 0 ELSE n[b][d] - 1)) : Rnd(1..2, i) = 1}])} :
           LET g == TLCEval([b \in Boxes |-> IF o = "value" THEN On(pl, b, fld.new[v][b], LAMBDA i : x) ELSE Neumann(pl, b, fld.new[v][b], d, x, o = "right")]) IN
           /\ fld' = [fld EXCEPT !.new[v] = g] /\ Note(o, <<v - 1, d, x, [b \in Boxes |-> Sorted(pl[b])]>>, g) /\ UNCHANGED <<on, lists, saved, phase>>
First == \E r \in {Subset(Rules, 0)} : on' = r /\ Note("on", <<>>, SetToSeq(r)) /\ UNCHANGED <<lists, fld, saved, phase>>
Go == phase = "go" /\ Len(hist) < Calls /\ (IF Len(hist) = 1 THEN First ELSE Step(Len(hist))) /\ UNCHANGED fixed
End == phase = "go" /\ Len(hist) >= Calls /\ phase' = "over" /\ UNCHANGED <<fixed, on, lists, fld, saved, hist>>
Next == Setup \/ Go \/ End
Spec == Init /\ [][Next]_vars
(* ---- properties *)
Op == hist[Len(hist)]
Did(o) == phase = "go" /\ hist # <<>> /\ Op.op = o
(* a set slope is the slope afterwards *)
SlopeIs == (Did("left") \/ Did("right")) => \A b \in Boxes : \A i \in DOMAIN Op.a[4][b] :
   Slope(b, Op.a[2], fld.new[Op.a[1] + 1][b])[Op.a[4][b][i] + 1] = Op.a[3]
(* with von Neumann as the last rule, the slope across the hole is zero *)
NoFlux == (Did("apply") /\ "VonNeumannExcision" \in on /\ "selectedVonNeumannExcision" \notin on) => \A v \in 1..2 : \A i \in lists["Excision"][1] :
   Slope(1, 1, fld.new[v][1])[i + 1] = 0
(* nothing changes but on the lists *)
OnlyLists == [][(Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].op = "apply") =>
   \A v \in 1..2 : \A b \in Boxes : \A i \in DOMAIN fld.new[v][b] :
      i - 1 \notin (lists["radiative"][b] \cup lists["constant"][b] \cup lists["selected"][b] \cup lists["Excision"][b]) => fld'.new[v][b][i] = fld.new[v][b][i]]_vars
Behaviour == [nb |-> nb, n |-> n, coords |-> coords, basis |-> basis, D |-> D, X |-> X, spots |-> Spots, v0 |-> v0, far |-> far, frozen |-> SetToSeq(frozen), chosen |-> SetToSeq(chosen), hist |-> hist]
Report == phase = "over" => PrintT("@@" \o ToJson(Behaviour))
================================================================================
