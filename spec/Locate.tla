------------------------------ MODULE Locate --------------------------------
(* Where a point of space is on a grid (property P28).

   "grid": axis-parallel boxes, also overlapping and with gaps; places are
   pairs <<q, e>>: q quarters plus a tiny amount, below (e = -1, 1) or above
   (e = -2, 2) what counts as equal; e = 9: not a number.  "cubes": one or two cubes filled with a
   box and two layers of curved boxes, and spheres around them; places are
   triples of 128ths and the box follows from integers alone.
   A behaviour makes a grid, then asks questions one by one; the answers the
   machine gives are the ones the code must give.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family, Asks, Small
VARIABLES conf, hist
vars == <<conf, hist>>
R3 == 1..3
Rnd(S) == RandomElement(S)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Emit1(c, h) == PrintT("@@" \o ToJson([conf |-> c, hist |-> h]))
(* ----------------------------------------------------------- boxes in rows *)
\* direction of a box: basis "p" has n points from lo without hi, basis "c" has three points including both ends
Side(lo, basis, n, step) == [lo |-> lo, basis |-> basis, n |-> n, step |-> step, hi |-> lo + step * (IF basis = "p" THEN n ELSE n - 1)]
RndSide(z) == LET b == Rnd({"p", "c"}) IN Side(Rnd({-8, -4, 0, 4, 8, 1}), b, IF b = "c" THEN 3 ELSE Rnd(3..6), Rnd({2, 4}))
RndBox(z) == TLCEval([d \in R3 |-> RndSide(<<z, d>>)])
Touching(x, z) == LET d == Rnd(R3) IN [x EXCEPT ![d] = Side(x[d].hi, "c", 3, 2)]      \* one that begins where another ends
RndGrid(z) == LET m == Rnd(1..4)  a == TLCEval([k \in 1..m |-> RndBox(k)]) IN
              [k \in 1..m |-> IF k > 1 /\ Rnd({0, 1}) = 0 THEN TLCEval(Touching(a[k-1], k)) ELSE a[k]]
SmallGrids == {<<[d \in R3 |-> s], [d \in R3 |-> IF d = 1 THEN t ELSE s]>> : s \in {Side(0, "c", 3, 2)}, t \in {Side(l, "c", 3, 2) : l \in {-6, -2, 0, 3, 4, 5}}}
At(s, i) == s.lo + s.step * (i - 1)                              \* place of the i-th point
Le(p, q) == p[1] < q \/ (p[1] = q /\ p[2] <= 1)                   \* at most q, as far as one can tell
Ge(p, q) == p[2] # 9 /\ (p[1] > q \/ (p[1] = q /\ p[2] >= -1))           \* a place that is not a number is nowhere
In(b, p) == \A d \in R3 : Ge(p[d], b[d].lo) /\ Le(p[d], b[d].hi)
Round(s, p) == IF p[1] = s.lo /\ p[2] < 0 THEN <<s.lo, 0>> ELSE IF p[1] = s.hi /\ p[2] > 0 THEN <<s.hi, 0>> ELSE p
\* the first box of the list that has the point
Holder(g, l, p) == IF \E i \in 1..Len(l) : In(g[l[i]], p) THEN l[CHOOSE i \in 1..Len(l) : In(g[l[i]], p) /\ \A j \in 1..i-1 : ~In(g[l[j]], p)] ELSE 0
Found(g, l, p) == LET b == Holder(g, l, p) IN IF b = 0 THEN [box |-> -1] ELSE [box |-> b - 1, at |-> [d \in R3 |-> Round(g[b][d], p[d])]]
\* nearest points: the points of a box are a product, so the nearest ones are a product as well
Sq(x) == x * x
Off(s, i, q) == Sq(At(s, i) - q)
Close(s, q, R) == {i \in R : \A j \in R : Off(s, i, q) <= Off(s, j, q)}
Near(b, p, R) == [r2 |-> LET o(d) == Off(b[d], MinOf(Close(b[d], p[d], R[d])), p[d]) IN o(1) + o(2) + o(3), pts |-> [d \in R3 |-> Close(b[d], p[d], R[d])]]
All(b) == [d \in R3 |-> 1..b[d].n]
Inner(b) == [d \in R3 |-> 2..(b[d].n - 1)]
InPlane(b, d, i) == [All(b) EXCEPT ![d] = {i}]
NearAll(g, l, p) == LET r2 == MinOf({Near(g[l[i]], p, All(g[l[i]])).r2 : i \in 1..Len(l)})
                    IN {[box |-> b - 1, r2 |-> r2, pts |-> Near(g[b], p, All(g[b])).pts] : b \in {l[i] : i \in {j \in 1..Len(l) : Near(g[l[j]], p, All(g[l[j]])).r2 = r2}}}
OnFaces(b, p) == {f \in 0..5 : LET s == b[1 + (f \div 2)]  q == p[1 + (f \div 2)]  e == IF f % 2 = 0 THEN s.lo ELSE s.hi IN q[1] = e /\ Abs(q[2]) <= 1}
(* ---- questions *)
Lists(g) == {<<>>} \cup UNION {{<<a>>, <<a, b>>, <<b, a>>} : a \in 1..Len(g), b \in 1..Len(g)}
Some(g, z) == LET m == Rnd(1..4) IN TLCEval([k \in 1..m |-> Rnd(1..Len(g))])
Every(g) == [k \in 1..Len(g) |-> k]
\* places: mostly ends of boxes, and their neighbourhood
RndPlace(g, z) == LET d == z[2]  s == g[Rnd(1..Len(g))][d]  q == Rnd({s.lo, s.hi, s.lo + 1, (s.lo + s.hi) \div 2, Rnd(-14..34)}) IN <<q, IF Rnd(1..40) = 1 THEN 9 ELSE Rnd({-2, -1, 0, 1, 2})>>
RndPt(g, z) == TLCEval(<<RndPlace(g, <<z, 1>>), RndPlace(g, <<z, 2>>), RndPlace(g, <<z, 3>>)>>)
PtIn(b, z) == TLCEval([d \in R3 |-> LET s == b[d] IN <<Rnd({s.lo, s.hi, s.lo, s.hi, s.lo + 1}), Rnd({-2, -1, 0, 0, 1, 2})>>])
Whole(p) == [d \in R3 |-> p[d][1]]
Ask(g, z) == LET o == Rnd({"all", "list", "list", "nall", "nlist", "nbox", "ninner", "nplane", "face", "move"})
                 p == IF Rnd({0, 1}) = 0 THEN RndPt(g, z) ELSE TLCEval(PtIn(g[Rnd(1..Len(g))], z))
                 l == Some(g, z)  b == l[1]  d == Rnd(R3)  i == Rnd(1..g[b][d].n)  q == Whole(p) IN
             CASE o = "all" -> [op |-> o, p |-> p, ans |-> Found(g, Every(g), p)]
               [] o = "list" -> [op |-> o, l |-> l, p |-> p, ans |-> Found(g, l, p)]
               [] o = "nall" -> [op |-> o, q |-> q, near |-> NearAll(g, Every(g), q)]
               [] o = "nlist" -> [op |-> o, l |-> l, q |-> q, near |-> NearAll(g, l, q)]
               [] o = "nbox" -> [op |-> o, b |-> b, q |-> q, near |-> {[box |-> b - 1] @@ Near(g[b], q, All(g[b]))}]
               [] o = "ninner" -> [op |-> o, b |-> b, q |-> q, near |-> {[box |-> b - 1] @@ Near(g[b], q, Inner(g[b]))}]
               [] o = "nplane" -> [op |-> o, b |-> b, d |-> d, i |-> i, q |-> q, near |-> {[box |-> b - 1] @@ Near(g[b], q, InPlane(g[b], d, i))}]
               [] OTHER -> LET c == Rnd(1..Len(g))  x == TLCEval(PtIn(g[c], z)) IN [op |-> o, b |-> c, p |-> x, faces |-> OnFaces(g[c], x)]
(* ------------------------------------------------------------ curved boxes *)
\* what the functions that set up such grids document; lengths in eighths
RndCubes(z) == LET dc == TLCEval(Rnd({5, 6, 8}))  in1 == TLCEval(Rnd(1..2))  in2 == TLCEval(Rnd(1..2))  k == Rnd({13, 26, 32, 38})
                   mid(a) == Rnd({x \in 1..dc - 1 : x * x > 3 * a * a}) IN
               TLCEval([kind |-> k, b0 |-> Rnd({0, 0, 1, 2}), dc |-> dc, din1 |-> in1, dmid1 |-> mid(in1), din2 |-> in2, dmid2 |-> IF k = 13 THEN dc ELSE mid(in2),
                        r0 |-> 4 * dc + Rnd({0, 7}), r1 |-> 9 * dc])
Centre(m, c) == IF m.kind = 13 THEN [d \in R3 |-> 16 * m.dc * d] ELSE [d \in R3 |-> IF d = 1 THEN (IF c = 0 THEN 16 * m.dc ELSE 0 - 16 * m.dc) ELSE 0]     \* in 128ths
Rel(p, x) == [d \in R3 |-> p[d] - x[d]]
Linf(v) == MaxOf({Abs(v[d]) : d \in R3})
Sum2(v) == Sq(v[1]) + Sq(v[2]) + Sq(v[3])
\* the direction in which a place lies, seen from the centre; 0..5 for -x +x -y +y -z +z; -1 on an edge between two
Dirn(v) == LET D == {d \in R3 : \A c \in R3 : Abs(v[c]) <= Abs(v[d])} IN
           IF Cardinality(D) # 1 THEN -1 ELSE LET d == MinOf(D) IN 2 * (d - 1) + (IF v[d] > 0 THEN 1 ELSE 0)
\* box of a place within cube c; none on a surface between boxes
None == -1
Edge == -2
InCube(m, c, v) == LET dout == IF m.kind = 13 THEN m.dmid2 ELSE m.dc  din == IF c = 0 THEN m.din1 ELSE m.din2  mid == IF c = 0 THEN m.dmid1 ELSE m.dmid2 IN
   IF Linf(v) > 16 * dout THEN None
   ELSE IF Linf(v) \in {16 * dout, 16 * din} THEN Edge
   ELSE IF Linf(v) < 16 * din THEN 13 * c
   ELSE IF Sum2(v) = Sq(16 * mid) \/ Dirn(v) = -1 THEN Edge
   ELSE 13 * c + Dirn(v) + (IF Sum2(v) < Sq(16 * mid) THEN 1 ELSE 7)
\* around both cubes, which are twice as wide as they are high
Outer(m, p) == LET w == Dirn(<<p[1], 2 * p[2], 2 * p[3]>>) IN
   IF m.kind < 32 THEN None ELSE IF Sum2(p) = Sq(16 * m.r0) THEN Edge
   ELSE IF Sum2(p) < Sq(16 * m.r0) THEN (IF w = -1 THEN Edge ELSE 26 + w)
   ELSE IF m.kind < 38 \/ Sum2(p) > Sq(16 * m.r1) THEN None ELSE IF Sum2(p) = Sq(16 * m.r1) \/ Dirn(p) = -1 THEN Edge ELSE 32 + Dirn(p)
Place(m, p) == LET a == InCube(m, 0, Rel(p, Centre(m, 0)))  b == IF m.kind = 13 THEN None ELSE InCube(m, 1, Rel(p, Centre(m, 1)))
                   e == IF a # None THEN a ELSE IF b # None THEN b ELSE Outer(m, p) IN
               IF e < 0 THEN e ELSE m.b0 + e
RndDir(z) == TLCEval([d \in R3 |-> Rnd(-16..16)])
RndSpot(m, z) == LET x == Rnd({m.din1, m.dmid1, m.dmid1, m.dc, m.dc, m.dmid2, m.r0, m.r0, m.r1})  c == IF Rnd({0, 1, 2}) = 0 \/ x \in {m.r0, m.r1} THEN [d \in R3 |-> 0] ELSE Centre(m, Rnd({0, 1}))
                     v == RndDir(z)  f == Rnd({0, 6, 10, 12, 14, 16, 18, 20})  k == Rnd(1..8) IN
                 \* also the centre, and places on a diagonal or an axis
                 TLCEval([d \in R3 |-> c[d] + (IF k = 1 THEN v[1] ELSE IF k = 2 /\ d = 2 THEN 0 ELSE v[d]) * ((x * f) \div 16)])
Boxes(m) == m.b0 + m.kind
AskCube(m, z) == LET p == RndSpot(m, z)  w == Place(m, p)
                     l == IF Rnd({0, 1}) = 0 THEN TLCEval([k \in 1..Rnd(1..6) |-> Rnd(0..Boxes(m) - 1)]) ELSE TLCEval([k \in 1..Boxes(m) |-> (k * Rnd({1, 1}) + z) % Boxes(m)])
                     o == Rnd({"all", "list"}) IN
   IF o = "all" THEN [op |-> o, p |-> p, place |-> w, ans |-> w]
   ELSE [op |-> o, l |-> l, p |-> p, place |-> w, ans |-> IF w < 0 THEN w ELSE IF \E i \in 1..Len(l) : l[i] = w THEN w ELSE -1]
(* ------------------------------------------------------------------------- *)
SmallPts == {[d \in R3 |-> IF d = 1 THEN <<x, e>> ELSE <<2, 0>>] : x \in -7..10, e \in {-2, -1, 0, 1, 2}}
Init == hist = <<>> /\ conf = IF Family = "small" THEN 0 ELSE IF Family = "grid" THEN TLCEval(RndGrid(0)) ELSE RndCubes(0)
Next == IF Family = "small" THEN /\ hist = <<>> /\ conf = 0
             /\ \E g \in SmallGrids : \E l \in {<<1, 2>>, <<2, 1>>, <<1>>, <<2>>} :
                conf' = g /\ hist' = [i \in 1..Cardinality(SmallPts) |-> LET p == SetToSeq(SmallPts)[i] IN [op |-> "list", l |-> l, p |-> p, ans |-> Found(g, l, p)]]
        ELSE \/ hist = <<>> /\ conf' = (IF Family = "grid" THEN TLCEval(RndGrid(1)) ELSE RndCubes(1)) /\ hist' = <<[op |-> "made"]>>
             \/ Len(hist) > 0 /\ Len(hist) <= Asks /\ UNCHANGED conf
                /\ \E q \in {IF Family = "grid" THEN Ask(conf, Len(hist)) ELSE AskCube(conf, Len(hist))} : hist' = Append(hist, q)
Spec == Init /\ [][Next]_vars
(* what the answers have in common *)
Answer == hist[Len(hist)]
Truthful == (Family # "cubes" /\ hist # <<>> /\ Answer.op \in {"all", "list"} /\ "ans" \in DOMAIN Answer) =>
   /\ (Answer.ans.box >= 0 => \A d \in R3 : LET s == conf[Answer.ans.box + 1][d]  x == Answer.ans.at[d] IN
           x[1] >= s.lo /\ x[1] <= s.hi /\ ~(x[1] = s.lo /\ x[2] < 0) /\ ~(x[1] = s.hi /\ x[2] > 0) /\ x[1] = Answer.p[d][1])
   /\ (Answer.op = "all" /\ Answer.ans.box < 0 => \A k \in 1..Len(conf) : ~In(conf[k], Answer.p))
Nearest == (Family # "cubes" /\ hist # <<>> /\ "near" \in DOMAIN Answer /\ Answer.op = "nall") =>
   \A r \in Answer.near : \A k \in 1..Len(conf) : \A x \in [R3 -> 1..3] : Sum2([d \in R3 |-> At(conf[k][d], x[d]) - Answer.q[d]]) >= r.r2
Emit == (IF Family = "small" THEN hist # <<>> ELSE Len(hist) = Asks + 1) => Emit1(conf, hist)
===============================================================================
