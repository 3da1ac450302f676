-------------------------------- MODULE Faces --------------------------------
(* Lists of boundary faces on the boxes of two grids: adding, filling,        *)
(* removing, copying, numbering and marking faces.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS NG, NB, Shape,  \* grids, boxes per grid, <<n1,n2,n3>> of every box
          Kinds,          \* per box <<type of coordinates, domain>>
          Fs, Pts,        \* box sides and points used
          MaxFaces, MaxPts, MaxHist, Mode, Groups
VARIABLES g,              \* g[k][b]: sequence of faces
          off,            \* g[k]: set of boxes switched off
          hist
vars == <<g, off, hist>>
state == <<g, off>>
Shape1 == <<2, 1, 1>>
Shape2 == <<3, 2, 4>>
KindsC == <<<<0, 0>>, <<0, 0>>>>
KindsD == <<<<0, 1>>, <<1, 0>>, <<2, 4>>, <<3, 1>>, <<4, 5>>, <<5, 5>>>>
Boxes == 1..NB
None == [k |-> "none", S |-> {}]
Empty(f) == [f |-> f, ob |-> -1, ofi |-> None, has |-> FALSE, pts |-> <<>>, outer |-> FALSE, snd |-> FALSE, touch |-> FALSE]
Keep(h) == IF Mode = "edges" THEN <<>> ELSE h
Live == Len(hist) < MaxHist
Log(op, args, ret) == hist' = Append(Keep(hist), [op |-> op, args |-> args, ret |-> ret, g |-> g'])
Same == UNCHANGED off
Active(k) == SelectSeq([b \in Boxes |-> b], LAMBDA b : b \notin off[k])
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Idx(i, j, k) == i + Shape[1] * (j + Shape[2] * k)
Plane(f) == LET d == f \div 2 + 1  p == (Shape[d] - 1) * (f % 2)
                r(q) == IF d = q THEN <<p>> ELSE [x \in 1..Shape[q] |-> x - 1]
                c == [q \in 1..3 |-> r(q)]
                n1 == Len(c[1])  n2 == Len(c[2])  n3 == Len(c[3])
            IN [m \in 1..(n1 * n2 * n3) |-> Idx(c[1][((m-1) % n1) + 1], c[2][(((m-1) \div n1) % n2) + 1], c[3][((m-1) \div (n1 * n2)) + 1])]
PutAll(face, ps, f) == [face EXCEPT !.has = (face.has \/ ps # <<>>), !.pts = @ \o ps, !.f = IF ps = <<>> \/ @ = f THEN @ ELSE -1]
(* ---- faces one by one *)
Room(k, b) == Len(g[k][b]) < MaxFaces
AddFace(k, b, f) == Live /\ Room(k, b) /\ g' = [g EXCEPT ![k][b] = Append(@, Empty(f))] /\ Same /\ Log("bfadd", <<k, b - 1, f>>, ToString(Len(g[k][b])))
AddPoint(k, b, fi, p, f) == Live /\ LET new == fi < 0 \/ fi >= Len(g[k][b])
                                       s == IF new THEN Append(g[k][b], Empty(f)) ELSE g[k][b]
                                       i == IF new THEN Len(s) ELSE fi + 1
  IN (new => Room(k, b)) /\ Len(s[i].pts) < MaxPts /\ g' = [g EXCEPT ![k][b] = [s EXCEPT ![i] = PutAll(@, <<p>>, f)]] /\ Same
     /\ Log("bfpoint", <<k, b - 1, fi, p, f>>, ToString(i - 1))
RemoveFace(k, b, fi) == Live /\ LET ok == fi >= 0 /\ fi < Len(g[k][b]) IN
  g' = [g EXCEPT ![k][b] = IF ok THEN DropAt(@, fi + 1) ELSE @] /\ Same /\ Log("bfremove", <<k, b - 1, fi>>, IF ok THEN "1" ELSE "0")
RemoveEmpty(k, b) == Live /\ g' = [g EXCEPT ![k][b] = SelectSeq(@, LAMBDA x : x.has)] /\ Same
  /\ Log("bfremovenull", <<k, b - 1>>, ToString(Len(g[k][b]) - Len(g'[k][b])))
FreeAll(k, b) == Live /\ g' = [g EXCEPT ![k][b] = <<>>] /\ Same /\ Log("bffree", <<k, b - 1>>, "ok")
(* a module notes which box is on the other side *)
SetOther(k, b, fi, ob) == Live /\ fi < Len(g[k][b]) /\ ob # b /\ g' = [g EXCEPT ![k][b][fi + 1].ob = IF ob = 0 THEN -1 ELSE ob - 1] /\ Same /\ Log("bfother", <<k, b - 1, fi, IF ob = 0 THEN -1 ELSE ob - 1>>, "ok")
(* two faces that have been found to touch *)
Link(k, b, fi, c, fj) == Live /\ b < c /\ fi < Len(g[k][b]) /\ fj < Len(g[k][c]) /\ g[k][b][fi+1].ob = -1 /\ g[k][c][fj+1].ob = -1
  /\ g' = [g EXCEPT ![k][b][fi + 1] = [@ EXCEPT !.ob = c - 1, !.ofi = [k |-> "one", S |-> {fj}], !.touch = TRUE],
                    ![k][c][fj + 1] = [@ EXCEPT !.ob = b - 1, !.ofi = [k |-> "one", S |-> {fi}], !.touch = TRUE]]
  /\ Same /\ Log("bflink", <<k, b - 1, fi, c - 1, fj>>, "ok")
(* ---- whole sides and whole grids *)
OuterSide(k, b, f) == Live /\ Room(k, b) /\ g' = [g EXCEPT ![k][b] = Append(@, [PutAll(Empty(f), Plane(f), f) EXCEPT !.outer = TRUE])] /\ Same
  /\ Log("bfouterside", <<k, b - 1, f>>, "0")
MarkOuter(k) == Live /\ g' = [g EXCEPT ![k] = [b \in Boxes |-> IF b \in off[k] THEN g[k][b] ELSE [i \in 1..Len(g[k][b]) |-> IF g[k][b][i].ob = -1 THEN [g[k][b][i] EXCEPT !.outer = TRUE] ELSE g[k][b][i]]]]
  /\ Same /\ Log("bfmarkouter", <<k>>, "0")
FillOuter(k, b0, nb) == Live /\ (\A b \in b0..(b0 + nb - 1) : \A i \in 1..Len(g[k][b]) : i <= 6 /\ g[k][b][i].f = i - 1)
  /\ g' = [g EXCEPT ![k] = [b \in Boxes |-> IF b \in b0..(b0 + nb - 1) THEN [i \in 1..Len(g[k][b]) |->
       IF g[k][b][i].ob = -1 THEN [PutAll(g[k][b][i], Plane(i - 1), i - 1) EXCEPT !.outer = TRUE] ELSE g[k][b][i]] ELSE g[k][b]]]
  /\ Same /\ Log("bffillouter", <<k, b0 - 1, nb>>, "ok")
(* number of the other face, or the set of numbers if there are several *)
Refers(k, ob, b) == SelectSeq([i \in 1..Len(g[k][ob]) |-> i - 1], LAMBDA i : g[k][ob][i + 1].ob = b - 1)
Note(cur, j) == CASE cur.k = "none" -> [k |-> "one", S |-> {j}]
                  [] cur.k = "one" /\ cur.S = {j} -> cur
                  [] OTHER -> [k |-> "many", S |-> cur.S \cup {j}]
Number(k) == Live
  /\ g' = [g EXCEPT ![k] = [b \in Boxes |-> IF b \in off[k] THEN g[k][b] ELSE [i \in 1..Len(g[k][b]) |->
       IF g[k][b][i].ob < 0 THEN g[k][b][i] ELSE [g[k][b][i] EXCEPT !.ofi = FoldLeft(Note, @, Refers(k, g[k][b][i].ob + 1, b))]]]]
  /\ Same /\ Log("bfnumber", <<k>>, "0")
ZeroSnd(gg, k) == [gg EXCEPT ![k] = [b \in Boxes |-> IF b \in off[k] THEN gg[k][b] ELSE [i \in 1..Len(gg[k][b]) |-> [gg[k][b][i] EXCEPT !.snd = FALSE]]]]
ClearSnd(k) == Live /\ g' = ZeroSnd(g, k) /\ Same /\ Log("bfzerosnd", <<k>>, "0")
(* ---- of two touching faces one takes the field, the other the normal derivative *)
Faces(gg, k) == FoldLeft(LAMBDA s, b : s \o [i \in 1..Len(gg[k][b]) |-> <<b, i>>], <<>>, Active(k))
One(x) == x.ob >= 0 /\ x.ofi.k = "one"
Other(x) == <<x.ob + 1, (CHOOSE j \in x.ofi.S : TRUE) + 1>>
InRange(gg, k) == \A b \in Boxes : \A i \in 1..Len(gg[k][b]) : LET x == gg[k][b][i] IN One(x) => LET o == Other(x) IN o[2] <= Len(gg[k][o[1]]) /\ (x.touch => gg[k][o[1]][o[2]].touch)
Mutual(gg, k, p) == LET x == gg[k][p[1]][p[2]]  o == Other(x)  y == gg[k][o[1]][o[2]] IN y.ofi.k = "one" /\ y.ofi.S = {p[2] - 1}
Consistent(gg, k, ord) == FoldLeft(LAMBDA h, p : LET x == h[k][p[1]][p[2]] IN
   IF ~One(x) \/ ~x.touch THEN h ELSE LET o == Other(x) IN
   IF Mutual(h, k, p) /\ ord # 2 THEN [h EXCEPT ![k][o[1]][o[2]].snd = ~x.snd]
   ELSE [h EXCEPT ![k][p[1]][p[2]].snd = ~h[k][o[1]][o[2]].snd], gg, Faces(gg, k))
Toggle(gg, k, Sel(_, _)) == FoldLeft(LAMBDA h, p : LET x == h[k][p[1]][p[2]] IN
   IF ~Sel(h, p) THEN h ELSE LET h1 == [h EXCEPT ![k][p[1]][p[2]].snd = ~@] IN
   IF ~One(x) \/ ~x.touch \/ ~Mutual(h, k, p) THEN h1 ELSE LET o == Other(x) IN [h1 EXCEPT ![k][o[1]][o[2]].snd = x.snd], gg, Faces(gg, k))
SelCube(k, h, p) == Kinds[p[1]][1] = 0 /\ h[k][p[1]][p[2]].f \in {4, 5}
SelCub(k, h, p) == Kinds[p[1]][1] \in 1..4 /\ One(h[k][p[1]][p[2]]) /\ <<Kinds[p[1]][2], Kinds[Other(h[k][p[1]][p[2]])[1]][2]>> \in {<<0, 4>>, <<1, 5>>}
Flags(k, ord) == Live /\ InRange(g, k)
  /\ LET a == IF ord > 0 THEN ZeroSnd(g, k) ELSE g
         c == Consistent(a, k, ord)
         d == IF ord >= 3 THEN Toggle(c, k, LAMBDA h, p : SelCube(k, h, p)) ELSE c
         e == IF ord = 4 THEN Toggle(d, k, LAMBDA h, p : SelCub(k, h, p)) ELSE d
     IN g' = e /\ Same /\ Log("bfflags", <<k, ord>>, "0")
(* ---- neighbours *)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Add(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
Neigh(k, b) == FoldLeft(LAMBDA s, x : IF x.ob < 0 THEN s ELSE Add(s, x.ob), <<>>, g[k][b])
Without(s, t) == SelectSeq(s, LAMBDA x : ~Has(t, x))
Neigh2(k, b) == Without(FoldLeft(LAMBDA s, c : FoldLeft(Add, s, Neigh(k, c + 1)), <<>>, Neigh(k, b)), Append(Neigh(k, b), b - 1))
Ask(k, b) == Live /\ UNCHANGED state /\ Log("bfneigh", <<k, b - 1>>, <<Neigh(k, b), Neigh2(k, b)>>)
(* ---- copies *)
Copy(k, m) == Live /\ k # m /\ g' = [g EXCEPT ![m] = g[k]] /\ off' = [off EXCEPT ![m] = off[k]] /\ Log("copywithout", <<k, m>>, "ok")
Switch(k, b) == Live /\ UNCHANGED g /\ off' = [off EXCEPT ![k] = IF b \in @ THEN @ \ {b} ELSE @ \cup {b}] /\ Log(IF b \in off[k] THEN "act" ELSE "deact", <<k, <<b - 1>>>>, "ok")

Init == g = [k \in 1..NG |-> [b \in Boxes |-> <<>>]] /\ off = [k \in 1..NG |-> {}] /\ hist = <<>>
G(x) == x \in Groups
Pick(X) == IF Mode = "random" /\ X # {} THEN {RandomElement(X)} ELSE X
Fi == Pick(0..(MaxFaces - 1))
Op(k, b) ==
  \/ G("add") /\ (\E f \in Pick(Fs) : AddFace(k, b, f))
  \/ G("point") /\ (\E f \in Pick(Fs), p \in Pick(Pts), fi \in Pick(-1..(MaxFaces - 1)) : AddPoint(k, b, fi, p, f))
  \/ G("remove") /\ ((\E fi \in Pick(-1..MaxFaces) : RemoveFace(k, b, fi)) \/ RemoveEmpty(k, b))
  \/ G("free") /\ FreeAll(k, b)
  \/ G("other") /\ (\E fi \in Fi, ob \in Pick(0..NB) : SetOther(k, b, fi, ob))
  \/ G("link") /\ (\E fi \in Fi, fj \in Fi, c \in Pick(Boxes) : Link(k, b, fi, c, fj))
  \/ G("side") /\ (\E f \in Pick(0..5) : OuterSide(k, b, f))
  \/ G("ask") /\ Ask(k, b)
  \/ G("switch") /\ Switch(k, b)
Grid(k) ==
  \/ G("mark") /\ MarkOuter(k)
  \/ G("fill") /\ (\E b \in Pick(Boxes) : \E nb \in Pick(1..(NB - b + 1)) : FillOuter(k, b, nb))
  \/ G("number") /\ Number(k)
  \/ G("flags") /\ (ClearSnd(k) \/ \E ord \in Pick(0..4) : Flags(k, ord))
  \/ G("copy") /\ (\E m \in Pick(1..NG) : Copy(k, m))
Next == /\ \E k \in Pick(1..NG) : Grid(k) \/ \E b \in Pick(Boxes) : Op(k, b)
        /\ CASE Mode = "edges" -> PrintT("@@" \o ToJson([f |-> state, e |-> hist'[Len(hist')], t |-> <<g', off'>>]))
             [] Mode = "random" -> (Len(hist') = MaxHist => PrintT("@@" \o ToJson(hist')))
             [] OTHER -> TRUE
Spec == Init /\ [][Next]_vars
(* ---- properties *)
L == hist'[Len(hist')]
Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* an operation on one face leaves every other face as it is *)
OnlyThat == [][ L.op \in {"bfpoint", "bfremove", "bfadd", "bfouterside"} => \A k \in 1..NG, b \in Boxes :
   IF k = L.args[1] /\ b = L.args[2] + 1
   THEN LET fi == IF L.op \in {"bfpoint", "bfremove"} THEN L.args[3] + 1 ELSE 0 IN
        \A i \in 1..Len(g[k][b]) : i # fi => \E j \in 1..Len(g'[k][b]) : g'[k][b][j] = g[k][b][i] /\ (L.op # "bfremove" => j = i)
   ELSE g'[k][b] = g[k][b] ]_vars
(* numbering faces that have a single partner makes the partners refer to each other *)
Fresh(k) == \A b \in Boxes : \A i \in 1..Len(g[k][b]) : g[k][b][i].ofi = None
Mutually == [][ L.op = "bfnumber" => LET k == L.args[1] IN (Fresh(k) /\ off[k] = {}) =>
   \A b \in Boxes : \A i \in 1..Len(g'[k][b]) : LET x == g'[k][b][i] IN x.ofi.k = "one" => LET o == Other(x)  y == g'[k][o[1]][o[2]] IN
      y.ob = b - 1 /\ (i - 1) \in y.ofi.S ]_vars
(* once flags are consistent exactly one of two paired faces sets the derivative *)
RightNumbers(k) == \A b \in Boxes : \A i \in 1..Len(g[k][b]) : One(g[k][b][i]) => g[k][Other(g[k][b][i])[1]][Other(g[k][b][i])[2]].ob = b - 1
Opposite == [][ (L.op = "bfflags" /\ off[L.args[1]] = {} /\ RightNumbers(L.args[1])) => LET k == L.args[1] IN \A b \in Boxes : \A i \in 1..Len(g'[k][b]) : LET x == g'[k][b][i] IN
   (One(x) /\ x.touch /\ Mutual(g', k, <<b, i>>)) => g'[k][Other(x)[1]][Other(x)[2]].snd # x.snd ]_vars
CopyRight == [][ L.op = "copywithout" => g'[L.args[1]] = g[L.args[1]] /\ g'[L.args[2]] = g[L.args[1]] ]_vars
==============================================================================
