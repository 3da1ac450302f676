------------------------------ MODULE Tensor --------------------------------
(* Independent components of a tensor with a given index symmetry.           *)
(* An index string is one index letter per slot, with (..) around two slots  *)
(* that are symmetric and [..] around two that are antisymmetric, or a sum   *)
(* of permuted index strings such as ij-ji.  i,j,k,l run over x,y,z;         *)
(* a,b,c over t,x,y,z; q,r,s,t over the two coordinates of a surface.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

LowerC == [c \in {"A","B","C","I","J","K","L","Q","R","S","T"} |->
   CASE c="A"->"a" [] c="B"->"b" [] c="C"->"c" [] c="I"->"i" [] c="J"->"j" [] c="K"->"k" [] c="L"->"l"
     [] c="Q"->"q" [] c="R"->"r" [] c="S"->"s" [] c="T"->"t"]
Ch(s, i) == LET c == SubSeq(s, i, i) IN IF c \in DOMAIN LowerC THEN LowerC[c] ELSE c
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
Kind(c) == CASE c \in {"i","j","k","l"} -> 3 [] c \in {"a","b","c"} -> 4 [] c \in {"q","r","s","t"} -> 2 [] OTHER -> 0
Range4(k) == CASE k = 3 -> 3 [] k = 4 -> 4 [] k = 2 -> 2 [] OTHER -> 1
CoordName(k, x) == CASE k = 3 -> <<"x","y","z">>[x+1] [] k = 4 -> <<"t","x","y","z">>[x+1] [] OTHER -> <<"1","2">>[x+1]

Letters(s) == SelectSeq(Chars(s), LAMBDA c : Kind(c) # 0)
IsSum(s) == \E i \in 1..Len(s) : Ch(s, i) \in {"+", "-"}
(* --- bracket form: set of <<p, q, sign>> of exchangeable slots *)
RECURSIVE Pairs(_, _, _)
Pairs(cs, i, slot) ==
  IF i > Len(cs) THEN {}
  ELSE IF cs[i] \in {"(", "["} THEN {<<slot + 1, slot + 2, IF cs[i] = "(" THEN 1 ELSE -1>>} \cup Pairs(cs, i + 1, slot)
  ELSE Pairs(cs, i + 1, IF Kind(cs[i]) # 0 THEN slot + 1 ELSE slot)
Swapped(t, ex) == [p \in DOMAIN t |-> IF \E e \in ex : e[1] = p THEN t[(CHOOSE e \in ex : e[1] = p)[2]]
                                      ELSE IF \E e \in ex : e[2] = p THEN t[(CHOOSE e \in ex : e[2] = p)[1]] ELSE t[p]]
RECURSIVE Sgn(_)
Sgn(ex) == IF ex = {} THEN 1 ELSE LET e == CHOOSE e \in ex : TRUE IN e[3] * Sgn(ex \ {e})
(* images of tuple t under the symmetry, with their signs *)
ImagesB(s, t) == {<<Swapped(t, ex), Sgn(ex)>> : ex \in SUBSET Pairs(Chars(s), 1, 0)}
(* --- sum form: each term after the first is a permutation of the first *)
RECURSIVE TermsAcc(_, _, _)
TermsAcc(cs, cur, sgn) ==
  IF cs = <<>> THEN <<[w |-> cur, s |-> sgn]>>
  ELSE IF cs[1] \in {"+", "-"} THEN <<[w |-> cur, s |-> sgn]>> \o TermsAcc(Tail(cs), <<>>, IF cs[1] = "+" THEN 1 ELSE -1)
  ELSE TermsAcc(Tail(cs), Append(cur, cs[1]), sgn)
Terms(s) == TermsAcc(Chars(s), <<>>, 1)
Slots(s) == IF IsSum(s) THEN Terms(s)[1].w ELSE Letters(s)
PosIn(w, c) == CHOOSE i \in 1..Len(w) : w[i] = c
ImagesS(s, t) == LET T == Terms(s) w == T[1].w IN
   {<<[p \in DOMAIN t |-> t[PosIn(w, T[m].w[p])]], T[m].s>> : m \in 1..Len(T)}
Images(s, t) == IF IsSum(s) THEN ImagesS(s, t) ELSE ImagesB(s, t)

RECURSIVE LexLe(_, _)
LexLe(u, v) == u = <<>> \/ u[1] < v[1] \/ (u[1] = v[1] /\ LexLe(Tail(u), Tail(v)))
Independent(s, t) == \A m \in Images(s, t) : LexLe(t, m[1]) /\ (m[1] = t => m[2] = 1)
(* all index tuples in lexicographic order *)
RECURSIVE Tuples(_)
Tuples(ks) == IF ks = <<>> THEN <<<<>>>>
  ELSE LET r == Tuples(Tail(ks)) n == Range4(Head(ks)) m == Len(r)
       IN [q \in 1..(n * m) |-> <<(q - 1) \div m>> \o r[((q - 1) % m) + 1]]
Kinds(s) == [i \in 1..Len(Slots(s)) |-> Kind(Slots(s)[i])]
RECURSIVE Suffix(_, _)
Suffix(ks, t) == IF ks = <<>> THEN "" ELSE CoordName(ks[1], t[1]) \o Suffix(Tail(ks), Tail(t))
Flips(k, x, d) == (k = 3 /\ x = d) \/ (k = 4 /\ x = d + 1)
Parity(ks, t, d) == IF Cardinality({p \in 1..Len(ks) : Flips(ks[p], t[p], d)}) % 2 = 0 THEN 1 ELSE -1
(* parities of components with surface indices are not fixed by sgrid's documentation *)
Par(ks, t) == IF \E p \in 1..Len(ks) : ks[p] = 2 THEN <<0, 0, 0>> ELSE <<Parity(ks, t, 0), Parity(ks, t, 1), Parity(ks, t, 2)>>
Components(s) == LET ks == Kinds(s) IN
  [i \in 1..Len(SelectSeq(Tuples(ks), LAMBDA t : Independent(s, t))) |->
     LET t == SelectSeq(Tuples(ks), LAMBDA u : Independent(s, u))[i] IN [suf |-> Suffix(ks, t), par |-> Par(ks, t)]]

Supported == {"", "i", "ij", "(ij)", "ij+ji", "[ij]", "ij-ji", "ijk", "i(jk)", "ijk+ikj", "(ij)k", "ijk+jik", "[ij]k", "ijk-jik",
  "ijkl", "(ij)(kl)", "ijkl+ijlk+jikl+jilk", "a", "ab", "ai", "(ab)", "ab+ba", "a(bc)", "abc+acb", "a(ij)", "aij+aji",
  "(ab)c", "abc+bac", "(ab)i", "abi+bai", "(ab)(ij)", "abij+abji+baij+baji", "q", "qr", "(qr)", "qr+rq", "(qr)s", "qrs+rqs",
  "(qr)(st)", "qrst+qrts+rqst+rqts", "iq", "iqr", "i(qr)", "iqr+irq"}
Upper == {"I", "Ij", "(IJ)", "Ij+jI", "A(bc)", "iJK+iKJ"}
LowerS(s) == LET RECURSIVE L(_) L(i) == IF i > Len(s) THEN "" ELSE Ch(s, i) \o L(i + 1) IN L(1)
Accepted(s) == LowerS(s) \in Supported
Unsupported == {"x", "ia", "ji", "(ij", "ij+", "abcd", "{ij}", " ", "i j", "[ab]", "qi", "+"}
(* the two ways of writing a symmetry mean the same components *)
Synonyms == {<<"(ij)","ij+ji">>, <<"[ij]","ij-ji">>, <<"i(jk)","ijk+ikj">>, <<"(ij)k","ijk+jik">>, <<"[ij]k","ijk-jik">>,
  <<"(ij)(kl)","ijkl+ijlk+jikl+jilk">>, <<"(ab)","ab+ba">>, <<"a(bc)","abc+acb">>, <<"a(ij)","aij+aji">>, <<"(ab)c","abc+bac">>,
  <<"(ab)i","abi+bai">>, <<"(ab)(ij)","abij+abji+baij+baji">>, <<"(qr)","qr+rq">>, <<"(qr)s","qrs+rqs">>,
  <<"(qr)(st)","qrst+qrts+rqst+rqts">>, <<"i(qr)","iqr+irq">>}
(* every tuple is, up to sign, one independent component, or vanishes *)
Complete(s) == \A i \in 1..Len(Tuples(Kinds(s))) : LET t == Tuples(Kinds(s))[i] IN
   Cardinality({m[1] : m \in {x \in Images(s, t) : Independent(s, x[1])}}) = 1 \/ \E m \in Images(s, t) : m[1] = t /\ m[2] = -1
=============================================================================
