------------------------------ MODULE ParFile -------------------------------
(* The parameter file as a stream of pieces and the parameter data base it   *)
(* leaves behind.  The lexer is a transition system over single characters;  *)
(* reading a file is one atomic step that merges its assignments.            *)
EXTENDS ParVal, Json, FiniteSets
CONSTANTS Pieces,     \* texts a file is composed of ("@S990" = 990 blanks, "@N20" = 20 newlines)
          MaxPieces,  \* pieces per file
          MaxReads    \* files read one after the other
VARIABLES file,       \* pieces written so far
          lx,         \* lexer state: [com, word, lex, glue, bad]
          db,         \* <<name, value>> pairs in order of first appearance
          hist        \* files read and the data base after each
vars == <<file, lx, db, hist>>

White == {" ", "\n", "\t", "\r", "\""}
(* glue: the current (or last) word follows "=" immediately; such a word is a *)
(* value and cannot be a name, so "a=b=" is malformed (bad).                  *)
Lex0 == [com |-> FALSE, word |-> "", lex |-> <<>>, glue |-> FALSE, bad |-> FALSE]
LastIsEq(s) == s.lex # <<>> /\ s.lex[Len(s.lex)] = "="
Flush(s) == IF s.word = "" THEN s ELSE [s EXCEPT !.lex = Append(@, s.word), !.word = ""]
Sep(s) == IF s.word = "" /\ LastIsEq(s) THEN [s EXCEPT !.glue = FALSE] ELSE Flush(s)
LexChar(s, c) ==
  IF s.com THEN (IF c = "\n" THEN [s EXCEPT !.com = FALSE] ELSE s)
  ELSE IF c = "#" THEN [Sep(s) EXCEPT !.com = TRUE]
  ELSE IF c \in White THEN Sep(s)
  ELSE IF c = "=" THEN LET f == Flush(s) IN
       [f EXCEPT !.lex = Append(@, "="), !.glue = TRUE,
                 !.bad = @ \/ f.glue \/ LastIsEq(f) \/ f.lex = <<>> \/ (Len(f.lex) > 1 /\ f.lex[2] # "=")]
  ELSE IF s.word = "" THEN [s EXCEPT !.word = c, !.glue = @ /\ LastIsEq(s)]
  ELSE [s EXCEPT !.word = @ \o c]
RECURSIVE LexStr(_, _)
LexStr(s, p) == IF p = "" THEN s ELSE LexStr(LexChar(s, Ch(p, 1)), SubSeq(p, 2, Len(p)))
IsPad(p) == Len(p) > 1 /\ Ch(p, 1) = "@"
LexPiece(s, p) == IF IsPad(p) THEN LexChar(s, IF Ch(p, 2) = "N" THEN "\n" ELSE " ") ELSE LexStr(s, p)

(* every "=" follows a name, and no word stands before the first name        *)
Dead(s) == s.bad \/ (Len(s.lex) > 1 /\ s.lex[2] # "=")
WellFormed(s) == ~Dead(s) /\ (s.lex # <<>> => Len(s.lex) > 1)

RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))
(* assignments: name = the word before "=", value = words up to the next name *)
RECURSIVE Assigns(_)
Assigns(l) ==
  IF l = <<>> THEN <<>>
  ELSE LET eqs == {i \in 3..Len(l) : l[i] = "="}
           nx  == IF eqs = {} THEN Len(l) + 1 ELSE (CHOOSE i \in eqs : \A j \in eqs : i <= j) - 1
       IN <<<<l[1], Join(SubSeq(l, 3, nx - 1))>>>> \o Assigns(SubSeq(l, nx, Len(l)))

RECURSIVE Merge(_, _)
Merge(d, as) ==
  IF as = <<>> THEN d
  ELSE LET n == as[1][1]  v == Translate(as[1][2])
           k == {i \in 1..Len(d) : d[i][1] = n}
       IN Merge(IF k = {} THEN Append(d, <<n, v>>) ELSE [i \in 1..Len(d) |-> IF i \in k THEN <<n, v>> ELSE d[i]], Tail(as))

LexNow == Flush(lx).lex

Init == file = <<>> /\ lx = Lex0 /\ db = <<>> /\ hist = <<>>
Write(p) == /\ Len(file) < MaxPieces /\ Len(hist) < MaxReads
            /\ file' = Append(file, p) /\ lx' = LexPiece(lx, p) /\ ~Dead(lx') /\ UNCHANGED <<db, hist>>
Read == /\ Len(hist) < MaxReads /\ file # <<>> /\ WellFormed(Flush(lx))
        /\ db' = Merge(db, Assigns(LexNow))
        /\ hist' = Append(hist, [file |-> file, db |-> db'])
        /\ file' = <<>> /\ lx' = Lex0
(* the author gives up on a file that cannot be completed *)
Discard == Len(file) = MaxPieces /\ ~WellFormed(Flush(lx)) /\ file' = <<>> /\ lx' = Lex0 /\ UNCHANGED <<db, hist>>
Next == Discard \/ (\E p \in Pieces : Write(p)) \/ Read
Spec == Init /\ [][Next]_vars

(* ----- properties of the specification itself ---------------------------- *)
UniqueNames == \A i, j \in 1..Len(db) : db[i][1] = db[j][1] => i = j
CleanValues == \A i \in 1..Len(db) : \A c \in {"=", "#", "\"", "\n", "\t"} : ~IsSub(c, db[i][2]) /\ ~IsSub(c, db[i][1])
(* layout at the end of the file does not matter *)
LayoutFree == ~lx.com => \A c \in White \cup {"#"} : Flush(LexChar(lx, c)).lex = LexNow
(* printing the data base and reading it again reproduces it *)
RECURSIVE PrintDB(_)
PrintDB(d) == IF d = <<>> THEN "" ELSE d[1][1] \o " = " \o d[1][2] \o "\n" \o PrintDB(Tail(d))
RoundTrip == Merge(<<>>, Assigns(Flush(LexStr(Lex0, PrintDB(db))).lex)) = db
(* every assignment read last is the one in force, in all later reads no name is lost *)
NothingLost == [][\A i \in 1..Len(db) : \E j \in 1..Len(db') : db'[j][1] = db[i][1]]_db

(* ----- vocabularies ------------------------------------------------------ *)
CharPieces == {"a", "b", "=", "#", "\"", " ", "\n"}
WordPieces == {"alpha", "b", "x_1", "=", " = ", "= ", " =", " ", "\n", "\t", "\r\n", "  \n\n ", "# c = d\n", "#", "\"",
  "1", "-2.5e3", "yes", "pi", "2*pi", "some/path.par", "ADM:b[0]", "@S989", "@S1003", "@N996", "@S500", "@N2001",
  "# long comment \"with quotes\" and name = value # twice\n", "name with"}
(* ----- behaviours for the implementation --------------------------------- *)
Emit == Len(hist) = MaxReads => PrintT("@@" \o ToJson(hist))
=============================================================================
