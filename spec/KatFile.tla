------------------------------ MODULE KatFile -------------------------------
(***************************************************************************)
(* Known-answer files as text: lines "key = value", a vector per block of   *)
(* such lines, blocks separated by blank lines (in responses also by        *)
(* comments).  Stated twice: Blocks, by what a block is; Scan, a reader of  *)
(* one line after another.  MC_Kat shows them equal.                        *)
(***************************************************************************)
EXTENDS Sequences, Naturals, SequencesExt, TLC
\* kinds of lines: "blank", "note", or a field <<key, value>>
IsField(l) == l.kind = "field"
EndsBlock(how, l) == l.kind = "blank" \/ (how = "rsp" /\ l.kind = "note")
\* a block is a maximal run of lines that do not end one
Starts(how, ls) == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : ~EndsBlock(how, ls[i]) /\ (i = 1 \/ EndsBlock(how, ls[i - 1])))
StopOf(how, ls, i) == CHOOSE j \in i..Len(ls) : (j = Len(ls) \/ EndsBlock(how, ls[j + 1])) /\ \A k \in i..j : ~EndsBlock(how, ls[k])
\* the last line of a key counts
Put(v, l) == SelectSeq(v, LAMBDA p : p[1] # l.key) \o << <<l.key, l.val>> >>
FieldsOf(ls, i, j) == FoldLeft(LAMBDA v, k : IF IsField(ls[k]) THEN Put(v, ls[k]) ELSE v, <<>>, [k \in 1..(j - i + 1) |-> i + k - 1])
Named(v, k) == \E i \in 1..Len(v) : v[i][1] = k
Get(v, k) == v[CHOOSE i \in 1..Len(v) : v[i][1] = k][2]
\* a block without a count is no vector
Blocks(how, ls, count) == SelectSeq([n \in 1..Len(Starts(how, ls)) |->
   LET i == Starts(how, ls)[n] IN FieldsOf(ls, i, StopOf(how, ls, i))], LAMBDA v : Named(v, count))
Flush(s, count) == IF Named(s.cur, count) THEN [out |-> Append(s.out, s.cur), cur |-> <<>>] ELSE [s EXCEPT !.cur = <<>>]
Scan(how, ls, count) ==
  LET e == FoldLeft(LAMBDA s, l : IF EndsBlock(how, l) THEN Flush(s, count)
                                  ELSE IF IsField(l) THEN [s EXCEPT !.cur = Put(@, l)] ELSE s,
                    [out |-> <<>>, cur |-> <<>>], ls)
  IN Flush(e, count).out
(* the same fields in any order *)
SameFields(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Named(w, v[i][1]) /\ Get(w, v[i][1]) = v[i][2]
SameVectors(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameFields(a[i], b[i])
(* bytes *)
Blank(c) == c \in {32, 9, 13}
RECURSIVE Trim(_)
Trim(l) == IF l = <<>> THEN l ELSE IF Blank(l[1]) THEN Trim(Tail(l)) ELSE IF Blank(l[Len(l)]) THEN Trim(SubSeq(l, 1, Len(l) - 1)) ELSE l
Texts(t) ==
  LET p == TLCEval(SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = 10))
      q == TLCEval(<<0>> \o p \o (IF Len(t) > 0 /\ t[Len(t)] # 10 THEN <<Len(t) + 1>> ELSE <<>>)) IN
  TLCEval([i \in 1..(Len(q) - 1) |-> TLCEval(Trim(SubSeq(t, q[i] + 1, q[i + 1] - 1)))])
Line(l) ==
  IF l = <<>> THEN [kind |-> "blank"]
  ELSE IF l[1] = 35 THEN [kind |-> "note"]
  ELSE LET e == SelectSeq([i \in 1..(IF Len(l) > 40 THEN 40 ELSE Len(l)) |-> i],
                          LAMBDA i : i > 1 /\ i < Len(l) /\ l[i] = 61 /\ l[i - 1] = 32 /\ l[i + 1] = 32) IN
       IF e = <<>> THEN [kind |-> "note2"]
       ELSE [kind |-> "field", key |-> Trim(SubSeq(l, 1, e[1] - 1)), val |-> Trim(SubSeq(l, e[1] + 1, Len(l)))]
LinesOf(t) == LET x == TLCEval(Texts(t)) IN TLCEval([i \in 1..Len(x) |-> TLCEval(Line(x[i]))])
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 0 - 1
IsHex(v) == Len(v) % 2 = 0 /\ \A i \in 1..Len(v) : HexVal(v[i]) >= 0
UnHex(v) == TLCEval([i \in 1..(Len(v) \div 2) |-> 16 * HexVal(v[2 * i - 1]) + HexVal(v[2 * i])])
IsDec(v) == v # <<>> /\ \A i \in 1..Len(v) : v[i] \in 48..57
UnDec(v) == FoldLeft(LAMBDA s, c : 10 * s + c - 48, 0, v)
=============================================================================
