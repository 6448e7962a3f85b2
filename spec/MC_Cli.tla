------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* The command line tool as a machine over three files: the private key,   *)
(* the public key and the last signature.  Generating a key replaces both  *)
(* key files; older files may be put back at any time.                     *)
(* A signature is [k, v, m]: the key, its version, the message.  What it   *)
(* was made with is a stream derived from the absorbed inputs: their       *)
(* blocks of Rate symbols, and the rest as well if Flip; Absorbed says     *)
(* which inputs are among them.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Versions, NMsgs, Rate, Flip, Absorbed, MaxLen, MaxKeys, Emit
VARIABLES sk, pk, sig, keys, sigs, hist, last
Msgs == {<<<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a", "b">>>>[i] : i \in 1..NMsgs}
vars == <<sk, pk, sig, keys, sigs, hist, last>>
None == [k |-> 0, v |-> "", m |-> <<>>]
Init == sk = 0 /\ pk = 0 /\ sig = None /\ keys = <<>> /\ sigs = <<>> /\ hist = <<>> /\ last = ""
Rec(x, o) == hist' = Append(hist, x) /\ last' = o
Gen == /\ Len(keys) < MaxKeys
       /\ \E v \in Versions : keys' = Append(keys, v) /\ Rec(<<"gen", v>>, "")
       /\ sk' = Len(keys) + 1 /\ pk' = Len(keys) + 1 /\ UNCHANGED <<sig, sigs>>
Sign == /\ sk # 0
        /\ \E m \in Msgs : LET s == [k |-> sk, v |-> keys[sk], m |-> m] IN
             sig' = s /\ sigs' = Append(sigs, s) /\ Rec(<<"sign", m>>, "")
        /\ UNCHANGED <<sk, pk, keys>>
\* older files
OldPk == \E i \in 1..Len(keys) : i # pk /\ pk' = i /\ Rec(<<"usepk", i>>, "") /\ UNCHANGED <<sk, sig, keys, sigs>>
OldSk == \E i \in 1..Len(keys) : i # sk /\ sk' = i /\ Rec(<<"usesk", i>>, "") /\ UNCHANGED <<pk, sig, keys, sigs>>
OldSig == \E i \in 1..Len(sigs) : sigs[i] # sig /\ sig' = sigs[i] /\ Rec(<<"put", i>>, "") /\ UNCHANGED <<sk, pk, keys, sigs>>
Accept(m) == sig.k = pk /\ sig.m = m
Verify == /\ pk # 0 /\ sig # None
          /\ \E m \in Msgs : Rec(<<"verify", m>>, IF Accept(m) THEN "valid" ELSE "invalid")
          /\ UNCHANGED <<sk, pk, sig, keys, sigs>>
Chain == /\ pk # 0 /\ sig # None /\ keys[pk] # "falconrec"
         /\ \E m \in Msgs : Rec(<<"chain", m>>, IF Accept(m) THEN "valid" ELSE "invalid")
         /\ UNCHANGED <<sk, pk, sig, keys, sigs>>
Next == Len(hist) < MaxLen /\ (Gen \/ Sign \/ OldPk \/ OldSk \/ OldSig \/ Verify \/ Chain)
\* the stream a signature is made with: a function of what was absorbed
Secret(k) == <<"secret", ToString(k)>>
Public(k) == <<"public", ToString(k)>>
Input(s) == (IF "version" \in Absorbed THEN << <<"version", s.v>> >> ELSE <<>>)
            \o (IF "public" \in Absorbed THEN <<Public(s.k)>> ELSE <<>>)
            \o (IF "secret" \in Absorbed THEN <<Secret(s.k)>> ELSE <<>>)
            \o [i \in 1..Len(s.m) |-> <<"data", s.m[i]>>]
Kept(x) == IF Flip THEN x ELSE SubSeq(x, 1, (Len(x) \div Rate) * Rate)
Stream(s) == Kept(Input(s))
\* two signatures share their randomness only if they are the same signature
Distinct == \A i, j \in 1..Len(sigs) : Stream(sigs[i]) = Stream(sigs[j]) => sigs[i] = sigs[j]
\* the randomness of a signature depends on its private key
Hidden == \A i \in 1..Len(sigs) : \E j \in 1..Len(Stream(sigs[i])) : Stream(sigs[i])[j] = Secret(sigs[i].k)
\* a fresh signature under the fresh pair is valid, and no other message is
Complete == (last = "invalid" /\ sk = pk /\ sigs # <<>> /\ sig = sigs[Len(sigs)] /\ sig.k = pk) => hist[Len(hist)][2] # sig.m
Sound == last = "valid" => \E i \in 1..Len(sigs) : sigs[i].k = pk /\ sigs[i].m = hist[Len(hist)][2]
Useful == /\ Len(hist) = MaxLen /\ hist[MaxLen][1] \in {"verify", "chain"}
          /\ Cardinality({hist[i] : i \in 1..MaxLen}) = MaxLen
Out == Emit /\ Useful => PrintT("BEHAV " \o ToJson([h |-> hist, o |-> last]))
=============================================================================
