------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the command line tool against MC_Cli.tla, with         *)
(* signatures, keys and calls to the contracts in full.                    *)
(* sk, pk: the key files in use; sks, pks: all of them; sig: the signature *)
(* file; made: every signature with the basis, version and message it is   *)
(* for; mades: what the bridge gave.                                       *)
(***************************************************************************)
EXTENDS Evm, TraceCheck
CN == 512
NoKey == [version |-> ""]
InitSt(sess) == [sk |-> NoKey, pk |-> NoKey, sks |-> <<>>, pks |-> <<>>, sig |-> <<>>, made |-> <<>>, mades |-> <<>>]
ModeOf(v) == IF v \in {"falcon", "ethfalcon"} THEN "falcon" ELSE IF v = "falconrec" THEN "recovery" ELSE "epervier"
XofOfV(v) == IF v \in {"falcon", "epervier"} THEN "shake" ELSE "keccak"
Basis(k) == <<k.f, k.g, k.F, k.G>>
NtruOk(b) == LET x == TLCEval(MulZ(b[1], b[4]))  y == TLCEval(MulZ(b[2], b[3])) IN
             \A i \in 1..CN : x[i] - y[i] = IF i = 1 THEN Q ELSE 0
KeyOf(v, h) == IF ModeOf(v) = "falcon" THEN h ELSE Address(ModeOf(v), TLCEval(Ntt(h)))
GenWhy(a, r) ==
  IF r.sk.version # a.version \/ r.pk.version # a.version THEN "the key files name another version"
  ELSE IF r.sk.n # CN \/ r.pk.n # CN THEN "the key files name another degree"
  ELSE IF a.basis # <<>> /\ Basis(r.sk) # a.basis THEN "the private key file holds another key"
  ELSE IF ~NtruOk(Basis(r.sk)) THEN "the private key file holds no key"
  ELSE IF r.pk.pk # KeyOf(a.version, Quot(r.sk.g, r.sk.f)) THEN "the public key file does not belong to the private key"
  ELSE ""
\* validity under the key file in use
Valid(k, m, sig) ==
  IF ModeOf(k.version) = "falcon" THEN FalconValid(CN, k.pk, m, sig, XofOfV(k.version))
  ELSE LET r == TLCEval(RecoverAddr(ModeOf(k.version), CN, m, sig, XofOfV(k.version))) IN r # <<>> /\ r = k.pk
SaltOf(sig) == Slice(sig, 1, SaltLen)
\* the same key, version and message give the same signature, others another salt
FreshWhy(s, k, m, sig, salt) ==
  IF \E i \in 1..Len(s.made) : LET o == s.made[i] IN
       o.b = Basis(k) /\ o.v = k.version /\ o.m = m /\ ((sig # <<>> /\ o.sig # <<>> /\ o.sig # sig) \/ o.salt # salt)
  THEN "signing the same message again gave another signature"
  ELSE IF \E i \in 1..Len(s.made) : LET o == s.made[i] IN
       o.salt = salt /\ o.b = Basis(k) /\ o.v = k.version /\ o.m # m THEN "two messages are signed with the same randomness"
  ELSE IF \E i \in 1..Len(s.made) : LET o == s.made[i] IN
       o.salt = salt /\ o.b = Basis(k) /\ o.v # k.version THEN "two versions sign with the same randomness"
  ELSE IF \E i \in 1..Len(s.made) : s.made[i].salt = salt /\ s.made[i].b # Basis(k)
  THEN "two private keys sign with the same randomness"
  ELSE ""
SignWhy(s, a, r) ==
  LET k == s.sk   mode == ModeOf(k.version)   h == TLCEval(Quot(k.g, k.f)) IN
  IF Len(r.sig) # 41 + BodyLen(mode, CN) + HintLen(mode, CN) THEN "wrong signature length"
  ELSE IF r.sig[1] # HeadByte(mode, CN) THEN "wrong header"
  ELSE IF ~Valid([version |-> k.version, pk |-> KeyOf(k.version, h)], a.m, r.sig) THEN "the signature is not valid"
  ELSE FreshWhy(s, k, a.m, r.sig, SaltOf(r.sig))
VerifyWhy(s, a, r) ==
  LET v == TLCEval(Valid(s.pk, a.m, s.sig)) IN
  IF v = r.ok THEN "" ELSE IF v THEN "a valid signature was refused" ELSE "an invalid signature was accepted"
\* a transaction
Word(b) == Zeros(32 - Len(b)) \o b
Num32(n) == Word(<<n \div 65536, (n \div 256) % 256, n % 256>>)
Padded(b) == b \o Zeros((32 - (Len(b) % 32)) % 32)
TxBytes(a) == Word(a.nonce) \o Word(a.to) \o Num32(128) \o Word(a.value) \o Num32(Len(a.m)) \o Padded(a.m)
TxWhy(s, a, r) ==
  LET k == s.sk   h == TLCEval(Quot(k.g, k.f)) IN
  IF r.hash # Keccak256(TxBytes(a)) THEN "wrong transaction hash"
  ELSE IF r.pk # Ntt(h) THEN "wrong public key"
  ELSE IF ~SolValid(k.version, r.salt, r.hash, r.s2, r.pk) THEN "the signature of the transaction is not valid"
  ELSE FreshWhy(s, k, r.hash, <<>>, r.salt)
\* what the tool sends to the chain for the files in use
Lane(x) == <<x>> \o Zeros(15)
InvHint(x) == InvQ(TLCEval(FoldLeft(LAMBDA u, v : (u * v) % Q, 1, TLCEval(Ntt(x)))))
Sends(act) == act \in {"verifyonchainsend", "recoveronchainsend"}
Recovers(act, v) == act \in {"recoveronchain", "recoveronchainsend"} \/ v = "epervier"
ChainWhy(s, a, r) ==
  LET rec == Recovers(a.act, s.pk.version)
      g == TLCEval(PyParse(IF rec THEN "epervier" ELSE "falcon", CN, s.sig)) IN
  IF ~g.ok \/ (g.ok /\ rec /\ \E i \in 1..CN : TLCEval(Ntt(PolyModQ(g.s2)))[i] = 0)
  THEN (IF r.shown # <<>> /\ r.shown # Zeros(32) THEN "a malformed signature was accepted" ELSE "")
  ELSE IF Len(r.calls) # 1 THEN "the contract was not called"
  ELSE LET c == r.calls[1]
           fn == IF rec THEN "recover(bytes,bytes,uint256[],uint256[],uint256)" ELSE "verify(bytes,bytes,uint256[],uint256[])"
           args == IF rec THEN <<a.m, g.salt, PolyModQ(g.s1), PolyModQ(g.s2), Lane(InvHint(PolyModQ(g.s2)))>>
                   ELSE <<a.m, g.salt, PolyModQ(g.s2), TLCEval(Ntt(s.pk.pk))>>
           out == IF rec THEN LET v == SolRecover(a.c, g.salt, a.m, args[3], args[4], args[5]) IN IF v = <<>> THEN <<>> ELSE Zeros(12) \o v
                  ELSE IF SolValid(a.c, g.salt, a.m, args[3], args[4]) THEN Zeros(31) \o <<1>> ELSE Zeros(32) IN
  IF c.kind # (IF Sends(a.act) THEN "send" ELSE "call") THEN "not the right kind of transaction"
  ELSE IF c.to # a.at \/ c.rpc # a.rpc \/ (Sends(a.act) /\ c.key # a.key) THEN "the call goes elsewhere"
  ELSE IF c.fn # fn THEN "the contract has no such function"
  ELSE IF c.args # args THEN "the call has other arguments"
  ELSE IF c.out # out THEN "the contract answered otherwise"
  ELSE IF Sends(a.act) THEN ""
  ELSE LET want == IF a.act = "recoveronchain" THEN out
                   ELSE IF rec THEN (IF out # <<>> /\ out = Zeros(12) \o s.pk.pk THEN Zeros(31) \o <<1>> ELSE <<>>) ELSE out IN
  IF r.shown = want THEN "" ELSE IF r.shown = Zeros(31) \o <<1>> THEN "an invalid signature was accepted"
  ELSE IF want = Zeros(31) \o <<1>> THEN "a valid signature was refused" ELSE "something else than the answer is shown"
BridgeWhy(s, a, r) ==
  LET c == IF a.mode = "ETH" THEN "ethfalcon" ELSE "falcon" IN
  IF ~SolValid(c, r.salt, a.m, r.s2, r.pk) THEN "the signature is not valid on chain"
  ELSE IF \E i \in 1..Len(s.mades) : LET o == s.mades[i] IN
     (o.a.seed = a.seed) # (o.r.pk = r.pk) THEN "the key is not the one of the seed"
  ELSE IF \E i \in 1..Len(s.mades) : s.mades[i].a = a /\ s.mades[i].r # r THEN "the same arguments gave another signature"
  ELSE ""
Verdict(s, e) ==
  IF e.op = "harness" THEN "the harness could not drive the code: " \o e.x
  ELSE IF e.x # "" THEN e.op \o " did not return: " \o e.x
  ELSE CASE e.op = "genkeys" -> GenWhy(e.a, e.r)
         [] e.op = "sign" -> SignWhy(s, e.a, e.r)
         [] e.op = "verify" -> VerifyWhy(s, e.a, e.r)
         [] e.op = "tx" -> TxWhy(s, e.a, e.r)
         [] e.op = "chain" -> ChainWhy(s, e.a, e.r)
         [] e.op = "bridge" -> BridgeWhy(s, e.a, e.r)
         [] OTHER -> ""
Made(k, m, sig, salt) == [b |-> Basis(k), v |-> k.version, m |-> m, sig |-> sig, salt |-> salt]
After(s, e) ==
  CASE e.op = "genkeys" -> [s EXCEPT !.sk = e.r.sk, !.pk = e.r.pk, !.sks = Append(@, e.r.sk), !.pks = Append(@, e.r.pk)]
    [] e.op = "usesk" -> [s EXCEPT !.sk = s.sks[e.a.i]]
    [] e.op = "usepk" -> [s EXCEPT !.pk = s.pks[e.a.i]]
    [] e.op = "pkfile" -> [s EXCEPT !.pk = [version |-> e.a.version, pk |-> e.a.pk]]
    [] e.op = "put" -> [s EXCEPT !.sig = e.a.sig]
    [] e.op = "sign" -> [s EXCEPT !.sig = e.r.sig, !.made = Append(@, Made(s.sk, e.a.m, e.r.sig, SaltOf(e.r.sig)))]
    [] e.op = "tx" -> [s EXCEPT !.made = Append(@, Made(s.sk, e.r.hash, <<>>, e.r.salt))]
    [] e.op = "bridge" -> [s EXCEPT !.mades = Append(@, [a |-> e.a, r |-> e.r])]
    [] OTHER -> s
Step(sess, s, e) == LET w == TLCEval(Verdict(s, e)) IN [st |-> IF w = "" THEN After(s, e) ELSE s, why |-> w]
Init == TInit(InitSt)
Next == TNext(Step)
=============================================================================
