---------------------------- MODULE MC_GoBinding ----------------------------
(***************************************************************************)
(* Callers of the Go binding in a process that shares one random generator *)
(* (seed, counter).  A draw reads the counter, outputs, and writes the     *)
(* next one; keygen draws once, sign twice, verify never.  Serial says     *)
(* whether a call holds the generator for its whole duration, Seeds        *)
(* whether it is seeded on first use.  Rounds of concurrent calls follow   *)
(* each other; Emit prints the rounds for replay.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Callers, MaxRounds, Serial, Seeds, Emit
Ops == {"keygen", "sign", "verify"}
Draws(o) == CASE o = "keygen" -> 1 [] o = "sign" -> 2 [] OTHER -> 0
VARIABLES op, left, seen, cnt, seeded, out, owner, rounds
vars == <<op, left, seen, cnt, seeded, out, owner, rounds>>
None == 0
\* out: what has been drawn, as <<seeded, counter>> per draw; seen[c]: the counter a caller has read, or -1
Init == /\ op = [c \in Callers |-> "idle"] /\ left = [c \in Callers |-> 0] /\ seen = [c \in Callers |-> -1]
        /\ cnt = 0 /\ seeded = FALSE /\ out = <<>> /\ owner = None /\ rounds = <<>>
AllIdle == \A c \in Callers : op[c] = "idle"
\* a round: every caller makes a call or stays idle; the calls overlap
Begin == /\ AllIdle /\ Len(rounds) < MaxRounds
         /\ \E f \in [Callers -> Ops \cup {"idle"}] :
              /\ \E c \in Callers : f[c] # "idle"
              /\ op' = f /\ left' = [c \in Callers |-> Draws(f[c])]
              /\ rounds' = Append(rounds, f)
              /\ (Emit /\ Len(rounds') = MaxRounds => PrintT("BEHAV " \o ToJson(rounds')))
         /\ UNCHANGED <<seen, cnt, seeded, out, owner>>
May(c) == ~Serial \/ owner = c
Enter(c) == /\ Serial /\ owner = None /\ op[c] # "idle" /\ left[c] > 0 /\ owner' = c
            /\ UNCHANGED <<op, left, seen, cnt, seeded, out, rounds>>
Seed(c) == /\ Seeds /\ ~seeded /\ May(c) /\ left[c] > 0 /\ seen[c] = -1 /\ seeded' = TRUE /\ cnt' = 0
           /\ UNCHANGED <<op, left, seen, out, owner, rounds>>
Read(c) == /\ May(c) /\ left[c] > 0 /\ seen[c] = -1 /\ (Seeds => seeded)
           /\ seen' = [seen EXCEPT ![c] = cnt] /\ out' = Append(out, <<seeded, cnt>>)
           /\ UNCHANGED <<op, left, cnt, seeded, owner, rounds>>
Write(c) == /\ seen[c] # -1 /\ cnt' = seen[c] + 1 /\ seen' = [seen EXCEPT ![c] = -1]
            /\ left' = [left EXCEPT ![c] = @ - 1]
            /\ UNCHANGED <<op, seeded, out, owner, rounds>>
Done(c) == /\ op[c] # "idle" /\ left[c] = 0 /\ op' = [op EXCEPT ![c] = "idle"]
           /\ owner' = (IF owner = c THEN None ELSE owner)
           /\ UNCHANGED <<left, seen, cnt, seeded, out, rounds>>
Next == Begin \/ \E c \in Callers : Enter(c) \/ Seed(c) \/ Read(c) \/ Write(c) \/ Done(c)
\* no value is handed out twice, and none comes from the unseeded state
Fresh == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
Entropy == \A i \in 1..Len(out) : out[i][1]
\* the generator is never held by nobody's call
Held == owner # None => op[owner] # "idle"
=============================================================================
