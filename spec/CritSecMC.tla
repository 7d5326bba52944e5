----------------------------- MODULE CritSecMC -----------------------------
(* The design: contexts running emulated operations, one access per step, with or without the
   discipline of CritSec.  With it, every operation is atomic (Lin), sections nest properly and are
   always closed; the interrupt-mask variant (NESTED = TRUE) runs operations inside an already masked
   region and must restore the state it found.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ctx, NOps, DISCIPLINE   \* "inside": all accesses inside; "readout": read before entering; "noclose": failing CAS leaves it open; "unmask": restore always enables
VARIABLES mem, owner, pc, tmp, cnt, ret, masked, saved, abs
vars == <<mem, owner, pc, tmp, cnt, ret, masked, saved, abs>>
Free == "none"
\* every operation is compare-exchange(e, e + 1) with e the previous result, or fetch-add 1, chosen freely
Init == /\ mem = 0 /\ owner = Free /\ abs = 0
        /\ pc = [c \in Ctx |-> "idle"] /\ tmp = [c \in Ctx |-> 0] /\ cnt = [c \in Ctx |-> 0] /\ ret = [c \in Ctx |-> -1]
        /\ masked \in BOOLEAN /\ saved = [c \in Ctx |-> masked]
Start(c) == /\ pc[c] = "idle" /\ cnt[c] < NOps
            /\ cnt' = [cnt EXCEPT ![c] = @ + 1]
            /\ pc' = [pc EXCEPT ![c] = IF DISCIPLINE = "readout" THEN "read" ELSE "enter"]
            /\ UNCHANGED <<mem, owner, tmp, ret, masked, saved, abs>>
Enter(c) == /\ pc[c] = "enter" /\ owner = Free
            /\ owner' = c /\ saved' = [saved EXCEPT ![c] = masked] /\ masked' = TRUE
            /\ pc' = [pc EXCEPT ![c] = IF DISCIPLINE = "readout" THEN "write" ELSE "read"]
            /\ UNCHANGED <<mem, tmp, cnt, ret, abs>>
Read(c) == /\ pc[c] = "read"
           /\ tmp' = [tmp EXCEPT ![c] = mem]
           /\ pc' = [pc EXCEPT ![c] = IF DISCIPLINE = "readout" THEN "enter" ELSE "write"]
           /\ UNCHANGED <<mem, owner, cnt, ret, masked, saved, abs>>
\* fetch-add: takes effect; abs is the atomic counter of the abstract machine
Write(c) == /\ pc[c] = "write"
            /\ mem' = tmp[c] + 1 /\ abs' = abs + 1 /\ ret' = [ret EXCEPT ![c] = tmp[c]]
            /\ pc' = [pc EXCEPT ![c] = "leave"]
            /\ UNCHANGED <<owner, tmp, cnt, masked, saved>>
\* compare-exchange that fails
Fail(c) == /\ pc[c] = "write"
           /\ pc' = [pc EXCEPT ![c] = IF DISCIPLINE = "noclose" THEN "idle" ELSE "leave"]
           /\ UNCHANGED <<mem, owner, tmp, cnt, ret, masked, saved, abs>>
Leave(c) == /\ pc[c] = "leave"
            /\ owner' = Free /\ masked' = (IF DISCIPLINE = "unmask" THEN FALSE ELSE saved[c])
            /\ pc' = [pc EXCEPT ![c] = "idle"]
            /\ UNCHANGED <<mem, tmp, cnt, ret, saved, abs>>
Done == /\ \A c \in Ctx : pc[c] = "idle" /\ cnt[c] = NOps
        /\ UNCHANGED vars
Next == Done \/ \E c \in Ctx : Start(c) \/ Enter(c) \/ Read(c) \/ Write(c) \/ Fail(c) \/ Leave(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Lin == mem = abs                       \* no update lost
Excl == \A c \in Ctx : pc[c] \in {"leave"} => owner = c
Restores == (owner = Free /\ \A c \in Ctx : pc[c] = "idle") => \A c \in Ctx : (cnt[c] > 0 => masked = saved[c])
Finishes == <>(\A c \in Ctx : pc[c] = "idle" /\ cnt[c] = NOps)
=============================================================================
