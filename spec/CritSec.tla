------------------------------ MODULE CritSec ------------------------------
(* Atomics emulated by critical sections: the state machine of one operation of one context,
   interleaved with the rest of the system, which changes the atomic whenever no section is open.

   mem    current value of the atomic
   open   is this context inside a section
   entry, exit   values of the atomic at the last entry and exit of a section
   nsec   sections completed; wrote: the (one) modification has happened
   phase  "run" | "done" | "refused"

   The operation performs all accesses inside sections: whatever it returns is explained by the value
   the atomic had when the section was entered, and whatever it wrote is there when it is left.     *)
EXTENDS Ops, TLC

VARIABLES mem, open, entry, exit, nsec, wrote, user, phase
csvars == <<mem, open, entry, exit, nsec, wrote, user, phase>>

\* Operations built from a load and compare-exchanges take one section per step; all others exactly one.
Composite(t, op) == op = "upd" \/ (t.K = "f" /\ op \in {"fadd", "fsub", "fmax", "fmin", "fneg", "fabs"})
    \/ (t.K = "p" /\ op \in {"bset", "bclr", "btog"})

CsInit(c) == /\ mem = c /\ open = FALSE /\ entry = c /\ exit = c /\ nsec = 0 /\ wrote = FALSE
             /\ user = <<>> /\ phase = "run"

\* Others run, leaving `set`; then this context enters.
Enter(seen, set) ==
    /\ phase = "run" /\ ~open
    /\ seen = mem                       \* nothing was written outside a section
    /\ mem' = set /\ entry' = set /\ open' = TRUE
    /\ UNCHANGED <<exit, nsec, wrote, user, phase>>

\* This context leaves with the atomic holding `seen`; others then leave `set`.
Leave(t, op, seen, set) ==
    /\ phase = "run" /\ open
    /\ exit' = seen /\ mem' = set /\ open' = FALSE /\ nsec' = nsec + 1
    /\ seen # entry => ~wrote           \* at most one modification
    /\ wrote' = (wrote \/ seen # entry)
    /\ nsec > 0 => Composite(t, op)
    /\ wrote => FALSE                   \* no section after the modification
    /\ UNCHANGED <<entry, user, phase>>

\* The closure of an update runs on value v, outside any section.
User(v) == /\ phase = "run" /\ ~open
           /\ user' = v
           /\ UNCHANGED <<mem, open, entry, exit, nsec, wrote, phase>>

\* The operation returns: the last section is where it took effect.
Return(t, op, a, b, orc, k, r, fin) ==
    /\ phase = "run" /\ ~open /\ nsec > 0
    /\ fin = mem                        \* nothing was written after the section
    /\ Allowed(t, op, entry, a, b, orc, [k |-> k, r |-> r, n |-> exit])
    /\ op = "upd" => user = entry       \* the closure saw the value that was replaced or refused
    /\ phase' = "done"
    /\ UNCHANGED <<mem, open, entry, exit, nsec, wrote, user>>

\* An invalid ordering: refused before any section.
Refuse(k, fin) ==
    /\ phase = "run" /\ nsec = 0 /\ ~open /\ k = "panic" /\ fin = mem
    /\ phase' = "refused"
    /\ UNCHANGED <<mem, open, entry, exit, nsec, wrote, user>>
=============================================================================
