---------------------------- MODULE CritSecTrace ----------------------------
(* Recorded operations of the critical-section build against CritSec: one behaviour per row, one
   action per recorded event.  <<"ACC", row>> is printed for every row that is a behaviour.        *)
EXTENDS CritSec, Json, IOUtils, Sequences
Rows == ndJsonDeserialize(IOEnv.ROWS)
VARIABLES row, l
vars == <<csvars, row, l>>
R == Rows[row]
T == [w |-> R.w, K |-> R.K, z |-> R.z]
Ev == R.ev[l]
Init == \E i \in 1..Len(Rows) : row = i /\ l = 1 /\ CsInit(Rows[i].c)
More == l <= Len(R.ev)
Step == /\ More /\ l' = l + 1 /\ UNCHANGED row
        /\ \/ Ev.e = "acq" /\ Enter(Ev.seen, Ev.set)
           \/ Ev.e = "rel" /\ Leave(T, R.op, Ev.seen, Ev.set)
           \/ Ev.e = "user" /\ Ev.set = <<0>> /\ User(Ev.seen)
Finish == /\ ~More /\ R.depth = 0 /\ phase = "run"
          /\ IF OrderOK(R.op, R.o, R.f) THEN Return(T, R.op, R.a, R.b, R.x, R.k, R.r, R.n)
                                        ELSE Refuse(R.k, R.n)
          /\ PrintT(<<"ACC", row>>)
          /\ UNCHANGED <<row, l>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
