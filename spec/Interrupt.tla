----------------------------- MODULE Interrupt -----------------------------
(* The design of atomics emulated by masking interrupts: processors (more than one only with a lock)
   whose operations are sequences of small steps on a value of two words, interrupted between any two
   steps by handlers that use the same atomic, and by handlers of those.  Without a fault in the design
   every operation is whole and indivisible, the interrupt state after it is what it was before it, and
   all come to an end.  Each DESIGN but "right" must be found to break one of these, or this model shows
   nothing.  IntRow (OpsTrace.tla) states what an interrupted call may look like from outside; here it is
   the invariant the steps maintain.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Harts, Depth, NOps, NInts, LOCK, DESIGN
VARIABLES mem, abs, lock, ie, stack, ints, bad, next
vars == <<mem, abs, lock, ie, stack, ints, bad, next>>
Kinds == {"load", "swap"}

\* the steps of an operation
Steps(op) ==
    LET access == IF op = "load" THEN <<"r1", "r2">> ELSE <<"r1", "r2", "w1", "w2">>
        enter == IF LOCK THEN <<"mask", "lock">> ELSE <<"mask">>
        leave == IF LOCK THEN <<"unlock", "restore">> ELSE <<"restore">> IN
    CASE DESIGN = "openread" /\ op = "load" -> access
      [] DESIGN = "readfirst" /\ op = "swap" -> <<"r1", "r2">> \o enter \o <<"w1", "w2">> \o leave
      [] DESIGN = "early" /\ op = "swap" -> enter \o <<"r1", "r2", "w1">> \o leave \o <<"w2">>
      [] DESIGN = "savelate" -> <<"cli", "save">> \o Tail(enter) \o access \o leave
      [] DESIGN = "leaky" /\ op = "load" -> enter \o access \o (IF LOCK THEN <<"unlock">> ELSE <<>>)
      [] DESIGN = "lockfirst" -> <<"lock", "mask">> \o access \o <<"restore", "unlock">>
      [] OTHER -> enter \o access \o leave

Frame(op, main, n, was) == [op |-> op, at |-> 1, was |-> was, saved |-> FALSE, t |-> <<0, 0>>, v |-> n, main |-> main, left |-> NOps]
Init == /\ mem = <<0, 0>> /\ abs = 0 /\ lock = 0 /\ bad = "" /\ next = Cardinality(Harts) + 1
        /\ ints = [h \in Harts |-> NInts]
        /\ ie \in [Harts -> BOOLEAN]
        /\ \E op \in [Harts -> Kinds] : stack = [h \in Harts |-> <<Frame(op[h], TRUE, h, ie[h])>>]

Top(h) == stack[h][Len(stack[h])]
Put(h, f) == stack' = [stack EXCEPT ![h] = [@ EXCEPT ![Len(@)] = f]]
Step(h) ==
    /\ stack[h] # <<>> /\ Top(h).at <= Len(Steps(Top(h).op))
    /\ LET f == Top(h)  s == Steps(f.op)[f.at]  g == [f EXCEPT !.at = @ + 1] IN
       \/ /\ s = "mask" /\ Put(h, [g EXCEPT !.saved = ie[h]]) /\ ie' = [ie EXCEPT ![h] = FALSE]
          /\ UNCHANGED <<mem, abs, lock, bad, next>>
       \/ /\ s = "cli" /\ Put(h, g) /\ ie' = [ie EXCEPT ![h] = FALSE]
          /\ UNCHANGED <<mem, abs, lock, bad, next>>
       \/ /\ s = "save" /\ Put(h, [g EXCEPT !.saved = ie[h]])
          /\ UNCHANGED <<mem, abs, lock, ie, bad, next>>
       \/ /\ s = "restore" /\ Put(h, g) /\ ie' = [ie EXCEPT ![h] = IF DESIGN = "enable" THEN TRUE ELSE f.saved]
          /\ UNCHANGED <<mem, abs, lock, bad, next>>
       \/ /\ s = "lock" /\ lock = 0 /\ lock' = h /\ Put(h, g)
          /\ UNCHANGED <<mem, abs, ie, bad, next>>
       \/ /\ s = "unlock" /\ lock' = 0 /\ Put(h, g)
          /\ UNCHANGED <<mem, abs, ie, bad, next>>
       \/ /\ s = "r1" /\ Put(h, [g EXCEPT !.t[1] = mem[1]])
          /\ UNCHANGED <<mem, abs, lock, ie, bad, next>>
       \/ /\ s = "r2" /\ Put(h, [g EXCEPT !.t[2] = mem[2]])
          /\ bad' = IF <<f.t[1], mem[2]>> # <<abs, abs>> THEN "read" ELSE bad
          /\ UNCHANGED <<mem, abs, lock, ie, next>>
       \/ /\ s = "w1" /\ Put(h, g) /\ mem' = [mem EXCEPT ![1] = f.v]
          /\ UNCHANGED <<abs, lock, ie, bad, next>>
       \/ /\ s = "w2" /\ Put(h, g) /\ mem' = [mem EXCEPT ![2] = f.v] /\ abs' = f.v
          /\ bad' = IF f.t # <<abs, abs>> \/ mem[1] # f.v THEN "write" ELSE bad
          /\ UNCHANGED <<lock, ie, next>>
    /\ UNCHANGED ints
\* the call returns; the next one begins, or the handler returns (the processor enables interrupts again), or all is done
Return(h) ==
    /\ stack[h] # <<>> /\ Top(h).at > Len(Steps(Top(h).op))
    /\ bad' = IF ie[h] # Top(h).was THEN "state" ELSE bad
    /\ IF Top(h).left > 1
       THEN /\ \E op \in Kinds : Put(h, [Frame(op, Top(h).main, next, ie[h]) EXCEPT !.left = Top(h).left - 1])
            /\ next' = next + 1 /\ UNCHANGED ie
       ELSE /\ stack' = [stack EXCEPT ![h] = SubSeq(@, 1, Len(@) - 1)]
            /\ ie' = [ie EXCEPT ![h] = IF Top(h).main THEN @ ELSE TRUE]
            /\ UNCHANGED next
    /\ UNCHANGED <<mem, abs, lock, ints>>
\* an interrupt; its handler may allow others to interrupt it
Interrupted(h) ==
    /\ stack[h] # <<>> /\ ie[h] /\ ints[h] > 0 /\ Len(stack[h]) <= Depth
    /\ \E op \in Kinds, e \in BOOLEAN :
         /\ stack' = [stack EXCEPT ![h] = Append(@, [Frame(op, FALSE, next, e) EXCEPT !.left = 1])]
         /\ ie' = [ie EXCEPT ![h] = e]
    /\ next' = next + 1 /\ ints' = [ints EXCEPT ![h] = @ - 1]
    /\ UNCHANGED <<mem, abs, lock, bad>>
Done == (\A h \in Harts : stack[h] = <<>>) /\ UNCHANGED vars
Next == Done \/ \E h \in Harts : Step(h) \/ Return(h) \/ Interrupted(h)
Spec == Init /\ [][Next]_vars /\ \A h \in Harts : WF_vars(Step(h) \/ Return(h))
Right == bad = ""
Whole == (\A h \in Harts : stack[h] = <<>>) => mem = <<abs, abs>>
Ends == <>(\A h \in Harts : stack[h] = <<>>)
=============================================================================
