------------------------------ MODULE SeqLock ------------------------------
(* The design of the lock-based atomics: a sequence lock whose readers first try without locking, in weak
   memory.  Every location has the list of messages written to it, every thread a view of it (how much of
   each list it has to know of); release and acquire accesses and fences carry views from thread to thread
   (the release/acquire fragment of RC11).  A value is two words; WIDE splits the version into a low word,
   which is the lock as well and wraps after M / 2 writes, and a high word.
     Whole      an operation obtains two words of one and the same write,
     Fresh      it is not older than what the thread already had to know of, and what its writer knew is
                known afterwards (publication),
     Exclusive  writers read and replace the newest words (nothing is lost, there are no races),
     Ending     every operation ends, if each thread is given the chance.
   Every DESIGN but "right" must be found to break one of these, or this model shows nothing.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS WIDE, M, START, SPINS, PROGRAMS, DESIGN
PA == <<<<"add">>, <<"load">>>>
PB == <<<<"add", "add">>, <<"load", "load">>>>
PC == <<<<"add", "load">>, <<"add", "load">>>>
PD == <<<<"cas", "add">>, <<"load", "add">>>>
PE == <<<<"add">>, <<"add">>, <<"load">>>>
PF == <<<<"add", "add", "add">>, <<"load">>>>
VARIABLES mem, th, bad
vars == <<mem, th, bad>>
LOCKED == 1
Locs == {"hi", "lo", "d1", "d2"}
All == Locs \cup {"g"}                   \* "g": the number of the latest write a thread has to know of
Zero == [x \in All |-> IF x = "g" THEN 0 ELSE 1]
Max(a, b) == IF a > b THEN a ELSE b
Join(v, w) == [x \in All |-> Max(v[x], w[x])]

\* the steps of an operation ("slow": from here on, with the lock)
Fence(name) == IF DESIGN = "no_" \o name THEN <<>> ELSE <<name>>
Optimistic == (IF WIDE THEN <<"hi0">> ELSE <<>>) \o <<"lo0", "r1", "r2">> \o Fence("fence_r")
              \o (IF ~WIDE THEN <<"lo1">> ELSE IF DESIGN = "hi_first" THEN <<"hi1", "lo1">> ELSE <<"lo1", "hi1">>) \o <<"check">>
Enter == <<"lock">> \o Fence("fence_w") \o <<"x1", "x2">>
Carry == IF WIDE /\ DESIGN # "no_carry" THEN <<"carry0", "carry1">> ELSE <<>>
Leave(write) == IF ~write THEN IF DESIGN = "no_restore" THEN <<>> ELSE <<"restore">>
                ELSE IF DESIGN = "carry_late" THEN <<"unlock">> \o Carry
                ELSE IF DESIGN = "early_unlock" THEN <<"unlock", "w2">>
                ELSE Carry \o <<"unlock">>
Steps(op) == (IF op = "load" THEN Optimistic \o Enter \o Leave(FALSE)
              ELSE IF op = "cas" THEN Enter \o Leave(FALSE)          \* one that fails
              ELSE Enter \o (IF DESIGN = "early_unlock" THEN <<"w1">> ELSE <<"w1", "w2">>) \o Leave(TRUE)) \o <<"end">>
At(op, s) == CHOOSE i \in 1..Len(Steps(op)) : Steps(op)[i] = s

Threads == 1..Len(PROGRAMS)
New == [cur |-> Zero, acq |-> Zero, rel |-> Zero, op |-> 1, at |-> 1, spins |-> SPINS, floor |-> 0,
        hi |-> 0, lo |-> 0, lo1 |-> 0, hi1 |-> 0, a |-> 0, b |-> 0, was |-> 0]
Init == /\ mem = [x \in Locs |-> <<[val |-> IF x = "lo" THEN START ELSE 0, view |-> Zero]>>]
        /\ th = [t \in Threads |-> New]
        /\ bad = ""

Weak(name, order) == IF DESIGN = "weak_" \o name THEN "rlx" ELSE order
\* the thread after reading the i-th message of x
Read(f, x, i, order) ==
    LET v == mem[x][i].view IN
    [f EXCEPT !.cur = Join(Join(@, [Zero EXCEPT ![x] = i]), IF order = "rlx" THEN Zero ELSE v), !.acq = Join(@, v)]
\* appends a message; the thread's view is `cur` with it
Write(f, x, val, order, base) ==
    LET n == Len(mem[x]) + 1
        c == [f.cur EXCEPT ![x] = n] IN
    [mem |-> [mem EXCEPT ![x] = Append(@, [val |-> val, view |-> Join(Join(IF order = "rel" THEN c ELSE f.rel, [Zero EXCEPT ![x] = n]), base)])],
     f |-> [f EXCEPT !.cur = c]]

Op(t) == PROGRAMS[t][th[t].op]
Step(t) ==
    /\ th[t].op <= Len(PROGRAMS[t])
    /\ LET f == th[t]
           op == Op(t)
           s == Steps(op)[f.at]
           Go(g) == th' = [th EXCEPT ![t] = [g EXCEPT !.at = f.at + 1]]
           Jump(g, s2) == th' = [th EXCEPT ![t] = [g EXCEPT !.at = At(op, s2)]]
           Quiet == UNCHANGED <<mem, bad>>
           Load(x, order, F(_, _)) == \E i \in f.cur[x]..Len(mem[x]) : Go(F(Read(f, x, i, order), mem[x][i].val)) /\ Quiet
           Store(x, val, order) == LET r == Write(f, x, val, order, Zero) IN mem' = r.mem /\ Go(r.f)
           next == (f.was + 2) % M IN
       \/ /\ s = "hi0" /\ Load("hi", Weak("hi0", "acq"), LAMBDA g, v : [g EXCEPT !.hi = v])
       \/ /\ s = "lo0" /\ \E i \in f.cur["lo"]..Len(mem["lo"]) :
             LET v == mem["lo"][i].val
                 g == [Read(f, "lo", i, Weak("lo0", "acq")) EXCEPT !.lo = v] IN
             /\ IF v = LOCKED /\ DESIGN # "no_look" THEN Jump(g, "lock") ELSE Go(g)
             /\ Quiet
       \/ /\ s = "r1" /\ Load("d1", "rlx", LAMBDA g, v : [g EXCEPT !.a = v])
       \/ /\ s = "r2" /\ Load("d2", "rlx", LAMBDA g, v : [g EXCEPT !.b = v])
       \/ /\ s = "fence_r" /\ Go([f EXCEPT !.cur = Join(f.cur, f.acq)]) /\ Quiet
       \/ /\ s = "lo1" /\ Load("lo", IF WIDE THEN Weak("lo1", "acq") ELSE "rlx", LAMBDA g, v : [g EXCEPT !.lo1 = v])
       \/ /\ s = "hi1" /\ Load("hi", "rlx", LAMBDA g, v : [g EXCEPT !.hi1 = v])
       \/ /\ s = "check" /\ (IF (f.lo1 = f.lo /\ (WIDE => f.hi1 = f.hi)) \/ DESIGN = "no_check" THEN Jump(f, "end") ELSE Jump(f, "lock")) /\ Quiet
       \* taking the lock: a swap, which reads the last message and is ordered right after it
       \/ /\ s = "lock"
          /\ LET n == Len(mem["lo"])  m == mem["lo"][n]
                 g == Read(f, "lo", n, Weak("lock", "acq"))
                 r == Write(g, "lo", LOCKED, "rlx", m.view) IN
             \/ m.val # LOCKED /\ mem' = r.mem /\ Go([r.f EXCEPT !.was = m.val])
             \/ m.val = LOCKED /\ f.spins > 0 /\ mem' = r.mem /\ th' = [th EXCEPT ![t] = [r.f EXCEPT !.spins = f.spins - 1]]
             \/ m.val = LOCKED /\ DESIGN = "barge" /\ mem' = r.mem /\ Go([r.f EXCEPT !.was = START])
          /\ UNCHANGED bad
       \/ /\ s = "fence_w" /\ Go([f EXCEPT !.rel = f.cur]) /\ Quiet
       \/ /\ s \in {"x1", "x2"}
          /\ LET x == IF s = "x1" THEN "d1" ELSE "d2"  v == mem[x][f.cur[x]].val IN
             /\ bad' = IF f.cur[x] # Len(mem[x]) THEN "Exclusive" ELSE bad
             /\ Go(IF s = "x1" THEN [f EXCEPT !.a = v] ELSE [f EXCEPT !.b = v])
          /\ UNCHANGED mem
       \/ /\ s \in {"w1", "w2"}
          /\ LET x == IF s = "w1" THEN "d1" ELSE "d2" IN
             /\ bad' = IF f.cur[x] # Len(mem[x]) THEN "Exclusive" ELSE bad
             /\ LET r == Write([f EXCEPT !.cur["g"] = Max(@, f.a + 1)], x, f.a + 1, "rlx", Zero) IN mem' = r.mem /\ Go(r.f)
       \/ /\ s = "carry0" /\ (IF next = 0 THEN Load("hi", "rlx", LAMBDA g, v : [g EXCEPT !.hi = v])
                              ELSE IF DESIGN = "carry_late" THEN Jump(f, "end") /\ Quiet ELSE Jump(f, "unlock") /\ Quiet)
       \/ /\ s = "carry1" /\ Store("hi", f.hi + 1, Weak("carry1", "rel")) /\ UNCHANGED bad
       \/ /\ s = "unlock" /\ Store("lo", IF DESIGN = "no_count" THEN f.was ELSE next, Weak("unlock", "rel")) /\ UNCHANGED bad
       \/ /\ s = "restore" /\ Store("lo", f.was, Weak("restore", "rel")) /\ UNCHANGED bad
       \/ /\ s = "end"
          /\ bad' = CASE f.a # f.b -> "Whole"
                      [] f.a < f.floor \/ f.cur["g"] < f.a -> "Fresh"
                      [] OTHER -> bad
          /\ th' = [th EXCEPT ![t] = [New EXCEPT !.cur = f.cur, !.acq = f.acq, !.rel = f.rel, !.op = f.op + 1, !.floor = f.cur["g"]]]
          /\ UNCHANGED mem
Done == \A t \in Threads : th[t].op > Len(PROGRAMS[t])
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Good == bad = ""
Ending == <>Done
\* Only completed writes have advanced the version; a version is never mistaken for the lock.
Version == Done => /\ mem["lo"][Len(mem["lo"])].val = (START + 2 * mem["d1"][Len(mem["d1"])].val) % M
                   /\ mem["d1"][Len(mem["d1"])].val = Cardinality({<<t, i>> \in Threads \X (1..4) : i <= Len(PROGRAMS[t]) /\ PROGRAMS[t][i] = "add"})
=============================================================================
