------------------------------ MODULE Dispatch ------------------------------
(* The design of run-time dispatch of 128-bit atomics: what the processor can do is detected on first use and
   remembered in CACHE (0: not yet); every function remembers in FUNC what it chose.  Both are relaxed, so a
   thread may see older messages; only an update reads the last one.  Detection may come out differently for
   different threads (unlike cores, an interrupted detection): ANSWERS are the sets of features it may report, all
   of which the processor really has (HAS).  The lock and the instructions do not exclude each other, so one
   location must be accessed by one of the two only.
     Able    no instruction is used that the processor lacks,
     Alone   all operations on the location use the same mechanism, the one is_lock_free reports, always the same,
     Kept    no update is lost,
     Ending  every operation ends.
   When all answers agree, a plain store to CACHE is enough (DESIGN "store"), as where only the choice among
   instructions depends on it (LSE on AArch64); otherwise it is not.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS HAS, ANSWERS, PROGRAMS, DESIGN
Both == {{"cx16", "avx"}, {"cx16"}}
Any == {{"cx16", "avx"}, {"cx16"}, {}}
Avx == {{"avx"}}
None == {{}}
One == {{"cx16", "avx"}}
P1 == <<<<"add">>, <<"add">>>>
P2 == <<<<"add", "ask">>, <<"load", "add">>>>
P3 == <<<<"ask", "add">>, <<"add">>, <<"load">>>>
P4 == <<<<"load", "add">>, <<"ask", "load">>>>
VARIABLES cache, func, view, th, val, lock, used, asked, bad
vars == <<cache, func, view, th, val, lock, used, asked, bad>>
Funcs == {"load", "add"}
Threads == 1..Len(PROGRAMS)
NotYet == {"none"}                                       \* the content of CACHE and FUNC before the first use
Init0 == IF DESIGN = "no_init" THEN {} ELSE {"init"}

New == [op |-> 1, at |-> "start", info |-> {}, how |-> "", tmp |-> 0]
Init == /\ cache = <<NotYet>>
        /\ func = [g \in Funcs |-> <<"init">>]
        /\ view = [t \in Threads |-> [x \in Funcs \cup {"cache"} |-> 1]]
        /\ th = [t \in Threads |-> New]
        /\ val = 0 /\ lock = 0
        /\ used = {} /\ asked = {} /\ bad = ""

\* What a function chooses given the features; "cx" and "vmov" exclude each other, "lock" excludes neither.
Choice(g, info) ==
    IF g = "load" THEN IF DESIGN = "avx_only" THEN (IF "avx" \in info THEN "vmov" ELSE IF "cx16" \in info THEN "cx" ELSE "lock")
                       ELSE IF "cx16" \notin info THEN "lock" ELSE IF "avx" \in info THEN "vmov" ELSE "cx"
    ELSE IF DESIGN = "needs_avx" THEN (IF {"cx16", "avx"} \subseteq info THEN "cx" ELSE "lock")
    ELSE IF DESIGN = "assumed" THEN "cx"
    ELSE IF "cx16" \in info THEN "cx" ELSE "lock"
Native(how) == how # "lock"
Needs(how) == IF how = "vmov" THEN {"avx"} ELSE IF how = "cx" THEN {"cx16"} ELSE {}
Empty(c) == c = NotYet \/ c = {}                          \* zero: nothing recorded

Go(t, f) == th' = [th EXCEPT ![t] = f]
\* after detection: choose, remember, run; or answer
Decided(t, f, info) ==
    LET g == PROGRAMS[t][f.op] IN
    IF g = "ask" THEN /\ asked' = asked \cup {"cx16" \in info}
                      /\ Go(t, [f EXCEPT !.at = "end"]) /\ UNCHANGED func
    ELSE Go(t, [f EXCEPT !.at = "remember", !.how = Choice(g, info)]) /\ UNCHANGED <<func, asked>>

Step(t) ==
    /\ th[t].op <= Len(PROGRAMS[t])
    /\ LET f == th[t]
           g == PROGRAMS[t][f.op] IN
       \* the function pointer: some message not older than those already seen
       \/ /\ f.at = "start" /\ g # "ask"
          /\ \E i \in view[t][g]..Len(func[g]) :
               /\ view' = [view EXCEPT ![t][g] = i]
               /\ IF func[g][i] = "init" THEN Go(t, [f EXCEPT !.at = "detect"])
                                        ELSE Go(t, [f EXCEPT !.at = "run", !.how = func[g][i]])
          /\ UNCHANGED <<cache, func, val, lock, used, asked, bad>>
       \/ /\ f.at = "start" /\ g = "ask" /\ Go(t, [f EXCEPT !.at = "detect"])
          /\ UNCHANGED <<cache, func, view, val, lock, used, asked, bad>>
       \* detect(): the cache
       \/ /\ f.at = "detect"
          /\ \E i \in view[t]["cache"]..Len(cache) :
               /\ view' = [view EXCEPT ![t]["cache"] = i]
               /\ IF Empty(cache[i]) \/ (g = "ask" /\ DESIGN = "ask_again")
                  THEN \E a \in ANSWERS : Go(t, [f EXCEPT !.at = "record", !.info = a \cup Init0]) /\ UNCHANGED asked
                  ELSE IF g = "ask" THEN /\ asked' = asked \cup {"cx16" \in cache[i]}
                                         /\ Go(t, [f EXCEPT !.at = "end"])
                  ELSE Go(t, [f EXCEPT !.at = "remember", !.how = Choice(g, cache[i])]) /\ UNCHANGED asked
          /\ UNCHANGED <<cache, func, val, lock, used, bad>>
       \/ /\ f.at = "record"
          /\ LET last == cache[Len(cache)] IN
             IF DESIGN = "store" THEN cache' = Append(cache, f.info) /\ Decided(t, f, f.info)
             ELSE IF DESIGN = "piecewise" /\ Empty(last) THEN
                  /\ cache' = Append(cache, {"init"})            \* the features follow one by one
                  /\ Go(t, [f EXCEPT !.at = "record2"]) /\ UNCHANGED <<func, asked>>
             ELSE IF Empty(last) THEN cache' = Append(cache, f.info) /\ Decided(t, f, f.info)
             ELSE UNCHANGED cache /\ Decided(t, f, IF DESIGN \in {"own_answer", "ask_again"} THEN f.info ELSE last)
          /\ view' = [view EXCEPT ![t]["cache"] = Len(cache')]
          /\ UNCHANGED <<val, lock, used, bad>>
       \/ /\ f.at = "record2"
          /\ cache' = Append(cache, f.info) /\ Decided(t, f, f.info)
          /\ view' = [view EXCEPT ![t]["cache"] = Len(cache')]
          /\ UNCHANGED <<val, lock, used, bad>>
       \/ /\ f.at = "remember"
          /\ func' = [func EXCEPT ![g] = Append(@, f.how)]
          /\ view' = [view EXCEPT ![t][g] = Len(func[g]) + 1]
          /\ Go(t, [f EXCEPT !.at = "run"])
          /\ UNCHANGED <<cache, val, lock, used, asked, bad>>
       \* the operation itself
       \/ /\ f.at = "run"
          /\ used' = used \cup {f.how}
          /\ bad' = IF Needs(f.how) \subseteq HAS THEN bad ELSE "Able"
          /\ IF Native(f.how)
             THEN /\ val' = IF g = "add" THEN val + 1 ELSE val
                  /\ Go(t, [f EXCEPT !.at = "end"]) /\ UNCHANGED lock
             ELSE /\ lock = 0 /\ lock' = t
                  /\ Go(t, [f EXCEPT !.at = "locked", !.tmp = val]) /\ UNCHANGED val
          /\ UNCHANGED <<cache, func, view, asked>>
       \/ /\ f.at = "locked"
          /\ lock' = 0
          /\ val' = IF g = "add" THEN f.tmp + 1 ELSE val
          /\ Go(t, [f EXCEPT !.at = "end"])
          /\ UNCHANGED <<cache, func, view, used, asked, bad>>
       \/ /\ f.at = "end"
          /\ Go(t, [New EXCEPT !.op = f.op + 1])
          /\ UNCHANGED <<cache, func, view, val, lock, used, asked, bad>>
Done == \A t \in Threads : th[t].op > Len(PROGRAMS[t])
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Able == bad = ""
Mechanisms == {Native(h) : h \in used}
Alone == /\ Cardinality(Mechanisms) <= 1
         /\ Cardinality(asked) <= 1
         /\ (asked # {} /\ used # {}) => asked = Mechanisms
Adds == Cardinality({<<t, i>> \in Threads \X (1..3) : i <= Len(PROGRAMS[t]) /\ PROGRAMS[t][i] = "add"})
Kept == Done => val = Adds
Ending == <>Done
=============================================================================
