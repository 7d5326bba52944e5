------------------------------ MODULE WeakMem ------------------------------
(* What concurrent programs over the library's atomics may do.

   Each atomic is one location holding whole values, whatever its width and however it is
   implemented; each operation is one step.  Memory is the view machine of the C++20/Rust memory
   model: a location's modification order is the sequence of its messages; a thread may read any
   message not older than its view of the location; a release operation publishes the writer's view
   with the message, an acquire operation that reads the message takes the view over; a
   read-modify-write reads the last message, appends its own and continues the release sequence;
   fences do the same for the accesses around them; sequentially consistent operations and fences
   keep a global view.

   Prog[p] is a program with the outcomes observed from the real library.  An outcome that some
   behaviour of this specification produces is printed as <<"SEEN", p, index>>.                  *)
EXTENDS Ops, TLC, Json, IOUtils

Prog == ndJsonDeserialize(IOEnv.PROGS)

VARIABLES p, pc, mem, cur, acq, rel, scv, res
vars == <<p, pc, mem, cur, acq, rel, scv, res>>

Threads == DOMAIN Prog[p].ths
Locs    == DOMAIN Prog[p].locs
TypeOf(l) == Prog[p].locs[l].t

Max(a, b) == IF a > b THEN a ELSE b
Join(v, w) == [l \in DOMAIN v |-> Max(v[l], w[l])]
Raise(v, l, ts) == [v EXCEPT ![l] = Max(@, ts)]

IsAcq(o) == o \in {"acq", "ar", "sc"}
IsRel(o) == o \in {"rel", "ar", "sc"}

Init == /\ p \in DOMAIN Prog
        /\ pc  = [t \in Threads |-> 1]
        /\ LET z == [l \in Locs |-> 1] IN
             /\ mem = [l \in Locs |-> <<[v |-> Prog[p].locs[l].init, w |-> z]>>]
             /\ cur = [t \in Threads |-> z] /\ acq = [t \in Threads |-> z] /\ rel = [t \in Threads |-> z]
             /\ scv = z
        /\ res = [t \in Threads |-> <<>>]

Step(t, r) == /\ pc'  = [pc EXCEPT ![t] = @ + 1]
              /\ res' = [res EXCEPT ![t] = Append(@, r)]
              /\ UNCHANGED p

R(k, v) == [k |-> k, r |-> v]

\* the oldest message thread t may read at location l with ordering o
Oldest(t, l, o) == IF o = "sc" THEN Max(cur[t][l], scv[l]) ELSE cur[t][l]

\* views after thread t reads message ts of l with ordering o
ReadViews(t, l, ts, o) ==
    LET m == mem[l][ts]
        c == Raise(cur[t], l, Oldest(t, l, o)) IN
    [c |-> IF IsAcq(o) THEN Join(Raise(c, l, ts), m.w) ELSE Raise(c, l, ts),
     a |-> Join(Raise(Join(acq[t], c), l, ts), m.w)]

ReadStep(t, l, ts, o, k) ==
    LET n == ReadViews(t, l, ts, o) IN
    /\ cur' = [cur EXCEPT ![t] = n.c] /\ acq' = [acq EXCEPT ![t] = n.a]
    /\ UNCHANGED <<mem, rel, scv>>
    /\ Step(t, R(k, mem[l][ts].v))

\* append v to l; c, a: the thread's views before; from: view of the message continued (or zero view)
WriteStep(t, l, v, o, c, a, from, r) ==
    LET ts == Len(mem[l]) + 1
        c2 == Raise(IF o = "sc" THEN Raise(c, l, scv[l]) ELSE c, l, ts)
        w  == Raise(Join(IF IsRel(o) THEN c2 ELSE rel[t], from), l, ts) IN
    /\ mem' = [mem EXCEPT ![l] = Append(@, [v |-> v, w |-> w])]
    /\ cur' = [cur EXCEPT ![t] = c2] /\ acq' = [acq EXCEPT ![t] = Raise(a, l, ts)]
    /\ scv' = IF o = "sc" THEN Raise(scv, l, ts) ELSE scv
    /\ UNCHANGED rel
    /\ Step(t, r)

ZeroView == [l \in Locs |-> 0]

\* read-modify-write on the last message
Rmw(t, i, l, o) ==
    LET m == mem[l][Len(mem[l])]
        x == Apply(TypeOf(l), i.op, m.v, i.a, i.b)
        n == ReadViews(t, l, Len(mem[l]), o) IN
    WriteStep(t, l, x.n, o, n.c, n.a, m.w, R(x.k, x.r))

Fence(t, o) ==
    LET c1 == IF IsAcq(o) THEN Join(cur[t], acq[t]) ELSE cur[t]
        c2 == IF o = "sc" THEN Join(c1, scv) ELSE c1 IN
    /\ cur' = [cur EXCEPT ![t] = c2]
    /\ acq' = [acq EXCEPT ![t] = Join(@, c2)]
    /\ rel' = IF IsRel(o) THEN [rel EXCEPT ![t] = c2] ELSE rel
    /\ scv' = IF o = "sc" THEN c2 ELSE scv
    /\ UNCHANGED mem
    /\ Step(t, R("u", <<>>))

\* operations that must panic and do nothing
Refused == {"upanic", "badld", "badst", "badcas"}

Exec(t) ==
    LET i == Prog[p].ths[t][pc[t]]
        l == i.loc
        last == Len(mem[l])
        v == mem[l][last].v IN
    CASE i.op = "fence" -> Fence(t, i.o)
      [] i.op \in Refused -> UNCHANGED <<mem, cur, acq, rel, scv>> /\ Step(t, R("panic", <<>>))
      [] i.op = "load" -> \E ts \in Oldest(t, l, i.o)..last : ReadStep(t, l, ts, i.o, "v")
      [] i.op = "store" -> WriteStep(t, l, i.a, i.o, cur[t], acq[t], ZeroView, R("u", <<>>))
      [] i.op \in CasOps ->
            \/ v = i.a /\ Rmw(t, i, l, i.o)
            \/ \E ts \in Oldest(t, l, i.f)..last :
                  /\ i.op = "casw" \/ mem[l][ts].v # i.a
                  /\ ReadStep(t, l, ts, i.f, "err")
      [] i.op = "upd" ->
            \/ v # i.b /\ Rmw(t, i, l, i.o)
            \/ \E ts \in Oldest(t, l, i.f)..last : mem[l][ts].v = i.b /\ ReadStep(t, l, ts, i.f, "err")
      [] OTHER -> Rmw(t, i, l, i.o)

Next == \E t \in Threads : pc[t] <= Len(Prog[p].ths[t]) /\ Exec(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in Threads : pc[t] > Len(Prog[p].ths[t])
RECURSIVE Flat(_)
Flat(t) == IF t > Len(res) THEN <<>> ELSE res[t] \o Flat(t + 1)
Outcome == [res |-> Flat(1), fin |-> [l \in Locs |-> mem[l][Len(mem[l])].v]]
Report == Done => \A i \in DOMAIN Prog[p].outs :
                     Prog[p].outs[i] = Outcome => PrintT(<<"SEEN", p, i>>)

\* The specification's own sanity: views name existing messages and never go backwards past the
\* message a thread read or wrote.
ViewsOK == \A t \in Threads : \A l \in Locs :
             /\ cur[t][l] \in 1..Len(mem[l]) /\ cur[t][l] <= acq[t][l] /\ rel[t][l] <= cur[t][l]
Monotone == [][p' = p => \A t \in Threads : \A l \in Locs : cur'[t][l] >= cur[t][l]]_vars
=============================================================================
