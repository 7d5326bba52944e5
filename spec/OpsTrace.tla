------------------------------ MODULE OpsTrace ------------------------------
(* Sequential conformance: every recorded call of the real library, judged by Ops.
   Rows come from the harness (one JSON object per line).  A row that the specification does not
   allow is printed as <<"BAD", row number>>; a chunk that was judged is printed as <<"OK", chunk>>. *)
EXTENDS Ops, TLC, Json, IOUtils

Rows  == ndJsonDeserialize(IOEnv.ROWS)
Chunk == 500
NChunks == (Len(Rows) + Chunk - 1) \div Chunk

Elems(s) == {s[i] : i \in 1..Len(s)}

VARIABLES chunk, bad
vars == <<chunk, bad>>

TypeOf(r) == [w |-> r.w, K |-> r.K, z |-> r.z]

\* a plain call: c -- op(a, b) --> result k/r, new value n; g = 1 iff memory around the atomic is
\* untouched and its raw bytes agree with a load
OpRow(r) == LET t == TypeOf(r) IN
    /\ r.g = 1
    /\ IsValue(t, r.c) /\ IsValue(t, r.n)
    /\ Allowed(t, r.op, r.c, r.a, r.b, r.o, [k |-> r.k, r |-> r.r, n |-> r.n])

\* a call with orderings o, f (possibly invalid): refused without effect iff invalid
OrdRow(r) == LET t == TypeOf(r) IN
    /\ IF OrderOK(r.op, r.o, r.f)
       THEN /\ Allowed(t, r.op, r.c, r.a, r.b, r.x, [k |-> r.k, r |-> r.r, n |-> r.n])
            /\ r.calls = (IF r.op = "upd" THEN 1 ELSE 0)
       ELSE r.k = "panic" /\ r.n = r.c /\ r.calls = 0
    /\ r.after = 1                 \* the atomic is usable afterwards

\* fetch_update whose closure's k-th call (k <= Len(script)) stores script[k] in the atomic before it
\* answers: Some(value + a), or None for b; with boom = 1, call Len(script) + 1 panics.  `given` are
\* the values the closure was given, `had` those the atomic held when it was called.
InjRow(r) == LET t == TypeOf(r)
                 m == Len(r.given)
                 s == Len(r.script)
                 Held(k) == IF k = 0 \/ s = 0 THEN r.c ELSE r.script[IF k < s THEN k ELSE s]   \* after call k
                 F(v) == IF v = r.b THEN <<>> ELSE <<IF r.K = "b" THEN BXor(t, v, r.a) ELSE WAdd(t, v, r.a)>> IN
    /\ r.after = 1 /\ m >= 1
    /\ \A k \in 1..m : r.had[k] = Held(k - 1) /\ r.given[k] = Held(k - 1)
    /\ \A k \in 1..m - 1 : F(r.given[k]) # <<>>      \* None ends it
    /\ IF r.boom = 1 /\ m = s + 1 THEN r.k = "panic" /\ r.n = Held(m)
       ELSE IF F(r.given[m]) = <<>> THEN r.k = "err" /\ r.r = r.given[m] /\ r.n = Held(m)
       ELSE /\ r.k = "ok" /\ r.r = r.given[m] /\ Held(m) = r.given[m]      \* nothing in between
            /\ r.n = F(r.given[m])[1]

\* Two threads' read-modify-writes on one atomic, counted: edges[e] says that n calls of an operation
\* returned r.  The calls are those of one order from c to the final value n exactly if each value is
\* left as often as it is entered, save for the ends (and all is reached from c, which follows when
\* the values looked at are ends of edges).  Bit operations return one bit only, operations without a
\* result nothing: for those only the end is fixed.  Stores (one operand per row) have unknown old
\* values, so the balance may miss as many departures as there were stores.
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
RECURSIVE Iterate(_, _, _, _)
Iterate(t, e, v, k) == IF k = 0 THEN v ELSE Iterate(t, e, Apply(t, e.op, v, e.a, e.b).n, k - 1)
ChainRow(r) ==
    LET t == TypeOf(r)
        E == DOMAIN r.edges
        Count == [e \in E |-> r.edges[e].n]
        Moves == {e \in E : r.edges[e].k \in {"v", "ok"}}
        Failed == {e \in E : r.edges[e].k = "err"}
        Quiet == {e \in E : r.edges[e].k = "u" /\ r.edges[e].op # "store"}
        Stores == {e \in E : r.edges[e].op = "store"}
        Bits == {e \in E : r.edges[e].k = "b"}
        New == [e \in E |-> IF e \notin Moves THEN <<>>
                              ELSE IF r.K = "f" /\ r.edges[e].op \in {"fadd", "fsub"} THEN r.edges[e].x
                              ELSE Apply(t, r.edges[e].op, r.edges[e].r, r.edges[e].a, r.edges[e].b).n]
        Values == {r.edges[e].r : e \in Moves} \cup {New[e] : e \in Moves} \cup {r.edges[e].a : e \in Stores} \cup {r.c, r.n}
        Out(v) == Total(Count, {e \in Moves : r.edges[e].r = v})
        In(v)  == Total(Count, {e \in Moves : New[e] = v}) + Total(Count, {e \in Stores : r.edges[e].a = v})
        Miss(v) == In(v) + (IF v = r.c THEN 1 ELSE 0) - Out(v) - (IF v = r.n THEN 1 ELSE 0)
        MaskOf(e) == BitMask(t, r.edges[e].a)
        BitAt(v, e) == IF BitTest(t, v, r.edges[e].a) THEN 1 ELSE 0
    IN
    /\ r.g = 1 /\ IsValue(t, r.n)
    \* each move follows from its operation: a successful compare-exchange met what it expected
    /\ \A e \in Moves : /\ (r.edges[e].op \in CasOps => r.edges[e].r = r.edges[e].a)
                         /\ (r.edges[e].op = "upd" => r.edges[e].r # r.edges[e].b)
    /\ \A e \in Failed : /\ (r.edges[e].op = "cas" => r.edges[e].r # r.edges[e].a)
                          /\ (r.edges[e].op = "upd" => r.edges[e].r = r.edges[e].b)
                          /\ r.edges[e].r \in Values
    /\ \A i \in DOMAIN r.looks : r.looks[i] \in Values \/ Quiet \cup Bits # {}
    /\ (Quiet \cup Bits = {}) =>
          IF Stores = {} THEN \A v \in Values : Miss(v) = 0
          ELSE /\ \A v \in Values : Miss(v) >= 0
               /\ Total([v \in Values |-> Miss(v)], Values) = Total(Count, Stores)
    \* counted operations without results: they commute, and repeat with period two (or are idempotent,
    \* or are additions), so the end is known
    /\ (Quiet = E) =>
          LET Go[k \in 0..Len(r.edges)] ==
                 IF k = 0 THEN r.c
                 ELSE LET e == r.edges[k] IN
                      IF e.op \in {"add", "sub"}
                      THEN LET d == WAdd(t, WScale(t, WScale(t, e.a, 4096), e.n \div 4096), WScale(t, e.a, e.n % 4096)) IN IF e.op = "add" THEN WAdd(t, Go[k-1], d) ELSE WSub(t, Go[k-1], d)
                      ELSE Iterate(t, e, Go[k-1], IF e.op \in {"and", "or"} THEN 1 ELSE e.n % 2)
          IN r.n = Go[Len(r.edges)]
    \* bits: each bit position on its own is a chain of its values 0 and 1
    /\ (Bits = E) =>
          \A d \in E :
             LET Same == {e \in E : MaskOf(e) = MaskOf(d)}
                 NewBit(e) == CASE r.edges[e].op = "bset" -> 1 [] r.edges[e].op = "bclr" -> 0 [] OTHER -> 1 - r.edges[e].r[1]
             IN \A v \in {0, 1} :
                  Total(Count, {e \in Same : NewBit(e) = v}) + (IF BitAt(r.c, d) = v THEN 1 ELSE 0)
                   = Total(Count, {e \in Same : r.edges[e].r[1] = v}) + (IF BitAt(r.n, d) = v THEN 1 ELSE 0)

\* One call on a machine without an operating system, interrupted (took times) by handlers that made the
\* calls in `script` on the same atomic, all in their order. The call takes effect at one point in that
\* order, and all results follow from it. The processor's interrupt state afterwards is what it was before
\* (s0 = s1, st0 = st1), for the handlers' calls too, and where interrupts were masked before the call none
\* is taken during it; where they were not, none is lost. (Or: another processor makes the calls at some instruction,
\* and st0 = st1 is what it left around the atomic.) x[j + 1] is the plain float operation's result on the
\* value after j calls of the handlers.
After(t, i, v) == IF i.k = "err" THEN v ELSE Apply(t, i.op, v, i.a, i.b).n
RECURSIVE Follow(_, _, _, _)
Follow(t, items, v, n) ==
    IF items = <<>> THEN v = n
    ELSE LET i == Head(items) IN
         /\ Allowed(t, i.op, v, i.a, i.b, <<>>, [k |-> i.k, r |-> i.r, n |-> After(t, i, v)])
         /\ Follow(t, Tail(items), After(t, i, v), n)
RECURSIVE Taken(_, _, _, _)
Taken(t, r, j, v) ==          \* the call takes effect after j of the handlers' calls, or later; v: the value then
    LET N == Len(r.script)
        new == IF r.k = "err" THEN v
               ELSE IF r.K = "f" /\ j = N /\ r.k = "v" /\ r.op \in {"fadd", "fsub", "fmax", "fmin"} THEN r.n
               ELSE IF r.K = "f" /\ r.op \in {"fadd", "fsub"} THEN r.x[j + 1]
               ELSE IF r.K = "f" /\ r.op \in {"fmax", "fmin"} /\ (IsNaN(t, v) \/ IsNaN(t, r.a) \/ v = r.a) THEN (IF IsNaN(t, v) THEN r.a ELSE v)
               ELSE Apply(t, r.op, v, r.a, r.b).n
        i == r.script[j + 1] IN
    \/ /\ Allowed(t, r.op, v, r.a, r.b, r.x[j + 1], [k |-> r.k, r |-> r.r, n |-> new])
       /\ Follow(t, SubSeq(r.script, j + 1, N), new, r.n)
    \/ /\ j < N
       /\ Allowed(t, i.op, v, i.a, i.b, <<>>, [k |-> i.k, r |-> i.r, n |-> After(t, i, v)])
       /\ Taken(t, r, j + 1, After(t, i, v))
IntRow(r) == LET t == TypeOf(r) IN
    /\ r.st0 = r.st1 /\ \A i \in DOMAIN r.script : r.script[i].s0 = r.script[i].s1
    /\ r.took = (IF r.masked = 1 THEN 0 ELSE r.asked)
    /\ r.k # "none"
    /\ Taken(t, r, 0, r.c)

\* The words of a lock-based atomic's own (hist[k + 1]: all of them after k calls; lock[i] = 1: one that
\* read-modify-writes took the lock by; marks: what they put there).  A call that replaced the value by
\* another one has moved the version on, and no version comes twice; one that failed or only read has
\* put it back; and no version is what the lock's owner puts there.
VerRow(r) ==
    LET t == TypeOf(r)
        N == Len(r.ops)
        Cur[k \in 0..N] == IF k = 0 THEN r.c ELSE Apply(t, r.ops[k].op, Cur[k-1], r.ops[k].a, r.ops[k].b).n
    IN
    /\ r.hang = 0
    /\ r.n = Cur[N]
    /\ \A i, j \in 0..N : i < j =>
          /\ (\E k \in i + 1..j : Cur[k] # Cur[k-1]) => r.hist[i + 1] # r.hist[j + 1]
          /\ (\A k \in i + 1..j : r.ops[k].op = "load" \/ (r.ops[k].op \in CasOps \cup {"upd"} /\ Apply(t, r.ops[k].op, Cur[k-1], r.ops[k].a, r.ops[k].b).k = "err"))
                => r.hist[i + 1] = r.hist[j + 1]
    \* a version goes up, unless it was in the upper half of what its word (size[i] bytes) holds
    /\ \A k \in 1..N, i \in DOMAIN r.lock :
          LET Top(w) == IF r.size[i] = 8 THEN w[4] ELSE w[2]
              x == r.hist[k][i]
              y == r.hist[k + 1][i]
              Under(u, v) == \E d \in 1..4 : u[d] < v[d] /\ \A e \in d + 1..4 : u[e] = v[e]
          IN r.lock[i] = 1 /\ Under(y, x) => Top(x) >= 32768
    /\ \A k \in 0..N, i \in DOMAIN r.lock, m \in DOMAIN r.marks : r.lock[i] = 1 => r.hist[k + 1][i] # r.marks[m]

\* fences: a relaxed fence is refused, every other one is accepted
FenceRow(r) == r.k = (IF r.o = "rlx" THEN "panic" ELSE "u")

\* layout: size and alignment in bytes
LayoutRow(r) == LET bytes == IF r.w = 1 THEN 1 ELSE r.w \div 8 IN
    r.size = bytes /\ r.align = bytes /\ r.vsize = bytes

\* a view of the value: what the view reports must be the current value
ViewRow(r) == r.c = r.n
StrRow(r)  == r.s1 = r.s2

\* lock freedom: `always` implies `now`; constant during the run; the report says whether the
\* operation used shared state other than the atomic (locks = 1: it changed a global;
\* cs = 1: it entered a critical section); and it is what this CPU and build must give
LfRow(r) == /\ (r.always = 1 => r.now = 1)
            /\ r.const = 1
            /\ (r.now = 1 <=> (r.locks = 0 /\ r.cs = 0))
            /\ (r.expect # "any" => r.now = (IF r.expect = "yes" THEN 1 ELSE 0))

\* One call as executed on AArch64. Each access that carries the value is single-copy atomic: one
\* instruction over the whole atomic, and for 16 bytes one of those the architecture promises it for
\* (plain pair accesses with FEAT_LSE2, exclusive pairs whose store succeeds, CASP and the 128-bit
\* read-modify-writes); and nothing is executed that the processor does not report to have.
WholeRow(r) == /\ Elems(r.need) \subseteq Elems(r.have)
               /\ \A i \in 1..Len(r.acc) :
                    LET a == r.acc[i] IN
                    /\ a.part = "all"
                    /\ r.bits = 128 => /\ a.i \in {"ld", "st", "ldi", "sti"} => "lse2" \in Elems(r.have)
                                       /\ a.i \in {"ldx", "stx"} => a.paired = 1

\* everybody who asks, at whatever moment of the first uses, is told the same and the truth
FirstRow(r) == /\ \A i \in 1..Len(r.said) : r.said[i] = r.said[1] /\ r.said[i] \in {0, 1}
               /\ (r.expect # "any" => r.said[1] = (IF r.expect = "yes" THEN 1 ELSE 0))

\* availability macros: `has` and `no` bodies expanded, type available
MacroRow(r) == r.has + r.no = 1 /\ r.has = r.avail

RowOK(r) ==
    CASE r.q = "op"     -> OpRow(r)
      [] r.q = "ord"    -> OrdRow(r)
      [] r.q = "inj"    -> InjRow(r)
      [] r.q = "chain"  -> ChainRow(r)
      [] r.q = "int"    -> IntRow(r)
      [] r.q = "ver"    -> VerRow(r)
      [] r.q = "fence"  -> FenceRow(r)
      [] r.q = "layout" -> LayoutRow(r)
      [] r.q = "view"   -> ViewRow(r)
      [] r.q = "str"    -> StrRow(r)
      [] r.q = "lf"     -> LfRow(r)
      [] r.q = "whole"  -> WholeRow(r)
      [] r.q = "first"  -> FirstRow(r)
      [] r.q = "macro"  -> MacroRow(r)
      [] OTHER -> FALSE

BadIn(c) == {i \in ((c - 1) * Chunk + 1)..(IF c * Chunk < Len(Rows) THEN c * Chunk ELSE Len(Rows)) : ~RowOK(Rows[i])}

Init == chunk \in 1..NChunks /\ bad = {0}
Judge == /\ bad = {0}
         /\ bad' = BadIn(chunk)
         /\ \A i \in bad' : PrintT(<<"BAD", i>>)
         /\ PrintT(<<"OK", chunk>>)
         /\ UNCHANGED chunk
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
