------------------------------ MODULE HwOrder -------------------------------
(* What the instructions of an operation mean on the hardware: AArch64, Power, x86 and z/Architecture
   (total store order), RISC-V.

   Each call of the library is a sequence of machine events (the shape recorded from the running
   code): reads and writes of the atomic, with the ordering marks of the instruction, and barriers.
   A candidate execution chooses a way for each call, a coherence order for each location and a write
   for each read; it is an execution of the machine if it is coherent, its read-write pairs are atomic,
   and it satisfies the axioms of the machine's memory model:
     arm    Armv8, multi-copy atomic ("external visibility"): no cycle in ordered-before
     tso    no cycle in program order (without store to load) with the external communications
     riscv  RVWMO: no cycle in preserved program order with the external communications
     power  not multi-copy atomic: no thin air, observation, propagation (Alglave, Maranget, Tautschnig 2014)

   Every outcome is printed; tools/arm.py and tools/hw.py give them to WeakMem, which must allow each.

   Prog[p] = [arch, locs |-> <<[t, init]>>,
              ths  |-> << << [op, loc, a, b, o, f, ways |-> <<[k, c, ev |-> <<[k, m, x, s]>>]>>] >> >>]
   c: the current values it was recorded with.
   event: k "R" | "W" | "F";  x: 0 or the number of the read-write pair;  s: TRUE if the value read is
   the one the call is about;  m, the mark:
     arm    "A" acquire, "Q" acquirePC, "L" release; barriers "sy", "ld", "st"
     tso    "X" of a locked instruction; barrier "sy"
     riscv  "A", "L", "AL"; a barrier has before and after, sets of "R" and "W"
     power  barriers "sync", "lwsync", and "isync" when a branch of the call that depends on what it
            read comes before it                                                                     *)
EXTENDS Ops, TLC, Json, IOUtils, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }

Prog == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES p, out
vars == <<p, out>>

Threads == DOMAIN Prog[p].ths
Locs    == DOMAIN Prog[p].locs
Inst(t, i) == Prog[p].ths[t][i]

\* ---------------------------------------------------------------- events
\* A way for each call
RECURSIVE WaysOf(_, _)
WaysOf(t, i) == IF i > Len(Prog[p].ths[t]) THEN {<<>>}
                ELSE { <<w>> \o s : w \in 1..Len(Inst(t, i).ways), s \in WaysOf(t, i + 1) }
RECURSIVE AllWays(_)
AllWays(t) == IF t > Len(Prog[p].ths) THEN {<<>>} ELSE { <<w>> \o s : w \in WaysOf(t, 1), s \in AllWays(t + 1) }

Way(c, t, i) == Inst(t, i).ways[c[t][i]]
Ev(c, e) == Way(c, e[1], e[2]).ev[e[3]]
Events(c) == UNION { UNION { { <<t, i, j>> : j \in 1..Len(Way(c, t, i).ev) } : i \in 1..Len(Prog[p].ths[t]) } : t \in Threads }
LocOf(e) == Inst(e[1], e[2]).loc
Po(a, b) == a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))

InitW(l) == <<0, l, 0>>

\* ---------------------------------------------------------------- coherence orders and reads-from
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>}
             ELSE UNION { { <<w>> \o s : s \in Orders(S \ {w}) } : w \in { v \in S : ~ \E u \in S : Po(u, v) } }
RECURSIVE CoFrom(_, _)
CoFrom(W, l) == IF l > Len(Prog[p].locs) THEN {<<>>}
                ELSE { <<o>> \o s : o \in Orders({ w \in W : LocOf(w) = l }), s \in CoFrom(W, l + 1) }

RECURSIVE Assign(_, _)
Assign(S, cand) == IF S = {} THEN {<<>>}
                   ELSE LET r == CHOOSE r \in S : TRUE IN { (r :> w) @@ g : w \in cand[r], g \in Assign(S \ {r}, cand) }

Rank(co, l, w) == IF w[1] = 0 THEN 0 ELSE CHOOSE n \in DOMAIN co[l] : co[l][n] = w
At(co, l, n) == IF n = 0 THEN InitW(l) ELSE co[l][n]

\* ---------------------------------------------------------------- values
ReadOf(c, e) == \* the read whose value decides the call of event e
    CHOOSE r \in { <<e[1], e[2], j>> : j \in 1..Len(Way(c, e[1], e[2]).ev) } :
        Ev(c, r).k = "R" /\ Ev(c, r).s
Reads(c, t, i) == \E j \in 1..Len(Way(c, t, i).ev) : Way(c, t, i).ev[j].k = "R" /\ Way(c, t, i).ev[j].s
None == <<-1>>
RECURSIVE ValW(_, _, _, _)
ValW(c, rf, w, fuel) ==
    IF w[1] = 0 THEN Prog[p].locs[w[2]].init
    ELSE IF fuel = 0 THEN None
    ELSE LET i == Inst(w[1], w[2])
             \* an earlier pair of the call puts back what it read
             back == { r \in { <<w[1], w[2], j>> : j \in 1..w[3] } : Ev(c, r).k = "R" /\ Ev(c, r).x = Ev(c, w).x /\ ~ Ev(c, r).s /\ Ev(c, w).x # 0 } IN
         IF back # {} THEN ValW(c, rf, rf[CHOOSE r \in back : TRUE], fuel - 1)
         ELSE IF i.op = "store" THEN i.a
         ELSE LET v == ValW(c, rf, rf[ReadOf(c, w)], fuel - 1) IN
              IF v = None THEN None ELSE Apply(Prog[p].locs[i.loc].t, i.op, v, i.a, i.b).n

Result(c, rf, t, i, fuel) ==
    LET in == Inst(t, i) IN
    IF in.op \in {"fence", "store"} THEN [k |-> "u", r |-> <<>>]
    ELSE LET v == ValW(c, rf, rf[ReadOf(c, <<t, i, 1>>)], fuel) IN
         IF v = None THEN [k |-> "none", r |-> <<>>]
         ELSE LET x == Apply(Prog[p].locs[in.loc].t, in.op, v, in.a, in.b) IN [k |-> x.k, r |-> x.r]

\* Is the way chosen one the call was seen to take from the value it reads? (From a value it was never
\* tried with it may take any.)
Fits(c, rf, t, i, k, fuel) ==
    LET in == Inst(t, i)  w == Way(c, t, i) IN
    /\ w.k \in {"any", k}
    /\ in.op \in {"fence", "store"} \/
       LET v == ValW(c, rf, rf[ReadOf(c, <<t, i, 1>>)], fuel) IN
       v \in Range(w.c) \/ \A y \in DOMAIN in.ways : v \notin Range(in.ways[y].c)

\* ---------------------------------------------------------------- the axioms
RECURSIVE Acyclic(_, _)
Acyclic(S, R) == IF S = {} THEN TRUE
                 ELSE LET src == { e \in S : ~ \E f \in S : <<f, e>> \in R } IN
                      src # {} /\ Acyclic(S \ src, R)

\* relations as functions: what each event is related to
Post(S, rel) == [a \in S |-> { b \in S : <<a, b>> \in rel }]
Un(f, g) == [a \in DOMAIN f |-> f[a] \cup g[a]]
Comp(f, g) == [a \in DOMAIN f |-> UNION { g[b] : b \in f[a] }]
RECURSIVE Grow(_, _)
Grow(S, f) == LET T == S \cup UNION { f[e] : e \in S } IN IF T = S THEN S ELSE Grow(T, f)
Star(f) == [a \in DOMAIN f |-> Grow({a}, f)]

Arch == Prog[p].arch
Executions(c) ==
    LET E == Events(c)
        W == { e \in E : Ev(c, e).k = "W" }
        R == { e \in E : Ev(c, e).k = "R" }
        Pair(r) == { w \in W : w[1] = r[1] /\ w[2] = r[2] /\ Ev(c, r).x # 0 /\ Ev(c, w).x = Ev(c, r).x }
        Free == { r \in R : Pair(r) = {} }
        PoLoc(a, b) == Po(a, b) /\ LocOf(a) = LocOf(b)
        Between(a, b, m) == \E f \in E : Ev(c, f).k = "F" /\ Ev(c, f).m = m /\ Po(a, f) /\ Po(f, b)
        \* program-order edges that the machine keeps whatever is read
        Dep(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ Ev(c, a).k = "R" /\ Ev(c, b).k = "W"      \* within a call
        Arm(a, b) == LET x == Ev(c, a)  y == Ev(c, b) IN
            \/ x.k = "R" /\ x.m \in {"A", "Q"}
            \/ y.k = "W" /\ y.m = "L"
            \/ x.k = "W" /\ x.m = "L" /\ y.k = "R" /\ y.m = "A"
            \/ Between(a, b, "sy")
            \/ x.k = "R" /\ Between(a, b, "ld")
            \/ x.k = "W" /\ y.k = "W" /\ Between(a, b, "st")
            \/ PoLoc(a, b) /\ y.k = "W"                                  \* local write successor
            \/ Dep(a, b)
        Tso(a, b) == LET x == Ev(c, a)  y == Ev(c, b) IN
            x.k = "R" \/ y.k = "W" \/ x.m = "X" \/ y.m = "X" \/ Between(a, b, "sy")
        Riscv(a, b) == LET x == Ev(c, a)  y == Ev(c, b) IN
            \/ PoLoc(a, b) /\ y.k = "W"
            \/ \E f \in E : /\ Ev(c, f).k = "F" /\ Po(a, f) /\ Po(f, b)
                            /\ x.k \in Range(Ev(c, f).before) /\ y.k \in Range(Ev(c, f).after)
            \/ x.m \in {"A", "AL"} \/ y.m \in {"L", "AL"}
            \/ x.m # "" /\ y.m # ""                                       \* both RCsc
            \/ Dep(a, b)
        Power(a, b) == LET x == Ev(c, a)  y == Ev(c, b) IN
            \/ PoLoc(a, b) /\ x.k = "R" /\ y.k = "W"
            \/ Dep(a, b)
            \/ x.k = "R" /\ \E f \in E : Ev(c, f).k = "F" /\ Ev(c, f).m = "isync" /\ f[2] = a[2] /\ Po(a, f) /\ Po(f, b)
        Kept(a, b) == CASE Arch = "arm" -> Arm(a, b) [] Arch = "tso" -> Tso(a, b) [] Arch = "riscv" -> Riscv(a, b) [] Arch = "power" -> Power(a, b)
        Mem == W \cup R
        Ppo == { <<a, b>> \in Mem \X Mem : Po(a, b) /\ Kept(a, b) }
        Sync == IF Arch # "power" THEN {} ELSE { <<a, b>> \in Mem \X Mem : Po(a, b) /\ Between(a, b, "sync") }
        Fences == IF Arch # "power" THEN {} ELSE
            Sync \cup { <<a, b>> \in Mem \X Mem : Po(a, b) /\ Between(a, b, "lwsync") /\ ~(Ev(c, a).k = "W" /\ Ev(c, b).k = "R") }
        Same == { <<a, b>> \in Mem \X Mem : PoLoc(a, b) }
        N == Cardinality(W) + 1
        RfOf(co) == Assign(R, [r \in R |->
            IF r \in Free THEN { w \in W : LocOf(w) = LocOf(r) /\ ~ Po(r, w) } \cup { InitW(LocOf(r)) }
            ELSE LET w == CHOOSE w \in Pair(r) : TRUE IN { At(co, LocOf(r), Rank(co, LocOf(r), w) - 1) }])
    IN UNION { LET CoBefore(a, b) == Rank(co, LocOf(b), a) < Rank(co, LocOf(b), b)
                   Co == { <<a, b>> \in W \X W : LocOf(a) = LocOf(b) /\ CoBefore(a, b) }
               IN UNION { LET Rf == { <<rf[r], r>> : r \in { r \in R : rf[r][1] # 0 } }
                              Fr == { <<r, w>> \in R \X W : LocOf(r) = LocOf(w) /\ Rank(co, LocOf(w), rf[r]) < Rank(co, LocOf(w), w) }
                              Ext == { e \in Rf \cup Co \cup Fr : e[1][1] # e[2][1] }
                              Com == Rf \cup Co \cup Fr
                              Out(S) == { e \in S : e[1][1] # e[2][1] }
                              In(S) == { e \in S : e[1][1] = e[2][1] }
                              ArmOK == Acyclic(Mem, Ext \cup Ppo \cup { e \in In(Rf) : Ev(c, e[1]).x # 0 /\ Ev(c, e[2]).m \in {"A", "Q"} })
                              TsoOK == Acyclic(Mem, Ext \cup Ppo)
                              RiscvOK == Acyclic(Mem, Ext \cup Ppo \cup { e \in In(Rf) : Ev(c, e[1]).x # 0 }
                                                  \cup { e \in R \X R : PoLoc(e[1], e[2]) /\ rf[e[1]] # rf[e[2]] /\ ~ \E w \in W : PoLoc(e[1], w) /\ PoLoc(w, e[2]) })
                              PowerOK ==
                                  LET fen == Post(Mem, Fences)
                                      rfe == Post(Mem, Out(Rf))
                                      hb == Post(Mem, Ppo \cup Fences \cup Out(Rf))
                                      hbs == Star(hb)
                                      base == Comp(Un(fen, Comp(rfe, fen)), hbs)
                                      ww == [e \in Mem |-> IF e \in W THEN base[e] \cap W ELSE {}]
                                      prop == Un(ww, Comp(Star(Post(Mem, Com)), Comp(Star(base), Comp(Post(Mem, Sync), hbs))))
                                  IN /\ Acyclic(Mem, Ppo \cup Fences \cup Out(Rf))
                                     /\ \A e \in R : e \notin Comp(Post(Mem, Out(Fr)), Comp(prop, hbs))[e]
                                     /\ Acyclic(Mem, Co \cup { <<a, b>> \in Mem \X Mem : b \in prop[a] })
                              rs == [t \in Threads |-> [i \in 1..Len(Prog[p].ths[t]) |-> Result(c, rf, t, i, N)]]
                          IN IF /\ Acyclic(Mem, Same \cup Rf \cup Co \cup Fr)
                                /\ \A t \in Threads : \A i \in DOMAIN rs[t] : Fits(c, rf, t, i, rs[t][i].k, N)
                                /\ CASE Arch = "arm" -> ArmOK [] Arch = "tso" -> TsoOK [] Arch = "riscv" -> RiscvOK [] Arch = "power" -> PowerOK
                             THEN { [rs |-> rs, fin |-> [l \in Locs |-> ValW(c, rf, At(co, l, Len(co[l])), N)]] }
                             ELSE {}
                          : rf \in RfOf(co) }
             : co \in CoFrom(W, 1) }

RECURSIVE Flat(_, _)
Flat(rs, t) == IF t > Len(rs) THEN <<>> ELSE rs[t] \o Flat(rs, t + 1)

Init == p \in DOMAIN Prog /\ out = <<>>
Next == /\ out = <<>>
        /\ \E c \in AllWays(1) : \E x \in Executions(c) : out' = [res |-> Flat(x.rs, 1), fin |-> x.fin]
        /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Report == out # <<>> => PrintT(<<"OUT", p, ToJson(out)>>)
=============================================================================
