-------------------------------- MODULE Ops --------------------------------
(* The sequential meaning of every operation of the library.

   A value of a type is a sequence of limbs, least significant first. The type is a record
     [w |-> width in bits, K |-> "u" | "s" | "b" | "p" | "f", z |-> pointee size]
   (unsigned, signed, boolean, pointer, float).  Limbs are 16 bits wide, except that the one limb of
   an 8-bit value has 8 bits and the one of a boolean has 1.                                     *)
EXTENDS Integers, Sequences, Bitwise

NLimbs(t) == IF t.w <= 8 THEN 1 ELSE t.w \div 16
Base(t)   == IF t.w = 1 THEN 2 ELSE IF t.w = 8 THEN 256 ELSE 65536
LimbBits(t) == IF t.w = 1 THEN 1 ELSE IF t.w = 8 THEN 8 ELSE 16

IsValue(t, v) == /\ Len(v) = NLimbs(t)
                 /\ \A i \in 1..Len(v) : v[i] >= 0 /\ v[i] < Base(t)

Zero(t) == [i \in 1..NLimbs(t) |-> 0]
One(t)  == [i \in 1..NLimbs(t) |-> IF i = 1 THEN 1 ELSE 0]
Ones(t) == [i \in 1..NLimbs(t) |-> Base(t) - 1]

\* ---------------------------------------------------------------- bitwise
BNot(t, a)    == [i \in 1..NLimbs(t) |-> Base(t) - 1 - a[i]]
BAnd(t, a, b) == [i \in 1..NLimbs(t) |-> a[i] & b[i]]
BOr(t, a, b)  == [i \in 1..NLimbs(t) |-> a[i] | b[i]]
BXor(t, a, b) == [i \in 1..NLimbs(t) |-> a[i] ^^ b[i]]

\* A bit index is a 32-bit number given as two 16-bit limbs; it counts modulo the width, and every
\* width is a power of two not above 2^16, so the low limb decides.
BitPos(t, idx) == idx[1] % t.w
BitMask(t, idx) == LET p == BitPos(t, idx) IN
    [i \in 1..NLimbs(t) |-> IF (p \div LimbBits(t)) + 1 = i THEN 2 ^ (p % LimbBits(t)) ELSE 0]
BitTest(t, v, idx) == BAnd(t, v, BitMask(t, idx)) # Zero(t)

\* ---------------------------------------------------------------- arithmetic modulo 2^w
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(t, a, b, i, c) ==
    IF i > NLimbs(t) THEN <<>>
    ELSE LET s == a[i] + b[i] + c IN <<s % Base(t)>> \o AddFrom(t, a, b, i + 1, s \div Base(t))
WAdd(t, a, b) == AddFrom(t, a, b, 1, 0)
WNeg(t, a)    == AddFrom(t, BNot(t, a), Zero(t), 1, 1)
WSub(t, a, b) == AddFrom(t, a, BNot(t, b), 1, 1)

RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(t, a, k, i, c) ==
    IF i > NLimbs(t) THEN <<>>
    ELSE LET s == a[i] * k + c IN <<s % Base(t)>> \o MulFrom(t, a, k, i + 1, s \div Base(t))
WScale(t, a, k) == MulFrom(t, a, k, 1, 0)          \* k < 2^15

\* ---------------------------------------------------------------- comparison
RECURSIVE ULessFrom(_, _, _)
ULessFrom(a, b, i) == IF i = 0 THEN FALSE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULessFrom(a, b, i - 1)
ULess(t, a, b) == ULessFrom(a, b, NLimbs(t))
SignBit(t, a)  == a[NLimbs(t)] >= Base(t) \div 2
SLess(t, a, b) == IF SignBit(t, a) # SignBit(t, b) THEN SignBit(t, a) ELSE ULess(t, a, b)
Less(t, a, b)  == IF t.K = "s" THEN SLess(t, a, b) ELSE ULess(t, a, b)

\* ---------------------------------------------------------------- floats (bit patterns)
FlipSign(t, a)  == [a EXCEPT ![NLimbs(t)] = IF @ >= 32768 THEN @ - 32768 ELSE @ + 32768]
ClearSign(t, a) == [a EXCEPT ![NLimbs(t)] = @ % 32768]
\* bits of the exponent field that lie in the top limb, as a number
ExpTop(t) == CASE t.w = 16 -> 31744 [] t.w = 32 -> 32640 [] t.w = 64 -> 32752 [] OTHER -> 32767
Infinity(t) == [i \in 1..NLimbs(t) |-> IF i = NLimbs(t) THEN ExpTop(t) ELSE 0]
IsNaN(t, a) == ULess(t, Infinity(t), ClearSign(t, a))
FZero(t, a) == ClearSign(t, a) = Zero(t)
FLess(t, a, b) ==                                          \* neither is NaN
    IF FZero(t, a) /\ FZero(t, b) THEN FALSE
    ELSE IF SignBit(t, a) # SignBit(t, b) THEN SignBit(t, a)
    ELSE IF SignBit(t, a) THEN ULess(t, b, a) ELSE ULess(t, a, b)

\* ---------------------------------------------------------------- results
\* Results are [k |-> kind, r |-> limbs, n |-> new value]; an operation denotes a set of them.
Val(r, n)  == [k |-> "v", r |-> r, n |-> n]
Unit(n)    == [k |-> "u", r |-> <<>>, n |-> n]
Bool(b, n) == [k |-> "b", r |-> <<IF b THEN 1 ELSE 0>>, n |-> n]
Success(r, n) == [k |-> "ok", r |-> r, n |-> n]
Failure(r)    == [k |-> "err", r |-> r, n |-> r]

\* The new value of the modifying operations that return the old value or nothing.
NewInt(t, op, c, a) ==
    CASE op \in {"fadd", "add"}  -> WAdd(t, c, a)
      [] op \in {"fsub", "sub"}  -> WSub(t, c, a)
      [] op \in {"fand", "and"}  -> BAnd(t, c, a)
      [] op = "fnand"            -> BNot(t, BAnd(t, c, a))
      [] op \in {"for", "or"}    -> BOr(t, c, a)
      [] op \in {"fxor", "xor"}  -> BXor(t, c, a)
      [] op = "fmax"             -> IF Less(t, c, a) THEN a ELSE c
      [] op = "fmin"             -> IF Less(t, a, c) THEN a ELSE c
      [] op \in {"fnot", "not"}  -> BNot(t, c)
      [] op \in {"fneg", "neg"}  -> WNeg(t, c)
      [] op \in {"swap", "store"} -> a
      [] op = "padd"             -> WAdd(t, c, WScale(t, a, t.z))
      [] op = "psub"             -> WSub(t, c, WScale(t, a, t.z))
      [] op = "badd"             -> WAdd(t, c, a)
      [] op = "bsub"             -> WSub(t, c, a)

\* Float results as sets: the payload of a NaN result of arithmetic, and which of two zeros max/min
\* keeps, are not specified. `orc` is the plain operation's result.
NewFloat(t, op, c, a, orc, n) ==
    CASE op \in {"fadd", "fsub"} -> IF IsNaN(t, orc) THEN IsNaN(t, n) ELSE n = orc
      [] op \in {"fmax", "fmin"} ->
            IF IsNaN(t, c) /\ IsNaN(t, a) THEN IsNaN(t, n)
            ELSE IF IsNaN(t, c) THEN n = a
            ELSE IF IsNaN(t, a) THEN n = c
            ELSE IF FZero(t, c) /\ FZero(t, a) THEN n \in {c, a}
            ELSE IF op = "fmax" THEN n = (IF FLess(t, c, a) THEN a ELSE c)
                                ELSE n = (IF FLess(t, a, c) THEN a ELSE c)
      [] op = "fneg" -> n = FlipSign(t, c)
      [] op = "fabs" -> n = ClearSign(t, c)
      [] op \in {"swap", "store"} -> n = a

\* The same as a function, for the inputs the concurrent programs use: neither operand is a NaN, not
\* both are zeros, and the operands of an addition or subtraction are equal normal numbers (far from
\* overflow), or one of them is +0.0.
ExpOne(t) == [i \in 1..NLimbs(t) |-> IF i < NLimbs(t) THEN 0 ELSE CASE t.w = 16 -> 1024 [] t.w = 32 -> 128 [] t.w = 64 -> 16 [] OTHER -> 1]
FloatStep(t, op, c, a) ==
    CASE op = "fadd" -> IF a = Zero(t) THEN c ELSE IF c = Zero(t) THEN a ELSE WAdd(t, c, ExpOne(t))
      [] op = "fsub" -> IF a = Zero(t) THEN c ELSE IF c = Zero(t) THEN FlipSign(t, a) ELSE Zero(t)
      [] op = "fmax" -> IF FLess(t, c, a) THEN a ELSE c
      [] op = "fmin" -> IF FLess(t, a, c) THEN a ELSE c
      [] op = "fneg" -> FlipSign(t, c)
      [] op = "fabs" -> ClearSign(t, c)
      [] op \in {"swap", "store"} -> a

NoReturn == {"store", "add", "sub", "and", "or", "xor", "not", "neg"}
ReadOnly == {"load"}
BitOps   == {"bset", "bclr", "btog"}
CasOps   == {"cas", "casw"}

\* Is the observed result [k, r, n] one that operation `op` may have on current value c?
Allowed(t, op, c, a, b, orc, res) ==
    CASE op = "load" -> res = Val(c, c)
      [] op \in CasOps ->
            \/ c = a /\ res = Success(c, b)
            \/ c # a /\ res = Failure(c)
            \/ op = "casw" /\ res = Failure(c)
      [] op = "upd" -> IF c = b THEN res = Failure(c) ELSE res = Success(c, WAdd(t, c, a))
      [] op = "bset" -> res = Bool(BitTest(t, c, a), BOr(t, c, BitMask(t, a)))
      [] op = "bclr" -> res = Bool(BitTest(t, c, a), BAnd(t, c, BNot(t, BitMask(t, a))))
      [] op = "btog" -> res = Bool(BitTest(t, c, a), BXor(t, c, BitMask(t, a)))
      [] OTHER ->
            /\ IF op \in NoReturn THEN res.k = "u" /\ res.r = <<>> ELSE res.k = "v" /\ res.r = c
            /\ IF t.K = "f" THEN NewFloat(t, op, c, a, orc, res.n) ELSE res.n = NewInt(t, op, c, a)

\* The deterministic step used by the concurrent specifications (all types but floats with
\* arithmetic): the result of `op` on c, with the strong meaning of compare-exchange.
Apply(t, op, c, a, b) ==
    CASE op = "load" -> Val(c, c)
      [] op \in CasOps -> IF c = a THEN Success(c, b) ELSE Failure(c)
      [] op = "upd" -> IF c = b THEN Failure(c) ELSE Success(c, WAdd(t, c, a))
      [] op = "bset" -> Bool(BitTest(t, c, a), BOr(t, c, BitMask(t, a)))
      [] op = "bclr" -> Bool(BitTest(t, c, a), BAnd(t, c, BNot(t, BitMask(t, a))))
      [] op = "btog" -> Bool(BitTest(t, c, a), BXor(t, c, BitMask(t, a)))
      [] op \in NoReturn -> Unit(NewInt(t, op, c, a))
      [] t.K = "f" -> Val(c, FloatStep(t, op, c, a))
      [] OTHER -> Val(c, NewInt(t, op, c, a))

\* ---------------------------------------------------------------- memory orderings
Orderings == {"rlx", "acq", "rel", "ar", "sc"}
\* May the operation be called with ordering o (and failure / fetch ordering f)?
OrderOK(op, o, f) ==
    CASE op = "load"  -> o \in {"rlx", "acq", "sc"}
      [] op = "store" -> o \in {"rlx", "rel", "sc"}
      [] op \in CasOps \cup {"upd"} -> f \in {"rlx", "acq", "sc"}
      [] OTHER -> TRUE
=============================================================================
