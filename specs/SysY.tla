-------------------------------- MODULE SysY --------------------------------
(***************************************************************************)
(* The SysY abstract machine: an executable small-step specification of    *)
(* the language that cmmc compiles.  One named action per kind of          *)
(* transition; the state is the continuation of the running function, its  *)
(* environment, the store, the call stack, the unread input and the output *)
(* and the number of steps taken.                                          *)
(*                                                                         *)
(* A program that does anything the language leaves undefined (signed      *)
(* overflow, division by zero, an index out of range, an uninitialised     *)
(* read, a floating-point result that is not exact, ...) ends in status    *)
(* "undef": the specification says nothing about it and no implementation  *)
(* is ever judged on it.                                                   *)
(*                                                                         *)
(* Values are tuples: <<n>> an int, <<m,e>> the float m*2^e (normalised),  *)
(* <<obj,off,0>> a pointer to an array element, <<>> undefined.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

MAXI == 2147483647
MINI == -2147483647 - 1

(*------------------------- 32-bit integer arithmetic ---------------------*)
AddOK(a, b) == IF b >= 0 THEN a <= MAXI - b ELSE a >= MINI - b
SubOK(a, b) == IF b >= 0 THEN a >= MINI + b ELSE a <= MAXI + b
AbsV(a) == IF a < 0 THEN -a ELSE a
MulOK(a, b) ==
    IF a = 0 \/ b = 0 THEN TRUE
    ELSE IF a = MINI THEN b = 1
    ELSE IF b = MINI THEN a = 1
    ELSE AbsV(a) <= MAXI \div AbsV(b)

\* C division: truncation towards zero
RECURSIVE TDiv(_, _)
TDiv(a, b) ==
    IF b = MINI THEN (IF a = MINI THEN 1 ELSE 0)
    ELSE IF b > 0 THEN
        LET q == a \div b IN IF a >= 0 \/ a % b = 0 THEN q ELSE q + 1
    ELSE IF b = -1 THEN -a
    ELSE -TDiv(a, -b)
DivOK(a, b) == b # 0 /\ ~(a = MINI /\ b = -1)
TRem(a, b) == IF b = -1 THEN 0
              ELSE IF b = MINI THEN (IF a = MINI THEN 0 ELSE a)
              ELSE LET m == a % AbsV(b) IN IF a >= 0 \/ m = 0 THEN m ELSE m - AbsV(b)

Low31(a) == IF a < 0 THEN (a + MAXI) + 1 ELSE a
MkBits(neg, low) == IF neg THEN low + MINI ELSE low
BitAnd(a, b) == MkBits(a < 0 /\ b < 0, Low31(a) & Low31(b))
BitOr(a, b)  == MkBits(a < 0 \/ b < 0, Low31(a) | Low31(b))
BitXor(a, b) == MkBits((a < 0) # (b < 0), Low31(a) ^^ Low31(b))
BitNot(a) == (-1) - a
Pow2(k) == 2^k
ShlOK(a, k) == k >= 0 /\ k < 31 /\ a >= 0 /\ MulOK(a, Pow2(k))
Shl(a, k) == a * Pow2(k)
ShrOK(k) == k >= 0 /\ k < 32
Shr(a, k) == IF k = 31 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2(k)

(*---------------- exact binary floating point: m * 2^e -------------------*)
FMax == 16777216
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>>
              ELSE IF m % 2 = 0 THEN Norm(m \div 2, e + 1) ELSE <<m, e>>
\* a normalised float in the range the specification speaks about, else undefined
FOk(v) == IF AbsV(v[1]) <= FMax /\ v[2] > -60 /\ v[2] < 60 THEN v ELSE <<>>
IToF(n) == IF n >= -FMax /\ n <= FMax THEN Norm(n, 0) ELSE
           LET v == Norm(n \div 128, 7) IN IF n % 128 = 0 THEN FOk(v) ELSE <<>>
\* truncation; undefined when it does not fit
FToI(v) == IF v[2] >= 0
             THEN (IF v[2] < 31 /\ MulOK(v[1], Pow2(v[2])) THEN <<v[1] * Pow2(v[2])>> ELSE <<>>)
             ELSE (IF v[2] < -30 THEN <<0>> ELSE <<TDiv(v[1], Pow2(-v[2]))>>)
\* align two floats to a common exponent: <<ma, mb, e>> or <<>> when out of range
Align(x, y) ==
    IF x[1] = 0 THEN <<0, y[1], y[2]>>
    ELSE IF y[1] = 0 THEN <<x[1], 0, x[2]>>
    ELSE LET d == x[2] - y[2] IN
      IF d = 0 THEN <<x[1], y[1], x[2]>>
      ELSE IF d > 0 THEN (IF d < 24 /\ MulOK(x[1], Pow2(d)) THEN <<x[1] * Pow2(d), y[1], y[2]>> ELSE <<>>)
      ELSE (IF d > -24 /\ MulOK(y[1], Pow2(-d)) THEN <<x[1], y[1] * Pow2(-d), x[2]>> ELSE <<>>)
FAdd(x, y) ==
    LET a == Align(x, y) IN
    IF Len(a) = 0 THEN <<>>
    ELSE IF ~AddOK(a[1], a[2]) THEN <<>>
    ELSE FOk(Norm(a[1] + a[2], a[3]))
FNeg(x) == IF x[1] = 0 THEN <<>> ELSE <<-x[1], x[2]>>     \* no negative zeros
FSub(x, y) == IF y[1] = 0 THEN x ELSE FAdd(x, <<-y[1], y[2]>>)
FMul(x, y) ==
    IF x[1] = 0 \/ y[1] = 0
      THEN (IF x[1] < 0 \/ y[1] < 0 THEN <<>> ELSE <<0, 0>>)
      ELSE IF MulOK(x[1], y[1]) THEN FOk(Norm(x[1] * y[1], x[2] + y[2])) ELSE <<>>
FDiv(x, y) ==
    IF y[1] = 0 THEN <<>>
    ELSE IF x[1] = 0 THEN (IF y[1] < 0 THEN <<>> ELSE <<0, 0>>)
    ELSE LET q == TDiv(x[1], y[1]) IN
      IF q * y[1] = x[1] THEN FOk(Norm(q, x[2] - y[2])) ELSE <<>>
\* sign of x - y as -1, 0, 1; 2 when the specification cannot tell
FCmp(x, y) ==
    IF x[1] <= 0 /\ y[1] >= 0 THEN (IF x[1] = 0 /\ y[1] = 0 THEN 0 ELSE -1)
    ELSE IF x[1] >= 0 /\ y[1] <= 0 THEN 1
    ELSE LET a == Align(x, y) IN
      IF Len(a) = 0 THEN 2
      ELSE IF a[1] < a[2] THEN -1 ELSE IF a[1] = a[2] THEN 0 ELSE 1

(*--------------------------- scalar operations ---------------------------*)
B2I(b) == IF b THEN <<1>> ELSE <<0>>
IsTrue(v) == v[1] # 0          \* v is an int or float value
ToF(v) == IF Len(v) = 2 THEN v ELSE IF Len(v) = 1 THEN IToF(v[1]) ELSE <<>>
ToI(v) == IF Len(v) = 1 THEN v ELSE IF Len(v) = 2 THEN FToI(v) ELSE <<>>
Conv(ty, v) == IF ty = "i" THEN ToI(v) ELSE IF ty = "f" THEN ToF(v) ELSE v

IntOp(op, a, b) ==
    CASE op = "+"  -> IF AddOK(a, b) THEN <<a + b>> ELSE <<>>
      [] op = "-"  -> IF SubOK(a, b) THEN <<a - b>> ELSE <<>>
      [] op = "*"  -> IF MulOK(a, b) THEN <<a * b>> ELSE <<>>
      [] op = "/"  -> IF DivOK(a, b) THEN <<TDiv(a, b)>> ELSE <<>>
      [] op = "%"  -> IF DivOK(a, b) THEN <<TRem(a, b)>> ELSE <<>>
      [] op = "<"  -> B2I(a < b)
      [] op = ">"  -> B2I(a > b)
      [] op = "<=" -> B2I(a <= b)
      [] op = ">=" -> B2I(a >= b)
      [] op = "==" -> B2I(a = b)
      [] op = "!=" -> B2I(a # b)
      [] op = "&"  -> <<BitAnd(a, b)>>
      [] op = "|"  -> <<BitOr(a, b)>>
      [] op = "^"  -> <<BitXor(a, b)>>
      [] op = "<<" -> IF ShlOK(a, b) THEN <<Shl(a, b)>> ELSE <<>>
      [] op = ">>" -> IF ShrOK(b) THEN <<Shr(a, b)>> ELSE <<>>
      [] OTHER -> <<>>

FltOp(op, x, y) ==
    CASE op = "+"  -> FAdd(x, y)
      [] op = "-"  -> FSub(x, y)
      [] op = "*"  -> FMul(x, y)
      [] op = "/"  -> FDiv(x, y)
      [] OTHER ->
         LET c == FCmp(x, y) IN
         IF c = 2 THEN <<>>
         ELSE CASE op = "<"  -> B2I(c < 0)
                [] op = ">"  -> B2I(c > 0)
                [] op = "<=" -> B2I(c <= 0)
                [] op = ">=" -> B2I(c >= 0)
                [] op = "==" -> B2I(c = 0)
                [] op = "!=" -> B2I(c # 0)
                [] OTHER -> <<>>

BinOp(op, a, b) ==
    LET la == Len(a) lb == Len(b) IN
    IF op = "," THEN (IF la = 0 THEN <<>> ELSE b)
    ELSE IF la = 1 /\ lb = 1 THEN IntOp(op, a[1], b[1])
    ELSE IF la = 0 \/ lb = 0 \/ la = 3 \/ lb = 3 THEN <<>>
    ELSE LET x == ToF(a) y == ToF(b) IN
         IF Len(x) = 0 \/ Len(y) = 0 THEN <<>> ELSE FltOp(op, x, y)

UnOp(op, a) ==
    CASE Len(a) = 0 \/ Len(a) = 3 -> <<>>
      [] op = "-"  -> IF Len(a) = 1 THEN (IF a[1] = MINI THEN <<>> ELSE <<-a[1]>>) ELSE FNeg(a)
      [] op = "!"  -> B2I(a[1] = 0)
      [] op = "!!" -> B2I(a[1] # 0)
      [] op = "+"  -> a
      [] op = "~"  -> IF Len(a) = 1 THEN <<BitNot(a[1])>> ELSE <<>>
      [] op = "(int)"   -> ToI(a)
      [] op = "(float)" -> ToF(a)
      [] OTHER -> <<>>

(*------------------ environments, objects and addresses ------------------*)
\* An environment maps a name to <<kind, object, offset, dims, elemtype>>;
\* kind "s": scalar, "a": array, "p": array parameter (dims[1] unknown).
\* The store is a sequence of objects; an object is a sequence of values.

Bind(env, name, ent) ==
    [x \in DOMAIN env \cup {name} |-> IF x = name THEN ent ELSE env[x]]

RECURSIVE Prod(_, _)
Prod(d, i) == IF i > Len(d) THEN 1 ELSE d[i] * Prod(d, i + 1)

\* linear offset of index values ix (a sequence of ints) into dims d, or -1
RECURSIVE LinOff(_, _, _, _)
LinOff(kind, d, ix, i) ==
    IF i > Len(ix) THEN 0
    ELSE IF ix[i] < 0 /\ ~(kind = "p" /\ i = 1) THEN -100000000
    ELSE IF ~(kind = "p" /\ i = 1) /\ ix[i] >= d[i] THEN -100000000
    ELSE IF ix[i] > 100000 \/ ix[i] < -100000 THEN -100000000
    ELSE ix[i] * Prod(d, i + 1) + LinOff(kind, d, ix, i + 1)

\* pure expressions have lower-case tags; those containing a call upper-case ones
Impure == {"B", "U", "IX", "AD", "AND", "OR", "COND", "C"}
IsImpure(e) == e[1] \in Impure

RECURSIVE Eval(_, _, _), EvalIx(_, _, _, _), Addr(_, _, _, _), PathOff(_, _, _, _)
\* offset of an access path inside an aggregate: a sequence of <<index, extent, stride>>; negative when out of range
PathOff(p, i, env, st) ==
    IF i > Len(p) THEN 0
    ELSE LET v == Eval(p[i][1], env, st) IN
      IF Len(v) # 1 THEN -100000000
      ELSE IF v[1] < 0 \/ v[1] >= p[i][2] THEN -100000000
      ELSE v[1] * p[i][3] + PathOff(p, i + 1, env, st)
\* the address <<obj, off>> of an lvalue, or <<>>
Addr(name, ixs, env, st) ==
    LET ent == env[name] IN
    IF Len(ixs) = 0 THEN <<ent[2], ent[3]>>
    ELSE LET iv == EvalIx(ixs, 1, env, st) IN
      IF Len(iv) # Len(ixs) THEN <<>>
      ELSE LET lo == LinOff(ent[1], ent[4], iv, 1) IN
        IF lo < -1000000 THEN <<>>
        ELSE LET off == ent[3] + lo IN
          IF off < 0 \/ off > Len(st[ent[2]]) THEN <<>> ELSE <<ent[2], off>>
EvalIx(ixs, i, env, st) ==
    IF i > Len(ixs) THEN <<>>
    ELSE LET v == Eval(ixs[i], env, st) IN
         IF Len(v) # 1 THEN <<>> ELSE v \o EvalIx(ixs, i + 1, env, st)
Eval(e, env, st) ==
    CASE e[1] = "n" -> <<e[2]>>
      [] e[1] = "v" ->
           LET ent == env[e[2]] IN
           IF ent[1] = "s" THEN st[ent[2]][ent[3] + 1]
           ELSE <<ent[2], ent[3], 0>>
      [] e[1] = "b" -> BinOp(e[2], Eval(e[3], env, st), Eval(e[4], env, st))
      [] e[1] = "ix" ->
           LET ent == env[e[2]] a == Addr(e[2], e[3], env, st) IN
           IF Len(a) = 0 THEN <<>>
           ELSE IF Len(e[3]) = Len(ent[4])
             THEN (IF a[2] < Len(st[a[1]]) THEN st[a[1]][a[2] + 1] ELSE <<>>)
             ELSE <<a[1], a[2], 0>>
      [] e[1] = "u" -> UnOp(e[2], Eval(e[3], env, st))
      [] e[1] = "and" ->
           LET a == Eval(e[2], env, st) IN
           IF Len(a) = 0 THEN <<>>
           ELSE IF ~IsTrue(a) THEN <<0>> ELSE UnOp("!!", Eval(e[3], env, st))
      [] e[1] = "or" ->
           LET a == Eval(e[2], env, st) IN
           IF Len(a) = 0 THEN <<>>
           ELSE IF IsTrue(a) THEN <<1>> ELSE UnOp("!!", Eval(e[3], env, st))
      [] e[1] = "cond" ->
           LET a == Eval(e[2], env, st) IN
           IF Len(a) = 0 THEN <<>>
           ELSE IF IsTrue(a) THEN Eval(e[3], env, st) ELSE Eval(e[4], env, st)
      [] e[1] = "ad" ->      \* the lvalue an assignment expression changes: object, offset, type
           LET ent == env[e[2]] a == Addr(e[2], e[3], env, st) IN
           IF Len(a) = 0 \/ Len(e[3]) # Len(ent[4]) THEN <<>>
           ELSE IF a[2] < Len(st[a[1]]) THEN <<a[1], a[2], 0, ent[5]>> ELSE <<>>
      [] e[1] = "ap" ->      \* the same for a member or element of an aggregate
           LET ent == env[e[2]] lo == PathOff(e[3], 1, env, st) off == ent[3] + lo IN
           IF lo < 0 \/ off >= Len(st[ent[2]]) THEN <<>> ELSE <<ent[2], off, 0, "i">>
      [] e[1] = "px" ->      \* a member or element of an aggregate, an int
           LET ent == env[e[2]] lo == PathOff(e[3], 1, env, st) off == ent[3] + lo IN
           IF lo < 0 \/ off >= Len(st[ent[2]]) THEN <<>> ELSE st[ent[2]][off + 1]
      [] e[1] = "ps" ->      \* the address of a part of an aggregate
           LET ent == env[e[2]] lo == PathOff(e[3], 1, env, st) IN
           IF lo < 0 \/ ent[3] + lo + e[4] > Len(st[ent[2]]) THEN <<>> ELSE <<ent[2], ent[3] + lo, 0>>
      [] e[1] = "x" -> Norm(e[2], e[3])
      [] e[1] = "k" -> e[2]
      [] OTHER -> <<>>

(*--------------- calls inside expressions: reduction contexts ------------*)
\* Freeze(e): evaluation is strict and left to right, so everything to the
\* left of the next call is reduced to a constant, and && || ?: are decided
\* as soon as their first operand is known.
K(v) == <<"k", v>>
Mk2(op, a, b) == IF IsImpure(a) \/ IsImpure(b) THEN <<"B", op, a, b>> ELSE <<"b", op, a, b>>
Mk1(op, a) == IF IsImpure(a) THEN <<"U", op, a>> ELSE <<"u", op, a>>
AnyImpure(s) == \E i \in 1..Len(s) : IsImpure(s[i])
FirstImpure(s) == CHOOSE i \in 1..Len(s) : IsImpure(s[i]) /\ \A j \in 1..(i-1) : ~IsImpure(s[j])
RECURSIVE Freeze(_, _, _)
RECURSIVE FreezeSeq(_, _, _)
FreezeSeq(s, env, st) ==
    IF ~AnyImpure(s) THEN s
    ELSE LET n == FirstImpure(s)
             t == [i \in 1..Len(s) |-> IF i < n THEN K(Eval(s[i], env, st))
                                       ELSE IF i = n THEN Freeze(s[i], env, st) ELSE s[i]]
         IN IF IsImpure(t[n]) THEN t ELSE FreezeSeq(t, env, st)
Freeze(e, env, st) ==
    CASE e[1] = "B" -> IF IsImpure(e[3])
                         THEN LET a == Freeze(e[3], env, st) IN
                              IF IsImpure(a) \/ ~IsImpure(e[4]) THEN Mk2(e[2], a, e[4])
                              ELSE Freeze(<<"B", e[2], a, e[4]>>, env, st)
                       ELSE Mk2(e[2], K(Eval(e[3], env, st)), Freeze(e[4], env, st))
      [] e[1] = "U" -> Mk1(e[2], Freeze(e[3], env, st))
      [] e[1] = "C" -> IF AnyImpure(e[3]) THEN <<"C", e[2], FreezeSeq(e[3], env, st)>> ELSE e
      [] e[1] = "IX" -> LET s == FreezeSeq(e[3], env, st) IN
                        IF AnyImpure(s) THEN <<"IX", e[2], s>> ELSE <<"ix", e[2], s>>
      [] e[1] = "AD" -> LET s == FreezeSeq(e[3], env, st) IN
                        IF AnyImpure(s) THEN <<"AD", e[2], s>> ELSE <<"ad", e[2], s>>
      [] e[1] = "AND" ->
           IF IsImpure(e[2])
             THEN LET a == Freeze(e[2], env, st) IN
                  IF IsImpure(a) THEN <<"AND", a, e[3]>> ELSE Freeze(<<"AND", a, e[3]>>, env, st)
           ELSE LET a == Eval(e[2], env, st) IN
                IF Len(a) = 0 THEN K(<<>>)
                ELSE IF ~IsTrue(a) THEN K(<<0>>)
                ELSE IF IsImpure(e[3]) THEN Mk1("!!", Freeze(e[3], env, st))
                ELSE K(UnOp("!!", Eval(e[3], env, st)))
      [] e[1] = "OR" ->
           IF IsImpure(e[2])
             THEN LET a == Freeze(e[2], env, st) IN
                  IF IsImpure(a) THEN <<"OR", a, e[3]>> ELSE Freeze(<<"OR", a, e[3]>>, env, st)
           ELSE LET a == Eval(e[2], env, st) IN
                IF Len(a) = 0 THEN K(<<>>)
                ELSE IF IsTrue(a) THEN K(<<1>>)
                ELSE IF IsImpure(e[3]) THEN Mk1("!!", Freeze(e[3], env, st))
                ELSE K(UnOp("!!", Eval(e[3], env, st)))
      [] e[1] = "COND" ->
           IF IsImpure(e[2])
             THEN LET a == Freeze(e[2], env, st) IN
                  IF IsImpure(a) THEN <<"COND", a, e[3], e[4]>> ELSE Freeze(<<"COND", a, e[3], e[4]>>, env, st)
           ELSE LET a == Eval(e[2], env, st)
                    t == IF Len(a) # 0 /\ IsTrue(a) THEN e[3] ELSE e[4] IN
                IF Len(a) = 0 THEN K(<<>>)
                ELSE IF IsImpure(t) THEN Freeze(t, env, st)
                ELSE K(Eval(t, env, st))
      [] OTHER -> e

\* the next call of a frozen expression: <<"C", f, pure argument expressions>>
RECURSIVE Redex(_)
Redex(e) ==
    CASE e[1] = "B" -> IF IsImpure(e[3]) THEN Redex(e[3]) ELSE Redex(e[4])
      [] e[1] = "U" -> Redex(e[3])
      [] e[1] = "C" -> IF AnyImpure(e[3]) THEN Redex(e[3][FirstImpure(e[3])]) ELSE e
      [] e[1] \in {"IX", "AD"} -> Redex(e[3][FirstImpure(e[3])])
      [] OTHER -> Redex(e[2])           \* AND, OR, COND: the first operand
\* replace that call by its result
RECURSIVE Plug(_, _)
PlugSeq(s, v) == LET n == FirstImpure(s) IN [i \in 1..Len(s) |-> IF i = n THEN Plug(s[i], v) ELSE s[i]]
Plug(e, v) ==
    CASE e[1] = "B" -> IF IsImpure(e[3]) THEN Mk2(e[2], Plug(e[3], v), e[4])
                       ELSE Mk2(e[2], e[3], Plug(e[4], v))
      [] e[1] = "U" -> Mk1(e[2], Plug(e[3], v))
      [] e[1] = "C" -> IF AnyImpure(e[3]) THEN <<"C", e[2], PlugSeq(e[3], v)>> ELSE K(v)
      [] e[1] = "IX" -> LET s == PlugSeq(e[3], v) IN
                        IF AnyImpure(s) THEN <<"IX", e[2], s>> ELSE <<"ix", e[2], s>>
      [] e[1] = "AD" -> LET s == PlugSeq(e[3], v) IN
                        IF AnyImpure(s) THEN <<"AD", e[2], s>> ELSE <<"ad", e[2], s>>
      [] e[1] = "AND" -> LET a == Plug(e[2], v) IN
                         IF IsImpure(a) \/ IsImpure(e[3]) THEN <<"AND", a, e[3]>> ELSE <<"and", a, e[3]>>
      [] e[1] = "OR"  -> LET a == Plug(e[2], v) IN
                         IF IsImpure(a) \/ IsImpure(e[3]) THEN <<"OR", a, e[3]>> ELSE <<"or", a, e[3]>>
      [] e[1] = "COND" -> LET a == Plug(e[2], v) IN
                         IF IsImpure(a) \/ IsImpure(e[3]) \/ IsImpure(e[4])
                         THEN <<"COND", a, e[3], e[4]>> ELSE <<"cond", a, e[3], e[4]>>
      [] OTHER -> e

(*----------------------- array initialiser lists -------------------------*)
\* A braced list fills a (sub)array of the given dims element by element; a
\* nested list fills the next sub-array aligned to the current position.
\* Result: a function from offsets to initialising expressions, as a
\* sequence of <<offset, expression>> pairs; all other elements are zero.
SubSize(d, k) == Prod(d, k + 1)             \* elements in one slice after k indices
\* the largest sub-array (smallest k) that starts at pos
AlignDim(d, pos, from) ==
    CHOOSE k \in from..Len(d) :
       pos % SubSize(d, k) = 0 /\ \A j \in from..(k - 1) : pos % SubSize(d, j) # 0
RECURSIVE Flat(_, _, _, _, _, _)
\* items, index, dims, depth of the enclosing list (number of fixed indices), base, relative position
Flat(items, i, d, depth, base, pos) ==
    IF i > Len(items) THEN <<>>
    ELSE IF items[i][1] = "l"
      THEN LET k == AlignDim(d, pos, depth + 1) IN
           Flat(items[i][2], 1, d, k, base + pos, 0)
             \o Flat(items, i + 1, d, depth, base, pos + SubSize(d, k))
      ELSE << <<base + pos, items[i][2]>> >> \o Flat(items, i + 1, d, depth, base, pos + 1)

(*------------------------------- output ----------------------------------*)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
IntText(n) ==
    IF n = MINI THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
    ELSE IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
RECURSIVE ArrText(_, _, _, _)
ArrText(obj, off, n, i) ==
    IF i = n THEN <<10>>
    ELSE <<32>> \o IntText(obj[off + i + 1][1]) \o ArrText(obj, off, n, i + 1)

\* "%a" of an exact float: 0x1.hhhp+e
RECURSIVE HexFrac(_, _), BitLen(_)
BitLen(n) == IF n <= 1 THEN 0 ELSE 1 + BitLen(n \div 2)    \* position of the top bit
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
\* digits of the fraction num / 2^bits
HexFrac(num, bits) ==
    IF num = 0 THEN <<>>
    ELSE IF bits >= 4 THEN <<HexDigit(num \div Pow2(bits - 4))>> \o HexFrac(num % Pow2(bits - 4), bits - 4)
    ELSE <<HexDigit(num * Pow2(4 - bits))>>
FltText(v) ==
    IF v[1] = 0 THEN <<48, 120, 48, 112, 43, 48>>
    ELSE LET m == AbsV(v[1]) t == BitLen(m) e == v[2] + t
             fr == m - Pow2(t)
             sgn == IF v[1] < 0 THEN <<45>> ELSE <<>>
             frac == IF fr = 0 THEN <<>> ELSE <<46>> \o HexFrac(fr, t)
             ex == IF e < 0 THEN <<45>> \o Digits(-e) ELSE <<43>> \o Digits(e)
         IN sgn \o <<48, 120, 49>> \o frac \o <<112>> \o ex
=============================================================================
