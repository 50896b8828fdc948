--------------------------------- MODULE TAC ---------------------------------
(***************************************************************************)
(* The abstract machine of three-address code, the textual intermediate    *)
(* language of the SPL tool chain that cmmc prints (-t tac) and loads      *)
(* (files named .ir).  One named action per instruction.  Variables belong to the     *)
(* activation of a function; DEC makes an object whose first word is the   *)
(* value of its name and whose address is &name; ARG pushes onto one       *)
(* argument stack from which PARAM pops.                                   *)
(*                                                                         *)
(* Values: <<n>> a 32-bit integer (arithmetic wraps), <<obj, byte, 0>> an  *)
(* address, <<>> unknown.  Unknown values may be copied and computed with, *)
(* but not decide a branch, be written or be used as an address.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SysY

Progs == ndJsonDeserialize(IOEnv.TAC_PROGS)
NP == Len(Progs)

VARIABLES pid, pc, vars_, mem, args, stack, inp, out, status, ret, steps
vars == <<pid, pc, vars_, mem, args, stack, inp, out, status, ret, steps>>
Prog == Progs[pid]
Code == Prog.code
View == <<pid, steps>>

\* positions of the LABEL and FUNCTION instructions by name
LabelPos(l) == IF l \in DOMAIN Prog.labels THEN Prog.labels[l] ELSE 0
FuncPos(f) == IF f \in DOMAIN Prog.funcs THEN Prog.funcs[f] ELSE 0

(*----------------------- arithmetic modulo 2^32 --------------------------*)
WAdd(a, b) == IF AddOK(a, b) THEN a + b
              ELSE IF a > 0 THEN (a + MINI) + (b + MINI) ELSE ((a + MAXI) + 1) + ((b + MAXI) + 1)
WNeg(a) == IF a = MINI THEN MINI ELSE -a
WSub(a, b) == IF SubOK(a, b) THEN a - b
              ELSE IF a >= 0 THEN (a + MINI) - ((b + MAXI) + 1) ELSE ((a + MAXI) + 1) - (b + MINI)
\* a * b modulo 2^32 by halves: (ah 2^16 + al) * (bh 2^16 + bl)
Lo16(a) == a % 65536
Hi16(a) == (a \div 65536) % 65536
Word(h, l) == \* h, l in 0..65535
    IF h < 32768 THEN h * 65536 + l ELSE (h - 65536) * 65536 + l
WMul(a, b) ==
    IF MulOK(a, b) THEN a * b
    ELSE LET al == Lo16(a) bl == Lo16(b)
             \* al*bl can reach 2^32: split once more
             a1 == al \div 256 a0 == al % 256
             low == a0 * bl                       \* < 2^24
             mid == a1 * bl                       \* < 2^24, weight 2^8
             s == low + (mid % 256) * 256         \* < 2^25
             l == s % 65536
             carry == s \div 65536 + mid \div 256 \* weight 2^16
             h == (carry + 2 * ((al * (Hi16(b) \div 2)) % 32768) + al * (Hi16(b) % 2)
                        + 2 * ((bl * (Hi16(a) \div 2)) % 32768) + bl * (Hi16(a) % 2)) % 65536
         IN Word(h, l)

IsInt(v) == Len(v) = 1
IsPtr(v) == Len(v) = 3
TacOp(op, a, b) ==
    IF IsInt(a) /\ IsInt(b)
      THEN CASE op = "+" -> <<WAdd(a[1], b[1])>>
             [] op = "-" -> <<WSub(a[1], b[1])>>
             [] op = "*" -> <<WMul(a[1], b[1])>>
             [] op = "/" -> IF b[1] = 0 THEN <<>> ELSE IF a[1] = MINI /\ b[1] = -1 THEN <<MINI>> ELSE <<TDiv(a[1], b[1])>>
             [] OTHER -> <<>>
    ELSE IF op = "+" /\ IsPtr(a) /\ IsInt(b) THEN <<a[1], WAdd(a[2], b[1]), 0>>
    ELSE IF op = "+" /\ IsInt(a) /\ IsPtr(b) THEN <<b[1], WAdd(b[2], a[1]), 0>>
    ELSE IF op = "-" /\ IsPtr(a) /\ IsInt(b) THEN <<a[1], WSub(a[2], b[1]), 0>>
    ELSE IF op = "-" /\ IsPtr(a) /\ IsPtr(b) /\ a[1] = b[1] THEN <<a[2] - b[2]>>
    ELSE <<>>

Overflows(op, a, b) ==
    CASE op = "+" -> ~AddOK(a, b)
      [] op = "-" -> ~SubOK(a, b)
      [] op = "*" -> ~MulOK(a, b)
      [] OTHER -> b = -1 /\ a = MINI

TacCmp(op, a, b) ==
    CASE op = "<"  -> a < b
      [] op = "<=" -> a <= b
      [] op = ">"  -> a > b
      [] op = ">=" -> a >= b
      [] op = "==" -> a = b
      [] op = "!=" -> a # b
      [] OTHER -> FALSE

Inside(p) == p[1] \in 1..Len(mem) /\ p[2] \in 0..(4 * Len(mem[p[1]]) - 1)
\* addresses within one object are ordered by their offsets; addresses of different objects differ; no object is at 0
Comparable(op, a, b) ==
    \/ IsInt(a) /\ IsInt(b)
    \/ IsPtr(a) /\ IsPtr(b) /\ (a[1] = b[1] \/ (op \in {"==", "!="} /\ Inside(a) /\ Inside(b)))
    \/ op \in {"==", "!="} /\ ((IsPtr(a) /\ b = <<0>>) \/ (IsPtr(b) /\ a = <<0>>))
Compare(op, a, b) ==
    IF IsInt(a) /\ IsInt(b) THEN TacCmp(op, a[1], b[1])
    ELSE IF IsPtr(a) /\ IsPtr(b) /\ a[1] = b[1] THEN TacCmp(op, a[2], b[2])
    ELSE op = "!="

(*--------------------------- variables and memory ------------------------*)
\* vars_ maps a name to <<"v", value>> or <<"o", object>>
Known(x) == x \in DOMAIN vars_
WordAt(p) == \* the word at address p, <<>> when it has no value
    mem[p[1]][p[2] \div 4 + 1]
Valid(p) == IsPtr(p) /\ p[1] \in 1..Len(mem) /\ p[2] % 4 = 0 /\ p[2] >= 0 /\ p[2] \div 4 < Len(mem[p[1]])
Value(t) ==
    CASE t[1] = "n" -> <<t[2]>>
      [] t[1] = "a" -> IF Known(t[2]) /\ vars_[t[2]][1] = "o" THEN <<vars_[t[2]][2], 0, 0>> ELSE <<>>
      [] OTHER -> IF ~Known(t[2]) THEN <<>>
                  ELSE IF vars_[t[2]][1] = "o" THEN mem[vars_[t[2]][2]][1]
                  ELSE vars_[t[2]][2]
\* the effect of x := v on vars_ and mem
Put(x, v) ==
    IF Known(x) /\ vars_[x][1] = "o"
      THEN /\ mem' = [mem EXCEPT ![vars_[x][2]][1] = v] /\ UNCHANGED vars_
      ELSE /\ vars_' = [y \in DOMAIN vars_ \cup {x} |-> IF y = x THEN <<"v", v>> ELSE vars_[y]]
           /\ UNCHANGED mem

Init ==
    /\ pid \in 1..NP
    /\ pc = (IF "main" \in DOMAIN Progs[pid].funcs THEN Progs[pid].funcs["main"] + 1 ELSE 0)
    /\ vars_ = [x \in {} |-> 0] /\ mem = <<>> /\ args = <<>> /\ stack = <<>>
    /\ inp = 1 /\ out = <<>> /\ status = (IF pc = 0 THEN "fault" ELSE "run") /\ ret = 0 /\ steps = 0

Fault(why) ==
    /\ status' = "fault" /\ ret' = why
    /\ UNCHANGED <<pid, pc, vars_, mem, args, stack, inp, out>>
Tick == steps' = steps + 1
\* control must not run from one function into the next, nor past the end
Cur == IF pc > Len(Code) THEN <<"END">> ELSE Code[pc]
Is(tag) == status = "run" /\ Cur[1] = tag /\ Tick
Next1 == pc' = pc + 1
Rest(S) == UNCHANGED S

Label == Is("LABEL") /\ Next1 /\ Rest(<<pid, vars_, mem, args, stack, inp, out, status, ret>>)
Dec ==
    /\ Is("DEC") /\ Next1
    /\ vars_' = [y \in DOMAIN vars_ \cup {Cur[2]} |-> IF y = Cur[2] THEN <<"o", Len(mem) + 1>> ELSE vars_[y]]
    /\ mem' = Append(mem, [i \in 1..Cur[3] |-> <<>>])
    /\ Rest(<<pid, args, stack, inp, out, status, ret>>)
Param ==
    /\ Is("PARAM")
    /\ IF Len(args) = 0 THEN Fault("no argument")
       ELSE /\ vars_' = [y \in DOMAIN vars_ \cup {Cur[2]} |-> IF y = Cur[2] THEN <<"v", args[Len(args)]>> ELSE vars_[y]]
            /\ args' = SubSeq(args, 1, Len(args) - 1)
            /\ Next1 /\ Rest(<<pid, mem, stack, inp, out, status, ret>>)
Arg ==
    /\ Is("ARG") /\ args' = Append(args, Value(Cur[2]))
    /\ Next1 /\ Rest(<<pid, vars_, mem, stack, inp, out, status, ret>>)
Move ==
    /\ Is("MOV") /\ Put(Cur[2], Value(Cur[3]))
    /\ Next1 /\ Rest(<<pid, args, stack, inp, out, status, ret>>)
Binary ==
    /\ Is("BIN")
    /\ LET a == Value(Cur[4]) b == Value(Cur[5]) IN
       IF Cur[3] = "/" /\ b = <<0>> THEN Fault("division by zero")
       ELSE IF Prog.strict = 1 /\ IsInt(a) /\ IsInt(b) /\ Overflows(Cur[3], a[1], b[1]) THEN Fault("overflow")
       ELSE Put(Cur[2], TacOp(Cur[3], a, b)) /\ Next1 /\ Rest(<<pid, args, stack, inp, out, status, ret>>)
Load ==
    /\ Is("LD")
    /\ LET p == Value(Cur[3]) IN
       IF ~Valid(p) THEN Fault("load address")
       ELSE Put(Cur[2], WordAt(p)) /\ Next1 /\ Rest(<<pid, args, stack, inp, out, status, ret>>)
Store ==
    /\ Is("ST")
    /\ LET p == Value(Cur[2]) IN
       IF ~Valid(p) THEN Fault("store address")
       ELSE /\ mem' = [mem EXCEPT ![p[1]][p[2] \div 4 + 1] = Value(Cur[3])]
            /\ Next1 /\ Rest(<<pid, vars_, args, stack, inp, out, status, ret>>)
Jump(l) == IF LabelPos(l) # 0 THEN /\ pc' = LabelPos(l) /\ Rest(<<pid, vars_, mem, args, stack, inp, out, status, ret>>)
           ELSE Fault("label")
Goto == Is("GOTO") /\ Jump(Cur[2])
IfGoto ==
    /\ Is("IF")
    /\ LET a == Value(Cur[3]) b == Value(Cur[4]) IN
       IF ~Comparable(Cur[2], a, b) THEN Fault("unknown value decides a branch")
       ELSE IF Compare(Cur[2], a, b) THEN Jump(Cur[5])
       ELSE Next1 /\ Rest(<<pid, vars_, mem, args, stack, inp, out, status, ret>>)
Read ==
    /\ Is("READ")
    /\ IF inp > Len(Prog.input) THEN Fault("input")
       ELSE /\ inp' = inp + 1 /\ Put(Cur[2], <<Prog.input[inp]>>)
            /\ Next1 /\ Rest(<<pid, args, stack, out, status, ret>>)
Write ==
    /\ Is("WRITE")
    /\ LET v == Value(Cur[2]) IN
       IF ~IsInt(v) THEN Fault("unknown value written")
       ELSE /\ out' = out \o IntText(v[1]) \o <<32>>
            /\ Next1 /\ Rest(<<pid, vars_, mem, args, stack, inp, status, ret>>)
Call ==
    /\ Is("CALL")
    /\ IF FuncPos(Cur[3]) = 0 THEN Fault("function")
       ELSE IF Len(stack) > 200 THEN Fault("depth")
       ELSE /\ stack' = Append(stack, <<pc + 1, vars_, Cur[2], Len(mem)>>)
            /\ pc' = FuncPos(Cur[3]) + 1
            /\ vars_' = [x \in {} |-> 0]
            /\ Rest(<<pid, mem, args, inp, out, status, ret>>)
Return ==
    /\ Is("RETURN")
    /\ LET v == Value(Cur[2]) IN
       IF Len(stack) = 0
         THEN /\ status' = "halt" /\ ret' = (IF IsInt(v) THEN v[1] ELSE 0)
              /\ Rest(<<pid, pc, vars_, mem, args, stack, inp, out>>)
         ELSE LET fr == stack[Len(stack)] x == fr[3] vs == fr[2]
                  m == SubSeq(mem, 1, fr[4]) IN
              /\ IF x \in DOMAIN vs /\ vs[x][1] = "o"
                   THEN mem' = [m EXCEPT ![vs[x][2]][1] = v] /\ vars_' = vs
                   ELSE mem' = m /\ vars_' = [y \in DOMAIN vs \cup {x} |-> IF y = x THEN <<"v", v>> ELSE vs[y]]
              /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ pc' = fr[1]
              /\ Rest(<<pid, args, inp, out, status, ret>>)
End == status = "run" /\ Tick /\ Cur[1] \in {"END", "FUNCTION"} /\ Fault("runs off the end of a function")

Limit == steps >= Prog.maxSteps
Conforms(o) == o.out = out /\ (o.exit = -1000 \/ o.exit = ret % 256)
Judge ==
    /\ status \in {"halt", "fault", "long"}
    /\ status' = "judged" /\ Tick
    /\ PrintT(<<"TAC", Prog.id, status, ret, steps,
                IF status = "halt" THEN {o \in 1..Len(Prog.obs) : ~Conforms(Prog.obs[o])} ELSE {}, out>>)
    /\ Rest(<<pid, pc, vars_, mem, args, stack, inp, out, ret>>)
TooLong == status = "run" /\ Tick /\ status' = "long" /\ Rest(<<pid, pc, vars_, mem, args, stack, inp, out, ret>>)

Next ==
    \/ Judge
    \/ IF Limit THEN TooLong
       ELSE \/ Label \/ Dec \/ Param \/ Arg \/ Move \/ Binary \/ Load \/ Store \/ Goto \/ IfGoto
            \/ Read \/ Write \/ Call \/ Return \/ End
Spec == Init /\ [][Next]_vars

(* the machine never leaves its domain, and a function finds its arguments *)
TypeOK ==
    /\ status \in {"run", "halt", "fault", "long", "judged"}
    /\ pc \in 0..(Len(Code) + 1)
    /\ inp \in 1..(Len(Prog.input) + 1)
=============================================================================
