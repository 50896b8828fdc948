------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* The static semantics of SPL (in its strict form) and of SysY: which     *)
(* programs are ill-formed, which rule they break, and on which line.      *)
(*                                                                         *)
(* A program is a sequence of items in source order (declarations,         *)
(* statements, scope boundaries).  The machine reads one item per step;    *)
(* its state is the stack of scopes, the structures, the function being    *)
(* read, the depth of loops and the diagnostics issued so far.             *)
(*                                                                         *)
(* A diagnostic is <<line, code>>; the codes are those of SPL:             *)
(*  1 undefined variable       2 undefined function    3 variable again    *)
(*  4 function again           5 types of assignment   6 assignment to a   *)
(*  value   7 operands   8 returned type   9 arguments  10 no array        *)
(*  11 no function  12 index   13 no structure  14 no such member          *)
(*  15 structure again;  0: forbidden, the language gives it no number;    *)
(*  16 (printed A): no word of the language  17 (printed B): no sentence.   *)
(* A text with faults of the last two kinds gets no others.                *)
(*                                                                         *)
(* Types: <<"int">>, <<"float">>, <<"char">>, <<"void">>, <<"struct", s>>, *)
(* <<"array", element, size>> (size 0: unknown), <<"fun">>, and <<"bad">>  *)
(* for an expression already diagnosed, of which nothing more is required. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.STATIC_PROGS)
NP == Len(Progs)

VARIABLES pid, pc, scopes, structs, fn, blocks, diags, status
vars == <<pid, pc, scopes, structs, fn, blocks, diags, status>>
Prog == Progs[pid]
Item == Prog.items[pc]
Strict == Prog.strict = 1
View == <<pid, pc, status>>

INT == <<"int">>
FLOAT == <<"float">>
BAD == <<"bad">>
IsNum(t) == t[1] \in {"int", "float", "char"}
Numeric(t) == IF Strict THEN t[1] \in {"int", "float"} ELSE IsNum(t)

(*------------------------------- scopes ----------------------------------*)
Empty == [x \in {} |-> 0]
Has(x) == \E i \in 1..Len(scopes) : x \in DOMAIN scopes[i]
Innermost(x) == CHOOSE i \in 1..Len(scopes) :
                    x \in DOMAIN scopes[i] /\ \A j \in (i + 1)..Len(scopes) : x \notin DOMAIN scopes[j]
Find(x) == scopes[Innermost(x)][x]
Here(x) == x \in DOMAIN scopes[Len(scopes)]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Var(t, c) == [k |-> "var", t |-> t, ps |-> <<>>, c |-> c]
Fun(t, ps) == [k |-> "fun", t |-> t, ps |-> ps, c |-> TRUE]

(*------------------------------ conversions ------------------------------*)
\* t given where u is wanted
Fits(t, u) ==
    \/ t = BAD \/ u = BAD
    \/ /\ t = u /\ t[1] # "array" /\ t[1] # "fun" /\ t[1] # "void"
    \/ ~Strict /\ IsNum(t) /\ IsNum(u)
\* an array as argument: the sizes after the first one are part of the type
FitsParam(a, u) ==
    IF a.t = BAD THEN TRUE
    ELSE IF u[1] = "array"
      THEN /\ a.t[1] = "array" /\ a.t[2] = u[2]
           /\ u[3] = 0 \/ a.t[3] = u[3]
           /\ ~a.c
      ELSE Fits(a.t, u)

(*------------------------------ expressions ------------------------------*)
R(t, lv, c, d) == [t |-> t, lv |-> lv, c |-> c, d |-> d]
Err(code, before) == R(BAD, TRUE, FALSE, Append(before, code))
Quiet(t, before) == R(t, FALSE, FALSE, before)

Arith == {"+", "-", "*", "/"}
IntOnly == {"%", "&", "|", "^", "<<", ">>"}
Compare == {"<", "<=", ">", ">=", "==", "!="}
Logic == {"&&", "||"}

\* an expression used as a condition
CondCode(t) == IF t = BAD \/ t = INT \/ (~Strict /\ IsNum(t)) THEN <<>> ELSE <<0>>

Operate(op, a, b) ==
    LET d == a.d \o b.d IN
    IF a.t = BAD \/ b.t = BAD THEN Quiet(BAD, d)
    ELSE IF ~Numeric(a.t) \/ ~Numeric(b.t) THEN Err(IF Strict THEN 7 ELSE 0, d)
    ELSE IF Strict /\ a.t # b.t THEN Err(0, d)
    ELSE IF op \in IntOnly /\ (a.t = FLOAT \/ b.t = FLOAT) THEN Err(0, d)
    ELSE Quiet(IF op \in Compare THEN INT ELSE IF a.t = FLOAT \/ b.t = FLOAT THEN FLOAT ELSE INT, d)

FieldOf(fs, x) == {i \in 1..Len(fs) : fs[i][1] = x}

RECURSIVE Ty(_), Args(_, _, _)
\* codes of the arguments es of a function with parameter types ps
Args(es, ps, i) ==
    IF i > Len(es) THEN <<>>
    ELSE LET a == Ty(es[i]) IN
         a.d \o (IF FitsParam(a, ps[i]) THEN <<>> ELSE <<9>>) \o Args(es, ps, i + 1)
Ty(e) ==
    CASE e[1] = "int" -> Quiet(INT, <<>>)
      [] e[1] = "float" -> Quiet(FLOAT, <<>>)
      [] e[1] = "char" -> Quiet(<<"char">>, <<>>)
      [] e[1] = "id" ->
            IF ~Has(e[2]) THEN Err(1, <<>>)
            ELSE LET v == Find(e[2]) IN
                 IF v.k = "fun" THEN R(<<"fun">>, FALSE, TRUE, <<>>) ELSE R(v.t, TRUE, v.c, <<>>)
      [] e[1] = "bin" /\ e[2] \in Logic ->
            LET a == Ty(e[3]) b == Ty(e[4])
            IN Quiet(INT, a.d \o CondCode(a.t) \o b.d \o CondCode(b.t))
      [] e[1] = "bin" /\ e[2] \notin Logic -> Operate(e[2], Ty(e[3]), Ty(e[4]))
      [] e[1] = "un" /\ e[2] = "!" -> LET a == Ty(e[3]) IN Quiet(INT, a.d \o CondCode(a.t))
      [] e[1] = "un" /\ e[2] # "!" ->
            LET a == Ty(e[3]) IN
            IF a.t = BAD THEN Quiet(BAD, a.d) ELSE IF Numeric(a.t) THEN Quiet(a.t, a.d) ELSE Err(0, a.d)
      [] e[1] = "?" ->
            LET c == Ty(e[2]) a == Ty(e[3]) b == Ty(e[4]) d == c.d \o CondCode(c.t) \o a.d \o b.d IN
            IF a.t = BAD \/ b.t = BAD THEN Quiet(BAD, d)
            ELSE IF IsNum(a.t) /\ IsNum(b.t) THEN Quiet(IF a.t = FLOAT THEN FLOAT ELSE b.t, d) ELSE Err(0, d)
      [] e[1] = "set" ->
            LET a == Ty(e[2]) b == Ty(e[3]) d == a.d \o b.d IN
            IF ~a.lv \/ (a.c /\ a.t # BAD) THEN R(BAD, FALSE, FALSE, a.d \o <<6>> \o b.d)
            ELSE Quiet(a.t, IF Fits(b.t, a.t) /\ a.t[1] # "array" THEN d ELSE Append(d, 5))
      [] e[1] = "opset" ->      \* op=, ++, --
            LET a == Ty(e[3]) b == Ty(e[4]) r == Operate(e[2], a, b) IN
            IF ~a.lv \/ (a.c /\ a.t # BAD) THEN Err(6, a.d \o b.d)
            ELSE R(a.t, TRUE, FALSE, r.d)
      [] e[1] = "idx" ->
            LET a == Ty(e[2]) i == Ty(e[3])
                d == a.d \o i.d \o (IF Fits(i.t, INT) THEN <<>> ELSE <<12>>) IN
            IF a.t = BAD THEN R(BAD, TRUE, FALSE, d)
            ELSE IF a.t[1] # "array" THEN Err(10, d)
            ELSE R(IF Fits(i.t, INT) THEN a.t[2] ELSE BAD, TRUE, a.c, d)
      [] e[1] = "mem" ->
            LET a == Ty(e[2]) IN
            IF a.t = BAD THEN R(BAD, TRUE, FALSE, a.d)
            ELSE IF a.t[1] # "struct" THEN Err(13, a.d)
            ELSE LET fs == structs[a.t[2]] F == FieldOf(fs, e[3]) IN
                 IF F = {} THEN Err(14, a.d) ELSE R(fs[CHOOSE i \in F : TRUE][2], TRUE, a.c, a.d)
      [] e[1] = "call" ->
            IF ~Has(e[2]) THEN Err(2, <<>>)
            ELSE LET v == Find(e[2]) IN
                 IF v.k # "fun" THEN Err(11, <<>>)
                 ELSE IF Len(v.ps) # Len(e[3]) THEN Quiet(BAD, <<9>>)
                 ELSE Quiet(v.t, Args(e[3], v.ps, 1))

\* an expression the compiler can evaluate
RECURSIVE Known(_)
Known(e) ==
    CASE e[1] \in {"int", "float", "char"} -> TRUE
      [] e[1] = "id" -> Has(e[2]) /\ Find(e[2]).k = "var" /\ Find(e[2]).c /\ IsNum(Find(e[2]).t)
      [] e[1] = "bin" -> Known(e[3]) /\ Known(e[4])
      [] e[1] = "un" -> Known(e[3])
      [] OTHER -> FALSE

(*------------------------------- the items -------------------------------*)
\* types name structures; <<"array", element, size, expression of the size>> in declarations
RECURSIVE TypeCodes(_), Core(_), Elements(_), Scalar(_)
TypeCodes(t) ==
    CASE t[1] = "struct" -> IF t[2] \in DOMAIN structs THEN <<>> ELSE <<0>>
      [] t[1] = "array" ->
            TypeCodes(t[2]) \o
            (IF Len(t) < 4 THEN <<>>
             ELSE LET s == Ty(t[4]) IN s.d \o (IF s.t = INT /\ Known(t[4]) /\ t[3] > 0 THEN <<>> ELSE <<0>>))
      [] OTHER -> <<>>
Core(t) == IF t[1] = "array" THEN <<"array", Core(t[2]), t[3]>>
           ELSE IF t[1] = "struct" /\ t[2] \notin DOMAIN structs THEN BAD ELSE t
Elements(t) == IF t[1] = "array" THEN t[3] * Elements(t[2]) ELSE 1
Scalar(t) == IF t[1] = "array" THEN Scalar(t[2]) ELSE t

RECURSIVE ListCodes(_, _, _)
ListCodes(es, t, i) ==
    IF i > Len(es) THEN <<>>
    ELSE LET a == Ty(es[i]) IN
         a.d \o (IF Fits(a.t, t) THEN <<>> ELSE <<5>>)
             \o (IF Len(scopes) = 1 /\ ~Known(es[i]) THEN <<0>> ELSE <<>>) \o ListCodes(es, t, i + 1)
\* initialiser: <<>> none, <<"one", e>>, <<"list", es>>
InitCodes(t, init) ==
    IF init = <<>> THEN <<>>
    ELSE IF init[1] = "one"
      THEN LET a == Ty(init[2]) IN
           a.d \o (IF t[1] = "array" \/ ~Fits(a.t, t) THEN <<5>> ELSE <<>>)
               \o (IF Len(scopes) = 1 /\ ~Known(init[2]) THEN <<0>> ELSE <<>>)
      ELSE IF t[1] # "array" \/ Len(init[2]) > Elements(t) THEN <<5>>
      ELSE ListCodes(init[2], Scalar(t), 1)

Mark(line, codes) == [i \in 1..Len(codes) |-> <<line, codes[i]>>]
Rest(vs) == UNCHANGED vs
Is(k) == status = "run" /\ pc <= Len(Prog.items) /\ Item[1] = k
Step == pc' = pc + 1
Say(codes) == diags' = diags \o Mark(Item[2], codes)

Init ==
    /\ pid \in 1..NP
    /\ pc = 1 /\ scopes = <<[x \in DOMAIN Prog.builtins |-> Fun(Prog.builtins[x][1], Prog.builtins[x][2])]>>
    /\ structs = Empty /\ fn = <<>> /\ blocks = <<>> /\ diags = <<>> /\ status = "run"

\* <<"struct", line, name, <<<<member, type>>, ...>>>>
Structure ==
    /\ Is("struct") /\ Step
    /\ IF Item[3] \in DOMAIN structs THEN Say(<<15>>) /\ structs' = structs
       ELSE Say(<<>>) /\ structs' = With(structs, Item[3], [i \in 1..Len(Item[4]) |-> <<Item[4][i][1], Core(Item[4][i][2])>>])
    /\ Rest(<<pid, scopes, fn, blocks, status>>)

\* <<"decl", line, name, type, const, init>>
Declare ==
    /\ Is("decl") /\ Step
    /\ LET t == Core(Item[4])
           again == Here(Item[3])
       IN /\ Say((IF again THEN <<IF Find(Item[3]).k = "fun" THEN 4 ELSE 3>> ELSE <<>>)
                 \o TypeCodes(Item[4]) \o InitCodes(t, Item[6]))
          /\ scopes' = IF again THEN scopes
                       ELSE [scopes EXCEPT ![Len(scopes)] = With(@, Item[3], Var(t, Item[5] = 1))]
    /\ Rest(<<pid, structs, fn, blocks, status>>)

\* <<"func", line, name, type, <<<<parameter, type>>, ...>>>>; the body of a function that exists is not read
RECURSIVE Twice(_, _), Bind(_, _, _)
Twice(ps, i) == IF i > Len(ps) THEN <<>>
                ELSE (IF \E j \in 1..(i - 1) : ps[j][1] = ps[i][1] THEN <<3>> ELSE <<>>) \o Twice(ps, i + 1)
Bind(f, ps, i) == IF i > Len(ps) THEN f
                  ELSE Bind(IF ps[i][1] \in DOMAIN f THEN f ELSE With(f, ps[i][1], Var(Core(ps[i][2]), FALSE)), ps, i + 1)
Function ==
    /\ Is("func") /\ Step
    /\ IF Here(Item[3])
         THEN /\ Say(<<IF Find(Item[3]).k = "fun" THEN 4 ELSE 0>>)
              /\ status' = "skip" /\ Rest(<<scopes, fn>>)
         ELSE LET ps == Item[5] IN
              /\ Say(Twice(ps, 1))
              /\ scopes' = Append(<<With(scopes[1], Item[3], Fun(Item[4], [i \in 1..Len(ps) |-> Core(ps[i][2])]))>>,
                                  Bind(Empty, ps, 1))
              /\ fn' = Item[4] /\ status' = status
    /\ Rest(<<pid, structs, blocks>>)
Skip ==
    /\ status = "skip" /\ Step
    /\ status' = IF Item[1] = "endfunc" THEN "run" ELSE "skip"
    /\ Rest(<<pid, scopes, structs, fn, blocks, diags>>)
EndFunction ==
    /\ Is("endfunc") /\ Step
    /\ scopes' = <<scopes[1]>> /\ fn' = <<>>
    /\ Rest(<<pid, structs, blocks, diags, status>>)

\* <<"open", kind>>, kind "block" or "loop"; a single statement governed by a loop has no scope of its own
Open ==
    /\ Is("open") /\ Step
    /\ blocks' = Append(blocks, Item[2]) /\ scopes' = IF Item[2] = "bare" THEN scopes ELSE Append(scopes, Empty)
    /\ Rest(<<pid, structs, fn, diags, status>>)
Close ==
    /\ Is("close") /\ Step
    /\ blocks' = SubSeq(blocks, 1, Len(blocks) - 1)
    /\ scopes' = IF blocks[Len(blocks)] = "bare" THEN scopes ELSE SubSeq(scopes, 1, Len(scopes) - 1)
    /\ Rest(<<pid, structs, fn, diags, status>>)

Expression == Is("expr") /\ Step /\ Say(Ty(Item[3]).d) /\ Rest(<<pid, scopes, structs, fn, blocks, status>>)
Condition ==
    /\ Is("cond") /\ Step
    /\ LET a == Ty(Item[3]) IN Say(a.d \o CondCode(a.t))
    /\ Rest(<<pid, scopes, structs, fn, blocks, status>>)
\* <<"return", line, <<>> or <<e>>>>
Return ==
    /\ Is("return") /\ Step
    /\ IF Item[3] = <<>> THEN Say(IF fn[1] = "void" THEN <<>> ELSE <<8>>)
       ELSE LET a == Ty(Item[3][1]) IN Say(a.d \o (IF fn[1] # "void" /\ Fits(a.t, fn) THEN <<>> ELSE <<8>>))
    /\ Rest(<<pid, scopes, structs, fn, blocks, status>>)
Jump ==
    /\ Is("jump") /\ Step
    /\ Say(IF \E i \in 1..Len(blocks) : blocks[i] \in {"loop", "bare"} THEN <<>> ELSE <<0>>)
    /\ Rest(<<pid, scopes, structs, fn, blocks, status>>)

\* <<"text", line, fault>>: a word that is none, a comment without end; missing ; ) or ].
\* A SysY sentence is found to be none at the word that follows.
Text ==
    /\ Is("text") /\ Step
    /\ diags' = Append(diags, IF Item[3] \in {"lexeme", "comment"} THEN <<Item[2], 16>>
                              ELSE <<IF Item[3] = "semi" /\ ~Strict THEN Item[2] + 1 ELSE Item[2], 17>>)
    /\ Rest(<<pid, scopes, structs, fn, blocks, status>>)

(*------------------------------ the verdict ------------------------------*)
Textual(d) == d[2] \in {16, 17}
Due == IF \E i \in 1..Len(diags) : Textual(diags[i]) THEN SelectSeq(diags, Textual) ELSE diags
Lines(ds) == {ds[i][1] : i \in 1..Len(ds)}
FirstOn(ds, l) == ds[CHOOSE i \in 1..Len(ds) : ds[i][1] = l /\ \A j \in 1..(i - 1) : ds[j][1] # l][2]
CodesOn(ds, l) == {ds[i][2] : i \in {j \in 1..Len(ds) : ds[j][1] = l}}

\* o: exit status, length of the output, diagnostics in order; "first": the compiler stops at its first diagnostic
Conforms(o) ==
    LET due == Due IN
    IF due = <<>> THEN o.exit = 0 /\ o.diags = <<>>
    ELSE /\ o.exit # 0 /\ o.size = 0
         /\ o.diags # <<>>
         /\ IF o.first = 1
              THEN o.diags[1][1] \in {0, due[1][1]}
              ELSE /\ Lines(o.diags) = Lines(due)
                   /\ \A l \in Lines(due) :
                        LET cs == CodesOn(due, l) IN 0 \in cs \/ FirstOn(o.diags, l) \in cs
Judge ==
    /\ status = "run" /\ pc > Len(Prog.items)
    /\ status' = "judged" /\ pc' = pc
    /\ PrintT(<<"STA", Prog.id, Cardinality(Lines(Due)), {o \in 1..Len(Prog.obs) : ~Conforms(Prog.obs[o])}>>)
    /\ IF \E o \in 1..Len(Prog.obs) : ~Conforms(Prog.obs[o]) THEN PrintT(<<"DIA", Prog.id, ToJson(Due)>>) ELSE TRUE
    /\ Rest(<<pid, scopes, structs, fn, blocks, diags>>)

Next == \/ Structure \/ Declare \/ Function \/ Skip \/ EndFunction \/ Open \/ Close
        \/ Text \/ Expression \/ Condition \/ Return \/ Jump \/ Judge
Spec == Init /\ [][Next]_vars

(* scopes nest like blocks: one global scope, one for the function, one per open block *)
TypeOK ==
    /\ status \in {"run", "skip", "judged"}
    /\ Len(scopes) = 1 + (IF fn = <<>> THEN 0 ELSE 1) + Cardinality({i \in 1..Len(blocks) : blocks[i] # "bare"})
    /\ fn = <<>> => blocks = <<>>
    /\ \A i \in 1..Len(diags) : diags[i][2] \in 0..17
(* what was diagnosed stays diagnosed, on a line of the program *)
Monotone == [][\A i \in 1..Len(diags) : i <= Len(diags') /\ diags'[i] = diags[i]]_vars
=============================================================================
