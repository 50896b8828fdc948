----------------------------- MODULE SysYMachine -----------------------------
(***************************************************************************)
(* Transition system of the SysY abstract machine over a batch of          *)
(* programs: every initial state is one program, and the behaviour from it *)
(* is the one the language prescribes.  When a program halts, each         *)
(* observation made of the implementation (one per compiler configuration  *)
(* and execution target) is checked against the behaviour: same output     *)
(* events in the same order, same result of main.                          *)
(***************************************************************************)
EXTENDS SysY, TLC, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.SYSY_PROGS)
NP == Len(Progs)

VARIABLES pid,      \* which program
          code,     \* continuation of the running function: a sequence of statements
          env,      \* names in scope
          genv,     \* global names
          store,    \* objects
          stack,    \* suspended callers
          inp,      \* next input token
          out,      \* output so far (character codes)
          status,   \* "run" | "halt" | "undef"
          ret,      \* result of main
          steps

vars == <<pid, code, env, genv, store, stack, inp, out, status, ret, steps>>
Prog == Progs[pid]
\* the machine is deterministic: program and step number identify a state
View == <<pid, steps>>

EmptyEnv == [x \in {} |-> 0]

Init ==
    /\ pid \in 1..NP
    /\ code = Progs[pid].globals \o <<<<"$main">>>>
    /\ env = EmptyEnv /\ genv = EmptyEnv
    /\ store = <<>> /\ stack = <<>>
    /\ inp = 1 /\ out = <<>> /\ status = "run" /\ ret = 0 /\ steps = 0

Undef(why) ==
    /\ status' = "undef" /\ ret' = why
    /\ code' = <<>>
    /\ UNCHANGED <<pid, env, genv, store, stack, inp, out>>

Cur == code[1]
Rest == Tail(code)
Tick == steps' = steps + 1
Running(tag) == status = "run" /\ Len(code) > 0 /\ Cur[1] = tag

(*---- calls: evaluate the expression at position k of the current statement ----*)
WithExpr(e, k) == [Cur EXCEPT ![k] = e]
ToMemory(ob, off) == store[ob][off + 1]

RECURSIVE ParamEnv(_, _, _, _, _)
\* bind parameters i.. to values; result <<env, store>> or <<>> if some argument is undefined
ParamEnv(ps, vs, i, e, s) ==
    IF i > Len(ps) THEN <<e, s>>
    ELSE LET p == ps[i] IN
      IF Len(p[3]) = 0
        THEN LET v == Conv(p[2], vs[i]) IN
             IF Len(v) = 0 \/ Len(v) = 3 THEN <<>>
             ELSE ParamEnv(ps, vs, i + 1,
                     Bind(e, p[1], <<"s", Len(s) + 1, 0, <<>>, p[2]>>), Append(s, <<v>>))
        ELSE IF Len(vs[i]) # 3 THEN <<>>
        ELSE IF p[2] = "S"     \* an aggregate passed by value: the callee owns a copy
          THEN IF vs[i][2] + p[3][1] > Len(s[vs[i][1]]) THEN <<>>
               ELSE ParamEnv(ps, vs, i + 1,
                     Bind(e, p[1], <<"a", Len(s) + 1, 0, p[3], "i">>),
                     Append(s, SubSeq(s[vs[i][1]], vs[i][2] + 1, vs[i][2] + p[3][1])))
             ELSE ParamEnv(ps, vs, i + 1,
                     Bind(e, p[1], <<"p", vs[i][1], vs[i][2], p[3], p[2]>>), s)

Result(e, k, v) ==      \* a builtin returned v
    /\ code' = <<WithExpr(Plug(e, v), k)>> \o Rest
    /\ UNCHANGED <<pid, env, genv, stack, status, ret>>

\* reading n ints from the input into obj at off; <<>> when not possible
ReadArr(ob, off, k, n) ==
    [store EXCEPT ![ob] = [j \in 1..Len(store[ob]) |->
        IF j > off /\ j <= off + n THEN <<Prog.input[k + (j - off - 1)]>> ELSE store[ob][j]]]

\* assignment expressions: x = e, x op= e, ++x, x++ act like calls that get the lvalue and the operand
AsgOp == [f \in {"$", "$+", "$-", "$*", "$/", "$%", "$&", "$|", "$^", "$<<", "$>>", "$pre+", "$pre-", "$post+", "$post-"} |->
            CASE f = "$" -> "" [] f \in {"$+", "$pre+", "$post+"} -> "+" [] f \in {"$-", "$pre-", "$post-"} -> "-"
              [] f = "$*" -> "*" [] f = "$/" -> "/" [] f = "$%" -> "%" [] f = "$&" -> "&" [] f = "$|" -> "|"
              [] f = "$^" -> "^" [] f = "$<<" -> "<<" [] f = "$>>" -> ">>"]
SetStep(e, k, f, a, r) ==
    IF Len(a) # 4 \/ Len(r) = 0 \/ Len(r) = 3 THEN Undef("assign")
    ELSE LET old == store[a[1]][a[2] + 1]
             nv == Conv(a[4], IF AsgOp[f] = "" THEN r ELSE BinOp(AsgOp[f], old, r))
         IN IF Len(nv) = 0 THEN Undef("value")
            ELSE /\ store' = [store EXCEPT ![a[1]][a[2] + 1] = nv] /\ UNCHANGED <<inp, out>>
                 /\ Result(e, k, IF f \in {"$post+", "$post-"} THEN old ELSE nv)

CallStep(e0, k) ==
    LET e == Freeze(e0, env, store) IN
    IF ~IsImpure(e)
      THEN /\ code' = <<WithExpr(e, k)>> \o Rest
           /\ UNCHANGED <<pid, env, genv, store, stack, inp, out, status, ret>>
      ELSE
      LET c == Redex(e)
          f == c[2]
          vs == [i \in 1..Len(c[3]) |-> Eval(c[3][i], env, store)]
      IN
      IF \E i \in 1..Len(vs) : Len(vs[i]) = 0 THEN Undef("arg")
      ELSE CASE f \in {"getint", "read"} ->
             IF inp > Len(Prog.input) THEN Undef("input")
             ELSE /\ inp' = inp + 1 /\ UNCHANGED <<store, out>>
                  /\ Result(e, k, <<Prog.input[inp]>>)
        [] f = "putint" ->
             LET v == ToI(vs[1]) IN
             IF Len(v) # 1 THEN Undef("arg")
             ELSE /\ out' = out \o IntText(v[1]) /\ UNCHANGED <<store, inp>>
                  /\ Result(e, k, <<0>>)
        [] f = "write" ->
             IF Len(vs[1]) # 1 THEN Undef("arg")
             ELSE /\ out' = out \o IntText(vs[1][1]) \o <<32>> /\ UNCHANGED <<store, inp>>
                  /\ Result(e, k, <<0>>)
        [] f = "putch" ->
             LET v == ToI(vs[1]) IN
             IF Len(v) # 1 \/ v[1] < 0 \/ v[1] > 127 THEN Undef("arg")
             ELSE /\ out' = Append(out, v[1]) /\ UNCHANGED <<store, inp>>
                  /\ Result(e, k, <<0>>)
        [] f = "putfloat" ->
             LET v == ToF(vs[1]) IN
             IF Len(v) # 2 THEN Undef("arg")
             ELSE /\ out' = out \o FltText(v) /\ UNCHANGED <<store, inp>>
                  /\ Result(e, k, <<0>>)
        [] f = "putarray" ->
             LET n == vs[1][1] ob == vs[2][1] off == vs[2][2] IN
             IF n < 0 \/ n > Len(store[ob]) - off THEN Undef("putarray")
             ELSE IF \E j \in (off + 1)..(off + n) : Len(store[ob][j]) # 1 THEN Undef("uninit")
             ELSE /\ out' = out \o IntText(n) \o <<58>> \o ArrText(store[ob], off, n, 0)
                  /\ UNCHANGED <<store, inp>>
                  /\ Result(e, k, <<0>>)
        [] f = "getarray" ->
             IF inp > Len(Prog.input) THEN Undef("input")
             ELSE LET n == Prog.input[inp] ob == vs[1][1] off == vs[1][2] IN
               IF n < 0 \/ n > Len(store[ob]) - off \/ inp + n > Len(Prog.input) THEN Undef("getarray")
               ELSE /\ store' = ReadArr(ob, off, inp + 1, n) /\ inp' = inp + 1 + n /\ UNCHANGED out
                    /\ Result(e, k, <<n>>)
        [] f \in DOMAIN AsgOp -> SetStep(e, k, f, vs[1], vs[2])
        [] OTHER ->
             LET fn == Prog.funcs[f]
                 pe == ParamEnv(fn.params, vs, 1, genv, store)
             IN IF Len(pe) = 0 THEN Undef("param")
                ELSE IF Len(stack) > 120 THEN Undef("depth")
                ELSE /\ stack' = Append(stack, <<<<WithExpr(e, k)>> \o Rest, env, Len(store), k, f>>)
                     /\ code' = <<<<"bl", fn.body>>>>
                     /\ env' = pe[1] /\ store' = pe[2]
                     /\ UNCHANGED <<pid, genv, inp, out, status, ret>>

(*------------------------------ statements ------------------------------*)
UMem == UNCHANGED <<pid, genv, stack, inp, out, status, ret>>

Block ==     \* {...}: open a scope
    /\ Running("bl") /\ Tick
    /\ code' = Cur[2] \o <<<<"$end", env, Len(store)>>>> \o Rest
    /\ UNCHANGED <<env, store>> /\ UMem

EndBlock ==  \* close it: names and objects of the scope disappear
    /\ Running("$end") /\ Tick
    /\ code' = Rest /\ env' = Cur[2] /\ store' = SubSeq(store, 1, Cur[3])
    /\ UMem

Assign ==    \* <<"=", <<name, indices>>, op, expr>>
    /\ Running("=") /\ Tick
    /\ IF IsImpure(Cur[4]) THEN CallStep(Cur[4], 4)
       ELSE
       LET lv == Cur[2]
           ent == env[lv[1]]
           a == Addr(lv[1], lv[2], env, store)
           r == Eval(Cur[4], env, store)
       IN
       IF Len(a) = 0 \/ Len(r) = 0 \/ Len(r) = 3 \/ Len(lv[2]) # Len(ent[4]) THEN Undef("assign")
       ELSE IF a[2] >= Len(store[a[1]]) THEN Undef("bounds")
       ELSE LET old == store[a[1]][a[2] + 1]
                nv == IF Cur[3] = "" THEN Conv(ent[5], r) ELSE Conv(ent[5], BinOp(Cur[3], old, r))
            IN IF Len(nv) = 0 THEN Undef("value")
               ELSE /\ store' = [store EXCEPT ![a[1]][a[2] + 1] = nv]
                    /\ code' = Rest /\ UNCHANGED env /\ UMem

\* store to a part of an aggregate: <<"=p", <<name, path>>, expr>>
PathAssign ==
    /\ Running("=p") /\ Tick
    /\ IF IsImpure(Cur[3]) THEN CallStep(Cur[3], 3)
       ELSE
       LET ent == env[Cur[2][1]]
           lo == PathOff(Cur[2][2], 1, env, store)
           off == ent[3] + lo
           r == Conv("i", Eval(Cur[3], env, store))
       IN
       IF lo < 0 \/ Len(r) # 1 THEN Undef("assign")
       ELSE IF off >= Len(store[ent[2]]) THEN Undef("bounds")
       ELSE /\ store' = [store EXCEPT ![ent[2]][off + 1] = r]
            /\ code' = Rest /\ UNCHANGED env /\ UMem

\* assignment of a whole structure: <<"cpy", <<name, path>>, <<name, path>>, cells>>
CopyStruct ==
    /\ Running("cpy") /\ Tick
    /\ LET de == env[Cur[2][1]] se == env[Cur[3][1]] n == Cur[4]
           dl == PathOff(Cur[2][2], 1, env, store) sl == PathOff(Cur[3][2], 1, env, store)
           d == de[3] + dl s == se[3] + sl
       IN
       IF dl < 0 \/ sl < 0 THEN Undef("assign")
       ELSE IF d + n > Len(store[de[2]]) \/ s + n > Len(store[se[2]]) THEN Undef("bounds")
       ELSE /\ store' = [store EXCEPT ![de[2]] = [j \in 1..Len(store[de[2]]) |->
                            IF j > d /\ j <= d + n THEN store[se[2]][s + j - d] ELSE store[de[2]][j]]]
            /\ code' = Rest /\ UNCHANGED env /\ UMem

ExprStmt ==
    /\ Running("e") /\ Tick
    /\ IF IsImpure(Cur[2]) THEN CallStep(Cur[2], 2)
       ELSE IF Cur[2][1] # "k" /\ Len(Eval(Cur[2], env, store)) = 0 THEN Undef("expr")
       ELSE code' = Rest /\ UNCHANGED <<env, store>> /\ UMem

If ==
    /\ Running("if") /\ Tick
    /\ IF IsImpure(Cur[2]) THEN CallStep(Cur[2], 2)
       ELSE LET v == Eval(Cur[2], env, store) IN
         IF Len(v) = 0 \/ Len(v) = 3 THEN Undef("cond")
         ELSE /\ code' = (IF IsTrue(v) THEN <<Cur[3]>> ELSE IF Len(Cur) >= 4 THEN <<Cur[4]>> ELSE <<>>) \o Rest
              /\ UNCHANGED <<env, store>> /\ UMem

While ==
    /\ Running("wh") /\ Tick
    /\ IF IsImpure(Cur[2])
         THEN /\ code' = <<<<"if", Cur[2], Cur[3], <<"br">>>>, <<"$lp", Cur, env, Len(store)>>>> \o Rest
              /\ UNCHANGED <<env, store>> /\ UMem
         ELSE LET v == Eval(Cur[2], env, store) IN
           IF Len(v) = 0 \/ Len(v) = 3 THEN Undef("cond")
           ELSE /\ code' = IF IsTrue(v) THEN <<Cur[3], <<"$lp", Cur, env, Len(store)>>>> \o Rest ELSE Rest
                /\ UNCHANGED <<env, store>> /\ UMem

\* do body while (c): <<"do", body, c>>; "dw" is its test
Do ==
    /\ Running("do") /\ Tick
    /\ code' = <<Cur[2], <<"$lp", <<"dw", Cur[3], Cur[2]>>, env, Len(store)>>>> \o Rest
    /\ UNCHANGED <<env, store>> /\ UMem
DoTest ==
    /\ Running("dw") /\ Tick
    /\ code' = <<<<"if", Cur[2], <<"do", Cur[3], Cur[2]>>>>>> \o Rest
    /\ UNCHANGED <<env, store>> /\ UMem

\* for (init; c; step) body: <<"for", init, c, step, body>>; init opens its own scope
For ==
    /\ Running("for") /\ Tick
    /\ code' = <<<<"bl", <<Cur[2], <<"fl", Cur[3], Cur[4], Cur[5]>>>>>>>> \o Rest
    /\ UNCHANGED <<env, store>> /\ UMem
ForLoop ==
    /\ Running("fl") /\ Tick
    /\ LET fs == <<"fs", Cur[2], Cur[3], Cur[4]>> IN
       IF IsImpure(Cur[2])
         THEN /\ code' = <<<<"if", Cur[2], Cur[4], <<"br">>>>, <<"$lp", fs, env, Len(store)>>>> \o Rest
              /\ UNCHANGED <<env, store>> /\ UMem
         ELSE LET v == Eval(Cur[2], env, store) IN
           IF Len(v) = 0 \/ Len(v) = 3 THEN Undef("cond")
           ELSE /\ code' = IF IsTrue(v) THEN <<Cur[4], <<"$lp", fs, env, Len(store)>>>> \o Rest ELSE Rest
                /\ UNCHANGED <<env, store>> /\ UMem
ForStep ==
    /\ Running("fs") /\ Tick
    /\ code' = <<Cur[3], <<"fl", Cur[2], Cur[3], Cur[4]>>>> \o Rest
    /\ UNCHANGED <<env, store>> /\ UMem

LoopBack ==   \* end of a loop body
    /\ Running("$lp") /\ Tick
    /\ code' = <<Cur[2]>> \o Rest /\ env' = Cur[3] /\ store' = SubSeq(store, 1, Cur[4])
    /\ UMem

LoopAt == CHOOSE i \in 1..Len(code) : code[i][1] = "$lp" /\ \A j \in 1..(i-1) : code[j][1] # "$lp"
Break ==
    /\ Running("br") /\ Tick
    /\ LET i == LoopAt IN
       /\ code' = SubSeq(code, i + 1, Len(code))
       /\ env' = code[i][3] /\ store' = SubSeq(store, 1, code[i][4])
    /\ UMem
Continue ==
    /\ Running("co") /\ Tick
    /\ LET i == LoopAt IN
       /\ code' = SubSeq(code, i, Len(code))
       /\ UNCHANGED <<env, store>>
    /\ UMem

\* goto a label among the outermost statements of the function (all its declarations precede them)
Label == Running("lb") /\ Tick /\ code' = Rest /\ UNCHANGED <<env, store>> /\ UMem
Goto ==
    /\ Running("go") /\ Tick
    /\ LET body == Prog.funcs[IF Len(stack) = 0 THEN "main" ELSE stack[Len(stack)][5]].body
           n == Len(code)
           m == CHOOSE i \in 1..Len(body) : body[i] = <<"lb", Cur[2]>>
           sc == {i \in 1..(n - 1) : code[i][1] \in {"$end", "$lp"}}
           j == CHOOSE i \in sc : \A h \in sc : h <= i
           d == IF code[j][1] = "$end" THEN 2 ELSE 3
       IN /\ code' = SubSeq(body, m + 1, Len(body)) \o <<code[n]>>
          /\ IF sc = {} THEN UNCHANGED <<env, store>>
             ELSE env' = code[j][d] /\ store' = SubSeq(store, 1, code[j][d + 1])
    /\ UMem

AtGlobalScope == code[Len(code)][1] = "$main"
\* declarations: <<"d", elemtype, name, dims, init>>
\* init: <<"none">>, <<"e", expr>>, <<"l", items>>
Decl ==
    /\ Running("d") /\ Tick
    /\ LET name == Cur[3] ty == Cur[2] dims == Cur[4] init == Cur[5] IN
       IF Len(dims) = 0 THEN
         IF init[1] = "none" THEN
           \* globals are zero, locals indeterminate
           /\ env' = Bind(env, name, <<"s", Len(store) + 1, 0, <<>>, ty>>)
           /\ store' = Append(store, <<IF AtGlobalScope THEN (IF ty = "i" THEN <<0>> ELSE <<0, 0>>) ELSE <<>>>>)
           /\ code' = Rest /\ UMem
         ELSE IF IsImpure(init[2])
           THEN \* evaluate first, with the name not yet in scope
             LET t == <<"$init", ty, name, init[2]>> IN
             /\ code' = <<t>> \o Rest /\ UNCHANGED <<env, store>> /\ UMem
           ELSE LET v == Conv(ty, Eval(init[2], env, store)) IN
             IF Len(v) = 0 \/ Len(v) = 3 THEN Undef("init")
             ELSE /\ env' = Bind(env, name, <<"s", Len(store) + 1, 0, <<>>, ty>>)
                  /\ store' = Append(store, <<v>>)
                  /\ code' = Rest /\ UMem
       ELSE
         LET n == Prod(dims, 1)
             zero == IF ty = "i" THEN <<0>> ELSE <<0, 0>>
             flat == IF init[1] = "l" THEN Flat(init[2], 1, dims, 0, 0, 0) ELSE <<>>
             vals == [i \in 1..Len(flat) |-> Conv(ty, Eval(flat[i][2], env, store))]
             base == IF init[1] = "none" /\ ~AtGlobalScope THEN <<>> ELSE zero
             obj == [i \in 1..n |-> LET w == {j \in 1..Len(flat) : flat[j][1] = i - 1} IN
                       IF w = {} THEN base ELSE vals[CHOOSE j \in w : TRUE]]
         IN
         IF \E i \in 1..Len(flat) : flat[i][1] >= n \/ Len(vals[i]) = 0 \/ Len(vals[i]) = 3 THEN Undef("init")
         ELSE /\ env' = Bind(env, name, <<"a", Len(store) + 1, 0, dims, ty>>)
              /\ store' = Append(store, obj)
              /\ code' = Rest /\ UMem

DeclInit ==
    /\ Running("$init") /\ Tick
    /\ IF IsImpure(Cur[4]) THEN CallStep(Cur[4], 4)
       ELSE LET v == Conv(Cur[2], Eval(Cur[4], env, store)) IN
         IF Len(v) = 0 \/ Len(v) = 3 THEN Undef("init")
         ELSE /\ env' = Bind(env, Cur[3], <<"s", Len(store) + 1, 0, <<>>, Cur[2]>>)
              /\ store' = Append(store, <<v>>)
              /\ code' = Rest /\ UMem

Main ==      \* globals are initialised: call main
    /\ Running("$main") /\ Tick
    /\ genv' = env
    /\ code' = <<<<"bl", Prog.funcs["main"].body>>>>
    /\ UNCHANGED <<pid, env, store, stack, inp, out, status, ret>>

DoReturn(v) ==
    IF Len(stack) = 0
      THEN /\ status' = "halt" /\ ret' = (IF Len(v) = 1 THEN v[1] ELSE 0)
           /\ code' = <<>>
           /\ UNCHANGED <<pid, env, genv, store, stack, inp, out>>
      ELSE LET fr == stack[Len(stack)] s == fr[1][1] k == fr[4] IN
           /\ code' = <<[s EXCEPT ![k] = Plug(s[k], v)]>> \o Tail(fr[1])
           /\ env' = fr[2] /\ store' = SubSeq(store, 1, fr[3])
           /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
           /\ UNCHANGED <<pid, genv, inp, out, status, ret>>

CurFunc == IF Len(stack) = 0 THEN "main" ELSE stack[Len(stack)][5]
Return ==
    /\ Running("re") /\ Tick
    /\ IF Len(Cur) = 1 THEN DoReturn(<<0>>)
       ELSE IF IsImpure(Cur[2]) THEN CallStep(Cur[2], 2)
       ELSE LET v == Conv(Prog.funcs[CurFunc].ret, Eval(Cur[2], env, store)) IN
            IF Len(v) = 0 \/ Len(v) = 3 THEN Undef("ret") ELSE DoReturn(v)
\* falling off the end: only defined for void functions
FallOff ==
    /\ status = "run" /\ Len(code) = 0 /\ Tick
    /\ IF Prog.funcs[CurFunc].ret = "v" THEN DoReturn(<<0>>) ELSE Undef("noreturn")

Limit == status = "run" /\ steps >= Prog.maxSteps

(*------------------------ conformance of the implementation ---------------*)
\* an observation: [cfg, out, exit, full]; exit codes are reported by the
\* operating system modulo 256 unless the target exposes the whole word
Conforms(o) ==
    /\ o.out = out
    /\ o.exit = (IF o.full = 1 THEN ret ELSE ret % 256)
Judge ==
    /\ status \in {"halt", "undef"}
    /\ status' = "judged"
    /\ PrintT(<<"RES", Prog.id, status, ret, steps,
               IF status = "halt" THEN {o \in 1..Len(Prog.obs) : ~Conforms(Prog.obs[o])} ELSE {}>>)
    /\ IF status = "halt" /\ \E o \in 1..Len(Prog.obs) : ~Conforms(Prog.obs[o])
         THEN PrintT(<<"EXP", Prog.id, ret, out>>) ELSE TRUE
    /\ Tick
    /\ UNCHANGED <<pid, code, env, genv, store, stack, inp, out, ret>>

TooLong == Limit /\ Tick /\ Undef("steps")

Next ==
    \/ Judge
    \/ IF Limit THEN TooLong
       ELSE \/ Assign \/ PathAssign \/ CopyStruct \/ ExprStmt \/ If \/ While \/ LoopBack \/ Block \/ EndBlock
            \/ Decl \/ DeclInit \/ Return \/ FallOff
            \/ Break \/ Continue \/ Label \/ Goto \/ For \/ ForLoop \/ ForStep \/ Do \/ DoTest \/ Main

Spec == Init /\ [][Next]_vars

(* invariants of the machine itself *)
TypeOK ==
    /\ status \in {"run", "halt", "undef", "judged"}
    /\ inp \in 1..(Len(Prog.input) + 1)
=============================================================================
