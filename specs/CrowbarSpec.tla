--------------------------- MODULE CrowbarSpec ---------------------------
(* Crowbar scripts: how a program is written (Toks, Weave), which tree is    *)
(* read from it (Mean), and what running it does (Eval, Exec, Run).          *)
(*                                                                           *)
(* Expressions, each with the number of the token that names it (at):        *)
(*  [k:"n", s]  name            [k:"i", s]  integer, its digits              *)
(*  [k:"s", p]  string, pieces [l: lines as written] or [x: expression]      *)
(*  [k:"p", o, s] property      [k:"c", f, a] call                           *)
(*  [k:"u", op, x]  [k:"b", op, l, r]  operators   [k:"g", x] parentheses    *)
(* Statements (en: how it ends, "nl", ";" or "none"):                        *)
(*  [k:"as", l, r, en]  [k:"ev", x, en]  [k:"ret", x, en]                    *)
(*  [k:"if", c, br, t, h, eb, e]: h: has else; br, eb: written with braces   *)
(*  [k:"wh", c, br, t]                                                       *)
(* Program: a sequence of [k:"fn", n, p, b] and [k:"junk", t].               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
RECURSIVE Join(_, _)
Join(ls, sep) == IF ls = <<>> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o sep \o Join(Tail(ls), sep)

\* ---- writing: tokens [t: lines, nl: newline before it, at: the node it names or 0] ----
\* nl: "no" newline would end the statement, "may" ignored, "must" ends the statement, "in" inside a string
Tok(s, nl, at) == [t |-> <<s>>, nl |-> nl, at |-> at]
Lv(p) == IF p THEN "may" ELSE "no"
RECURSIVE XT(_, _, _)
RECURSIVE ArgT(_)
PieceT(q) ==
    IF "l" \in DOMAIN q THEN <<[t |-> q.l, nl |-> "in", at |-> 0]>>
    ELSE <<Tok("${", "in", 0)>> \o XT(q.x, TRUE, "may") \o <<Tok("}", "may", 0)>>
\* x written where newlines are ignored (p) or not; first: what may stand before its first token
XT(x, p, first) ==
    CASE x.k \in {"n", "i"} -> <<Tok(x.s, first, x.at)>>
      [] x.k = "s" -> <<Tok("\"", first, x.at)>> \o Cat([i \in DOMAIN x.p |-> PieceT(x.p[i])]) \o <<Tok("\"", "in", 0)>>
      [] x.k = "p" -> XT(x.o, p, first) \o <<Tok(".", Lv(p), 0), Tok(x.s, Lv(p), x.at)>>
      [] x.k = "c" -> XT(x.f, p, first) \o <<Tok("(", Lv(p), x.at)>> \o ArgT(x.a) \o <<Tok(")", "may", 0)>>
      [] x.k = "u" -> <<Tok(x.op, first, x.at)>> \o XT(x.x, p, Lv(p))
      [] x.k = "b" -> XT(x.l, p, first) \o <<Tok(x.op, Lv(p), x.at)>> \o XT(x.r, p, Lv(p))
      [] x.k = "g" -> <<Tok("(", first, 0)>> \o XT(x.x, TRUE, "may") \o <<Tok(")", "may", 0)>>
ArgT(a) == IF a = <<>> THEN <<>> ELSE XT(a[1], TRUE, "may") \o (IF Len(a) = 1 THEN <<>> ELSE <<Tok(",", "may", 0)>> \o ArgT(Tail(a)))

Expr(x, first) == XT(x, FALSE, first)
RECURSIVE StT(_, _)
RECURSIVE BodyT(_, _)
Block(b, br) ==
    IF br THEN <<Tok("{", "may", 0)>> \o BodyT(b, "may") \o <<Tok("}", IF b # <<>> /\ "en" \in DOMAIN b[Len(b)] /\ b[Len(b)].en = "nl" THEN "must" ELSE "may", 0)>>
    ELSE StT(b[1], "may")
\* a statement and the ";" that may end it
StT(s, first) ==
    LET semi == IF "en" \in DOMAIN s /\ s.en = ";" THEN <<Tok(";", "no", 0)>> ELSE <<>> IN
    CASE s.k = "as" -> Expr(s.l, first) \o <<Tok("=", "no", 0)>> \o Expr(s.r, "no") \o semi
      [] s.k = "ev" -> Expr(s.x, first) \o semi
      [] s.k = "ret" -> <<Tok("return", first, 0)>> \o Expr(s.x, "no") \o semi
      [] s.k = "if" -> <<Tok("if", first, 0)>> \o Expr(s.c, "no") \o Block(s.t, s.br)
                       \o (IF s.h THEN <<Tok("else", "may", 0)>> \o Block(s.e, s.eb) ELSE <<>>)
      [] s.k = "wh" -> <<Tok("while", first, 0)>> \o Expr(s.c, "no") \o Block(s.t, s.br)
\* the statement's own end, which for a body without braces is that of its last part
RECURSIVE Ending(_)
Ending(s) ==
    IF "en" \in DOMAIN s THEN s.en
    ELSE IF s.k = "if" /\ s.h THEN (IF s.eb THEN "none" ELSE Ending(s.e[1]))
    ELSE IF s.br THEN "none" ELSE Ending(s.t[1])
BodyT(b, first) ==
    IF b = <<>> THEN <<>>
    ELSE StT(b[1], first) \o BodyT(Tail(b), IF Ending(b[1]) = "nl" THEN "must" ELSE "may")
ParamT(p) == Cat([i \in DOMAIN p |-> (IF i = 1 THEN <<>> ELSE <<Tok(",", "may", 0)>>) \o <<Tok(p[i], "may", 0)>>])
ItemT(f) ==
    IF f.k = "fn" THEN <<Tok("fn", "may", 0), Tok(f.n, "may", 0), Tok("(", "may", 0)>> \o ParamT(f.p) \o <<Tok(")", "may", 0)>> \o Block(f.b, TRUE)
    ELSE [i \in DOMAIN f.t |-> Tok(f.t[i], "may", IF i = 1 THEN f.at ELSE 0)]
Toks(prog) == Cat([i \in DOMAIN prog |-> ItemT(prog[i])])

\* ---- which trees are written without parentheses of their own ----
Prec == [o \in {"*", "/", "%"} |-> 3] @@ [o \in {"+", "-"} |-> 4] @@ [o \in {"<", "<=", ">", ">="} |-> 6] @@ ("==" :> 7) @@ ("&&" :> 11) @@ ("||" :> 12)
Level(x) == CASE x.k = "b" -> Prec[x.op] [] x.k = "u" -> 2 [] OTHER -> 1
RECURSIVE Well(_)
Well(x) ==
    CASE x.k \in {"n", "i"} -> TRUE
      [] x.k = "g" -> Well(x.x)
      [] x.k = "s" -> \A i \in DOMAIN x.p : "l" \in DOMAIN x.p[i] \/ Well(x.p[i].x)
      [] x.k = "p" -> Level(x.o) = 1 /\ Well(x.o)
      [] x.k = "c" -> Level(x.f) = 1 /\ Well(x.f) /\ \A i \in DOMAIN x.a : Well(x.a[i])
      [] x.k = "u" -> Level(x.x) <= 2 /\ Well(x.x)
      [] x.k = "b" -> Level(x.l) <= Prec[x.op] /\ Level(x.r) < Prec[x.op] /\ Well(x.l) /\ Well(x.r)
RECURSIVE WellS(_)
WellS(b) ==
    \A i \in DOMAIN b : LET s == b[i] IN
        /\ Ending(s) = "none" => (i = Len(b) \/ s.k \in {"if", "wh"})
        /\ CASE s.k = "as" -> Well(s.l) /\ Well(s.r)
             [] s.k \in {"ev", "ret"} -> Well(s.x)
             [] s.k = "if" -> Well(s.c) /\ WellS(s.t) /\ WellS(s.e) /\ (s.br \/ (Len(s.t) = 1 /\ s.t[1].k = "ret"))
                              /\ (~s.h \/ s.eb \/ (Len(s.e) = 1 /\ s.e[1].k = "ret"))
             [] s.k = "wh" -> Well(s.c) /\ WellS(s.t) /\ (s.br \/ (Len(s.t) = 1 /\ s.t[1].k = "ret"))

\* ---- the text: separators (lines) before each token, one more at the end ----
NlOk(sep, nl) ==
    CASE nl = "in" -> sep = <<"">>
      [] nl = "no" -> Len(sep) = 1
      [] nl = "must" -> Len(sep) > 1
      [] OTHER -> TRUE
\* where the token after some text starts: <<line, column>>
After(pos, ls) == IF Len(ls) = 1 THEN <<pos[1], pos[2] + Len(ls[1])>> ELSE <<pos[1] + Len(ls) - 1, 1 + Len(ls[Len(ls)])>>
Places(toks, seps) ==
    FoldLeft(LAMBDA acc, i : LET p == After(acc.p, seps[i]) IN [p |-> After(p, toks[i].t), r |-> Append(acc.r, p)],
             [p |-> <<1, 1>>, r |-> <<>>], [i \in DOMAIN toks |-> i]).r
Weave(toks, seps) == FoldLeft(LAMBDA acc, i : acc \o Join(seps[i], "\n") \o Join(toks[i].t, "\n"), "", [i \in DOMAIN toks |-> i])
                     \o Join(seps[Len(seps)], "\n")
At(p) == "(" \o ToString(p[1]) \o ", " \o ToString(p[2]) \o ")"

\* ---- 32-bit numbers: <<high, low>> halves ----
K == 65536
Num(hi, lo) == <<hi % K, lo % K>>
Carry(hi, lo) == Num(hi + (lo \div K), lo)
Plus(a, b) == Carry(a[1] + b[1], a[2] + b[2])
Minus(a, b) == Plus(a, Carry(K - 1 - b[1], K - b[2]))
\* small factor (< 32768)
Times1(a, c) == Num(((a[1] * c) % K) + ((a[2] * c) \div K), (a[2] * c) % K)
Shift(a) == <<a[2], 0>>
Mul(a, b) == Plus(Plus(Times1(a, b[2] % 256), Times1(Times1(a, b[2] \div 256), 256)),
                  Plus(Shift(Times1(a, b[1] % 256)), Shift(Times1(Times1(a, b[1] \div 256), 256))))
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Bit(a, i) == IF i >= 16 THEN (a[1] \div (2^(i - 16))) % 2 ELSE (a[2] \div (2^i)) % 2
\* long division: quotient and remainder; a remainder that no longer fits in 32 bits is larger than b
RECURSIVE Divide(_, _, _, _, _)
Divide(a, b, i, q, r) ==
    IF i < 0 THEN <<q, r>>
    ELSE LET over == r[1] >= 32768
             d == Plus(Plus(r, r), <<0, Bit(a, i)>>)
             fits == over \/ ~Less(d, b)
         IN Divide(a, b, i - 1, Plus(Plus(q, q), <<0, IF fits THEN 1 ELSE 0>>), IF fits THEN Minus(d, b) ELSE d)
Div(a, b) == Divide(a, b, 31, <<0, 0>>, <<0, 0>>)[1]
Mod(a, b) == Divide(a, b, 31, <<0, 0>>, <<0, 0>>)[2]
RECURSIVE Decimal(_)
Decimal(a) ==
    IF a[1] = 0 THEN ToString(a[2])
    ELSE LET r == a[1] % 10  low == r * K + a[2] IN Decimal(Num((a[1] \div 10) + (low \div 10) \div K, low \div 10)) \o ToString(low % 10)
Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CHOOSE n \in 0..9 : ToString(n) = c]
RECURSIVE Number(_)
Number(s) == IF s = "" THEN <<0, 0>> ELSE Plus(Times1(Number(SubSeq(s, 1, Len(s) - 1)), 10), <<0, Digit[SubSeq(s, Len(s), Len(s))]>>)

\* ---- what was written stands for: the tree without parentheses ----
RECURSIVE Unescape(_)
Unescape(s) ==
    IF s = "" THEN ""
    ELSE IF SubSeq(s, 1, 1) = "\\" THEN SubSeq(s, 2, 2) \o Unescape(SubSeq(s, 3, Len(s)))
    ELSE SubSeq(s, 1, 1) \o Unescape(SubSeq(s, 2, Len(s)))
Text(q) == Unescape(Join(q.l, "\n"))
RECURSIVE Mean(_)
Mean(x) ==
    CASE x.k = "n" -> [k |-> "n", s |-> x.s]
      [] x.k = "i" -> [k |-> "i", n |-> Number(x.s)]
      [] x.k = "g" -> Mean(x.x)
      [] x.k = "s" -> [k |-> "s", p |-> [i \in DOMAIN x.p |-> IF "l" \in DOMAIN x.p[i] THEN [l |-> Text(x.p[i])] ELSE [x |-> Mean(x.p[i].x)]]]
      [] x.k = "p" -> [k |-> "p", o |-> Mean(x.o), s |-> x.s]
      [] x.k = "c" -> [k |-> "c", f |-> Mean(x.f), a |-> [i \in DOMAIN x.a |-> Mean(x.a[i])]]
      [] x.k = "u" -> [k |-> "u", op |-> x.op, x |-> Mean(x.x)]
      [] x.k = "b" -> [k |-> "b", op |-> x.op, l |-> Mean(x.l), r |-> Mean(x.r)]
RECURSIVE MeanS(_)
MeanS(b) == [i \in DOMAIN b |-> LET s == b[i] IN
    CASE s.k = "as" -> [k |-> "as", l |-> Mean(s.l), r |-> Mean(s.r)]
      [] s.k \in {"ev", "ret"} -> [k |-> s.k, x |-> Mean(s.x)]
      [] s.k = "if" -> [k |-> "if", c |-> Mean(s.c), t |-> MeanS(s.t), h |-> s.h, e |-> MeanS(s.e)]
      [] s.k = "wh" -> [k |-> "wh", c |-> Mean(s.c), t |-> MeanS(s.t)]]
Functions(prog) == SelectSeq(prog, LAMBDA f : f.k = "fn")
MeanP(prog) == LET fs == Functions(prog) IN [i \in DOMAIN fs |-> [n |-> fs[i].n, p |-> fs[i].p, b |-> MeanS(fs[i].b)]]
\* the errors found while reading: the first token of every stretch that is not a function
Complaints(prog, places) ==
    Cat([i \in DOMAIN prog |-> IF prog[i].k = "fn" THEN <<>>
                               ELSE <<At(places[prog[i].at]) \o " error: unexpected '" \o prog[i].t[1] \o "'\n">>])

\* ---- values ----
U(n) == [t |-> "u32", n |-> n]
B(v) == [t |-> "bool", b |-> v]
S(s) == [t |-> "String", s |-> s]
None == [t |-> "none"]
Shown(v) == CASE v.t = "u32" -> Decimal(v.n) [] v.t = "bool" -> (IF v.b THEN "true" ELSE "false") [] v.t = "String" -> v.s
Showable(v) == v.t \in {"u32", "bool", "String"}
TypeName(v, w) == CASE v.t = "obj" -> w.type [] v.t = "print" -> "built-in function" [] OTHER -> v.t
\* what a message that mentions the value's type says; how a function's type is called is not settled
About(v, m) == IF v.t = "fn" THEN "" ELSE m
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN s \o Repeat(s, n - 1) ELSE Repeat(s \o s, n \div 2)

(* The world: [out, obj (the object's properties), type (its type's name), fns]                   *)
(* and er: <<>> or what went wrong: [m: message or "" if not settled, at: tokens, innermost first; *)
(* 0 if not settled, fn: names of the functions].                                                  *)
\* Every operator below returns [v, w] (expressions) or [env, w, r] (statements: r = <<>> or <<value>>)
Fail(w, m, at, fn) == [v |-> None, w |-> [w EXCEPT !.er = <<[m |-> m, at |-> <<at>>, fn |-> <<fn>>]>>]]
Ok(v, w) == [v |-> v, w |-> w]
Bad(r) == r.w.er # <<>>

Unary(op, v, at, fn, w) ==
    CASE v.t = "u32" /\ op = "-" -> Ok(U(Minus(<<0, 0>>, v.n)), w)
      [] v.t = "u32" /\ op = "!" -> Ok(U(<<0, IF v.n = <<0, 0>> THEN 1 ELSE 0>>), w)
      [] v.t = "u32" /\ op = "~" -> Ok(U(<<K - 1 - v.n[1], K - 1 - v.n[2]>>), w)
      [] v.t = "bool" /\ op = "!" -> Ok(B(~v.b), w)
      [] v.t = "none" -> Fail(w, "", 0, fn)
      [] OTHER -> Fail(w, About(v, "'" \o TypeName(v, w) \o "' does not support unary operator '" \o op \o "'"), at, fn)
Arith == {"*", "/", "%", "+", "-", "<", "<=", ">", ">=", "=="}
Supported(v) == CASE v.t = "u32" -> Arith [] v.t = "bool" -> {"==", "&&", "||"} [] v.t = "String" -> {"+", "*"} [] OTHER -> {}
Binary(op, a, b, at, fn, w) ==
    IF b.t = "none" THEN Fail(w, "", 0, fn)
    ELSE IF op \notin Supported(a) THEN Fail(w, About(a, "'" \o TypeName(a, w) \o "' does not support binary operator '" \o op \o "'"), at, fn)
    ELSE IF b.t # (IF a.t = "String" /\ op = "*" THEN "u32" ELSE a.t) THEN Fail(w, "", at, fn)
    ELSE IF op \in {"/", "%"} /\ b.n = <<0, 0>> THEN Fail(w, "", at, fn)
    ELSE Ok(CASE a.t = "bool" -> (CASE op = "==" -> B(a.b = b.b) [] op = "&&" -> B(a.b /\ b.b) [] op = "||" -> B(a.b \/ b.b))
              [] a.t = "String" -> (IF op = "+" THEN S(a.s \o b.s) ELSE S(Repeat(a.s, b.n[2])))
              [] a.t = "u32" ->
                    (CASE op = "+" -> U(Plus(a.n, b.n)) [] op = "-" -> U(Minus(a.n, b.n)) [] op = "*" -> U(Mul(a.n, b.n))
                      [] op = "/" -> U(Div(a.n, b.n)) [] op = "%" -> U(Mod(a.n, b.n))
                      [] op = "<" -> B(Less(a.n, b.n)) [] op = "<=" -> B(~Less(b.n, a.n))
                      [] op = ">" -> B(Less(b.n, a.n)) [] op = ">=" -> B(~Less(a.n, b.n))
                      [] op = "==" -> B(a.n = b.n)), w)

Lookup(s, env, w) ==
    IF s \in DOMAIN env THEN env[s]
    ELSE IF s \in DOMAIN w.fns THEN [t |-> "fn", f |-> s]
    ELSE IF s = "print" THEN [t |-> "print"]
    ELSE IF s \in {"true", "false"} THEN B(s = "true") ELSE None
RECURSIVE Eval(_, _, _, _)
RECURSIVE Args(_, _, _, _, _)
RECURSIVE Pieces(_, _, _, _, _)
RECURSIVE Exec(_, _, _, _)
RECURSIVE Loop(_, _, _, _)

\* the arguments' values, left to right: v is their sequence
Args(a, env, w, fn, acc) ==
    IF a = <<>> THEN Ok(acc, w)
    ELSE LET r == Eval(a[1], env, w, fn) IN IF Bad(r) THEN r ELSE IF r.v.t = "none" THEN Fail(r.w, "", 0, fn) ELSE Args(Tail(a), env, r.w, fn, Append(acc, r.v))
Pieces(p, env, w, fn, acc) ==
    IF p = <<>> THEN Ok(acc, w)
    ELSE IF "l" \in DOMAIN p[1] THEN Pieces(Tail(p), env, w, fn, acc \o Text(p[1]))
    ELSE LET r == Eval(p[1].x, env, w, fn) IN
         IF Bad(r) THEN r
         ELSE IF ~Showable(r.v) THEN Fail(r.w, "", 0, fn)
         ELSE Pieces(Tail(p), env, r.w, fn, acc \o Shown(r.v))
Call(f, args, at, fn, w) ==
    CASE f.t = "fn" ->
            LET def == w.fns[f.f] IN
            IF Len(args) # Len(def.p) THEN Fail(w, "", at, fn)
            ELSE LET r == Exec(def.b, [s \in {def.p[i] : i \in DOMAIN def.p} |-> args[CHOOSE i \in DOMAIN def.p : def.p[i] = s]], w, f.f) IN
                 IF Bad(r) THEN [v |-> None, w |-> [r.w EXCEPT !.er = <<[m |-> @[1].m, at |-> Append(@[1].at, at), fn |-> Append(@[1].fn, fn)]>>]]
                 ELSE Ok(IF r.r = <<>> THEN None ELSE r.r[1], r.w)
      [] f.t = "print" ->
            IF Len(args) # 1 THEN Fail(w, "", at, fn)
            ELSE IF ~Showable(args[1]) THEN Fail(w, About(args[1], "'" \o TypeName(args[1], w) \o "' does not support printing"), at, fn)
            ELSE Ok(None, [w EXCEPT !.out = @ \o Shown(args[1]) \o "\n"])
      [] OTHER -> Fail(w, "cannot call '" \o TypeName(f, w) \o "' as a function", at, fn)
Eval(x, env, w, fn) ==
    CASE x.k = "n" -> LET v == Lookup(x.s, env, w) IN
                      IF v.t = "none" THEN Fail(w, "cannot resolve identifier '" \o x.s \o "'", x.at, fn) ELSE Ok(v, w)
      [] x.k = "i" -> Ok(U(Number(x.s)), w)
      [] x.k = "g" -> Eval(x.x, env, w, fn)
      [] x.k = "s" -> LET r == Pieces(x.p, env, w, fn, "") IN IF Bad(r) THEN r ELSE Ok(S(r.v), r.w)
      [] x.k = "p" -> LET r == Eval(x.o, env, w, fn) IN
                      IF Bad(r) THEN r
                      ELSE IF r.v.t = "none" THEN Fail(r.w, "", 0, fn)
                      ELSE IF r.v.t # "obj" THEN Fail(r.w, About(r.v, "'" \o TypeName(r.v, r.w) \o "' does not support property lookup"), x.at, fn)
                      ELSE IF x.s \notin DOMAIN r.w.obj THEN Fail(r.w, "property '" \o x.s \o "' not found in type '" \o r.w.type \o "'", x.at, fn)
                      ELSE Ok(r.w.obj[x.s], r.w)
      [] x.k = "u" -> LET r == Eval(x.x, env, w, fn) IN IF Bad(r) THEN r ELSE Unary(x.op, r.v, x.at, fn, r.w)
      [] x.k = "b" -> LET a == Eval(x.l, env, w, fn) IN
                      IF Bad(a) THEN a
                      ELSE IF a.v.t = "none" THEN Fail(a.w, "", 0, fn)
                      ELSE LET b == Eval(x.r, env, a.w, fn) IN IF Bad(b) THEN b ELSE Binary(x.op, a.v, b.v, x.at, fn, b.w)
      [] x.k = "c" -> LET f == Eval(x.f, env, w, fn) IN
                      IF Bad(f) THEN f
                      ELSE IF f.v.t = "none" THEN Fail(f.w, "", 0, fn)
                      ELSE LET a == Args(x.a, env, f.w, fn, <<>>) IN IF Bad(a) THEN a ELSE Call(f.v, a.v, x.at, fn, a.w)

Done(env, w, r) == [env |-> env, w |-> w, r |-> r]
Assign(s, env, w, fn) ==
    IF s.l.k = "n" THEN
        LET r == Eval(s.r, env, w, fn) IN
        IF Bad(r) THEN Done(env, r.w, <<>>)
        ELSE IF r.v.t = "none" \/ (s.l.s \in DOMAIN env /\ env[s.l.s].t # r.v.t) THEN Done(env, Fail(r.w, "", 0, fn).w, <<>>)
        ELSE Done((s.l.s :> r.v) @@ env, r.w, <<>>)
    ELSE IF s.l.k = "p" THEN
        LET a == Eval(s.l, env, w, fn) IN
        IF Bad(a) THEN Done(env, a.w, <<>>)
        ELSE LET r == Eval(s.r, env, a.w, fn) IN
             IF Bad(r) THEN Done(env, r.w, <<>>)
             ELSE IF r.v.t # a.v.t THEN Done(env, Fail(r.w, "", 0, fn).w, <<>>)
             ELSE Done(env, [r.w EXCEPT !.obj[s.l.s] = r.v], <<>>)
    ELSE Done(env, Fail(w, "", 0, fn).w, <<>>)      \* only names and properties can be assigned to
Exec1(s, env, w, fn) ==
    CASE s.k = "as" -> Assign(s, env, w, fn)
      [] s.k = "ev" -> LET r == Eval(s.x, env, w, fn) IN Done(env, r.w, <<>>)
      [] s.k = "ret" -> LET r == Eval(s.x, env, w, fn) IN Done(env, r.w, IF Bad(r) THEN <<>> ELSE <<r.v>>)
      [] s.k = "if" -> LET r == Eval(s.c, env, w, fn) IN
                       IF Bad(r) THEN Done(env, r.w, <<>>)
                       ELSE IF r.v.t # "bool" THEN Done(env, Fail(r.w, "", 0, fn).w, <<>>)
                       ELSE Exec(IF r.v.b THEN s.t ELSE s.e, env, r.w, fn)
      [] s.k = "wh" -> Loop(s, env, w, fn)
Loop(s, env, w, fn) ==
    LET r == Eval(s.c, env, w, fn) IN
    IF Bad(r) THEN Done(env, r.w, <<>>)
    ELSE IF r.v.t # "bool" THEN Done(env, Fail(r.w, "", 0, fn).w, <<>>)
    ELSE IF ~r.v.b THEN Done(env, r.w, <<>>)
    ELSE LET q == Exec(s.t, env, r.w, fn) IN IF Bad(q) \/ q.r # <<>> THEN q ELSE Loop(s, q.env, q.w, fn)
Exec(b, env, w, fn) ==
    IF b = <<>> THEN Done(env, w, <<>>)
    ELSE LET r == Exec1(b[1], env, w, fn) IN IF Bad(r) \/ r.r # <<>> THEN r ELSE Exec(Tail(b), r.env, r.w, fn)

\* a program's function "test" run with the host's object as its argument, if it takes one
FnTable(prog) == LET fs == Functions(prog) IN
    [s \in {fs[i].n : i \in DOMAIN fs} |-> LET i == CHOOSE i \in DOMAIN fs : fs[i].n = s /\ \A j \in DOMAIN fs : fs[j].n = s => j <= i IN [p |-> fs[i].p, b |-> fs[i].b]]
Run(prog, obj, type) ==
    LET fns == FnTable(prog) IN
    Exec(fns["test"].b, [s \in {fns["test"].p[i] : i \in DOMAIN fns["test"].p} |-> [t |-> "obj"]],
         [out |-> "", obj |-> obj, type |-> type, fns |-> fns, er |-> <<>>], "test").w

\* a report of the error, a line per function: <<message, <<place, name>>, ...>>
Report(er, rep, places) ==
    /\ er.m = "" \/ rep.m = er.m
    /\ Len(rep.at) = Len(er.at)
    /\ \A i \in DOMAIN er.at : rep.fn[i] = er.fn[i] /\ (er.at[i] = 0 \/ rep.at[i] = places[er.at[i]])
=============================================================================
