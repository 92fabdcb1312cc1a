----------------------------- MODULE BuildGraph -----------------------------
(* What plytool makes of repositories, modules and externs:                  *)
(* ply-build-repo (RepoRegistry, Repo, ModuleArgs, ProjectInstantiator) and  *)
(* ply-build-target (Dependency, BuildTarget, CMakeLists).                   *)
(*                                                                           *)
(* A repository holds modules (each a list of steps its module function      *)
(* takes), extern names and extern providers. A project is made by           *)
(* instantiating root modules; every module reached is instantiated once,    *)
(* in the order it was first reached. Then the properties are propagated:    *)
(* what a module makes public reaches those that can see it, and what must   *)
(* be linked reaches everything that ends up linked.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES repos,   \* sequence of [name, kids]
          targets, \* sequence of [repo, name, path, steps]
          externs, \* sequence of [repo, name]
          provs,   \* sequence of [repo, ext, name, inst, steps]
          sel,     \* the selected providers (indices into provs)
          g        \* the project
vars == <<repos, targets, externs, provs, sel, g>>

Range(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
(* what is new in b, in its order, after a *)
RECURSIVE Merge(_, _)
Merge(a, b) == IF b = <<>> THEN a
               ELSE Merge(IF Has(a, b[1]) THEN a ELSE Append(a, b[1]), Tail(b))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

---------------------------------------------------------------------------
(* Names: identifiers (dashes allowed) separated by dots *)
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_","-"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
At(s, i) == SubSeq(s, i, i)
IsId(s) == Len(s) > 0 /\ At(s, 1) \in Letters /\ \A i \in 1..Len(s) : At(s, i) \in Letters \cup Digits
Dots(s) == {i \in 1..Len(s) : At(s, i) = "."}
RECURSIVE SplitAt(_, _)
SplitAt(s, ds) == IF ds = {} THEN <<s>>
                  ELSE LET d == CHOOSE x \in ds : \A y \in ds : x <= y
                       IN <<SubSeq(s, 1, d - 1)>> \o
                          SplitAt(SubSeq(s, d + 1, Len(s)), {x - d : x \in ds \ {d}})
(* <<>> when the name is not well formed *)
Comps(s) == LET c == SplitAt(s, Dots(s)) IN IF \A i \in 1..Len(c) : IsId(c[i]) THEN c ELSE <<>>

---------------------------------------------------------------------------
(* Repositories and what can be found in them *)
RepoOf(n) == repos[CHOOSE i \in 1..Len(repos) : repos[i].name = n]
IsRepo(n) == \E i \in 1..Len(repos) : repos[i].name = n
(* a repository and everything it depends on, the nearest first *)
RECURSIVE Visit(_, _)
Visit(n, seen) == IF Has(seen, n) THEN seen
                  ELSE LET kids == RepoOf(n).kids
                           F[i \in 0..Len(kids)] == IF i = 0 THEN Append(seen, n) ELSE Visit(kids[i], F[i - 1])
                       IN F[Len(kids)]
Sees(n) == Visit(n, <<>>)

TargetsOf(r, n) == {i \in 1..Len(targets) : targets[i].repo = r /\ targets[i].name = n}
ExternsOf(r, n) == {i \in 1..Len(externs) : externs[i].repo = r /\ externs[i].name = n}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
OkId(i) == [id |-> i, err |-> ""]
Bad(msg) == [id |-> 0, err |-> msg]

(* a name used inside module code of repository r *)
UseTarget(r, s) ==
    LET c == Comps(s)
    IN IF c = <<>> THEN Bad("Invalid target name '" \o s \o "'")
       ELSE IF Has(Sees(r), c[1])
       THEN IF Len(c) = 1 THEN Bad("'" \o s \o "' is a repo; expected a module name")
            ELSE IF TargetsOf(c[1], c[2]) = {} THEN Bad("Can't find module '" \o c[2] \o "' in repo '" \o c[1] \o "'")
            ELSE IF Len(c) > 2 THEN Bad("Too many components in target name '" \o s \o "'")
            ELSE OkId(First(TargetsOf(c[1], c[2])))
       ELSE LET found == UNION {TargetsOf(x, c[1]) : x \in Range(Sees(r))}
            IN IF Cardinality(found) # 1 THEN Bad("Can't find module '" \o c[1] \o "' in any repo")
               ELSE IF Len(c) > 1 THEN Bad("Too many components in target name '" \o s \o "'")
               ELSE OkId(First(found))

UseExtern(r, s) ==
    LET c == Comps(s)
    IN IF c = <<>> THEN Bad("Invalid extern name '" \o s \o "'")
       ELSE IF Has(Sees(r), c[1])
       THEN IF Len(c) = 1 THEN Bad("'" \o c[1] \o "' is a repo; expected an extern name")
            ELSE IF ExternsOf(c[1], c[2]) = {} THEN Bad("Can't find extern '" \o c[2] \o "' in repo '" \o c[1] \o "'")
            ELSE IF Len(c) > 2 THEN Bad("Too many components in extern name '" \o s \o "'")
            ELSE OkId(First(ExternsOf(c[1], c[2])))
       ELSE LET found == UNION {ExternsOf(x, c[1]) : x \in Range(Sees(r))}
            IN IF Cardinality(found) # 1 THEN Bad("Can't find extern '" \o c[1] \o "' in any repo")
               ELSE IF Len(c) > 1 THEN Bad("Too many components in extern name '" \o s \o "'")
               ELSE OkId(First(found))

(* names given on the command line or in a build folder: every repository is looked at *)
FullTarget(i) == targets[i].repo \o "." \o targets[i].name
FullExtern(i) == externs[i].repo \o "." \o externs[i].name
FullProvider(i) == LET p == provs[i] IN
    FullExtern(p.ext) \o "." \o (IF p.repo = externs[p.ext].repo THEN "" ELSE p.repo \o ".") \o p.name

(* the answers a lookup may give: a set of [id, err] (a message may name any of several candidates) *)
LookTarget(s) ==
    LET c == Comps(s)
        many == {Bad("Too many components in module name '" \o s \o "'")}
    IN IF c = <<>> THEN {Bad("Invalid module name '" \o s \o "'")}
       ELSE IF IsRepo(c[1])
       THEN IF Len(c) = 1 THEN {Bad("'" \o s \o "' is a repo; expected a module name")}
            ELSE IF Len(c) > 2 THEN many
            ELSE IF TargetsOf(c[1], c[2]) = {} THEN {Bad("Can't find module '" \o c[2] \o "' in repo '" \o c[1] \o "'")}
            ELSE {OkId(First(TargetsOf(c[1], c[2])))}
       ELSE IF Len(c) > 1 THEN many
       ELSE LET found == {i \in 1..Len(targets) : targets[i].name = c[1]}
            IN IF found = {} THEN {Bad("Can't find module '" \o s \o "' in any repo")}
               ELSE IF Cardinality(found) > 1
               THEN {Bad("Module '" \o s \o "' was found in multiple repos; use a repo prefix such as '" \o FullTarget(i) \o "'") : i \in found}
               ELSE {OkId(First(found))}

(* the extern at the front of a list of components: [ans, rest] *)
FrontExtern(c) ==
    IF IsRepo(c[1])
    THEN IF Len(c) = 1 THEN [ans |-> {Bad("'" \o c[1] \o "' is a repo; expected a module name")}, rest |-> <<>>]
         ELSE [ans |-> IF ExternsOf(c[1], c[2]) = {}
                       THEN {Bad("Can't find extern '" \o c[2] \o "' in repo '" \o c[1] \o "'")}
                       ELSE {OkId(First(ExternsOf(c[1], c[2])))},
               rest |-> SubSeq(c, 3, Len(c))]
    ELSE LET found == {i \in 1..Len(externs) : externs[i].name = c[1]}
         IN [ans |-> IF found = {} THEN {Bad("Can't find extern '" \o c[1] \o "' in any repo")}
                     ELSE IF Cardinality(found) > 1
                     THEN {Bad("Extern '" \o c[1] \o "' was found in multiple repos; use a repo prefix such as '" \o FullExtern(i) \o "'") : i \in found}
                     ELSE {OkId(First(found))},
             rest |-> Tail(c)]
Failed(a) == \A x \in a : x.id = 0
TheId(a) == (CHOOSE x \in a : TRUE).id

LookExtern(s) ==
    LET c == Comps(s)
    IN IF c = <<>> THEN {Bad("Invalid extern name '" \o s \o "'")}
       ELSE LET f == FrontExtern(c)
            IN IF Failed(f.ans) THEN f.ans
               ELSE IF f.rest # <<>> THEN {Bad("Too many components in extern name '" \o s \o "'")}
               ELSE f.ans

(* How an entity is called in messages: as short as is still unambiguous *)
ShortTarget(i) == IF \E j \in 1..Len(targets) : targets[j].name = targets[i].name /\ targets[j].repo # targets[i].repo
                  THEN FullTarget(i) ELSE targets[i].name
ShortExtern(i) == IF \E j \in 1..Len(externs) : externs[j].name = externs[i].name /\ externs[j].repo # externs[i].repo
                  THEN FullExtern(i) ELSE externs[i].name
ShortProvider(i) == ShortExtern(provs[i].ext) \o "." \o
    (IF \E j \in 1..Len(provs) : provs[j].ext = provs[i].ext /\ provs[j].name = provs[i].name /\ provs[j].repo # provs[i].repo
     THEN provs[i].repo \o "." ELSE "") \o provs[i].name

LookProvider(s) ==
    LET c == Comps(s)
        many == {Bad("Too many components in extern provider name '" \o s \o "'")}
    IN IF c = <<>> THEN {Bad("Invalid extern provider name '" \o s \o "'")}
       ELSE LET f == FrontExtern(c)
                r == f.rest
                x == TheId(f.ans)
                Of(R, n) == {i \in 1..Len(provs) : provs[i].ext = x /\ provs[i].name = n /\ provs[i].repo \in R}
            IN IF Failed(f.ans) THEN f.ans
               ELSE IF r = <<>> THEN {Bad("Not enough components in extern provider name '" \o s \o "'")}
               ELSE IF IsRepo(r[1])
               THEN IF Len(r) = 1 THEN {Bad("'" \o r[1] \o "' is a repo; expected an extern provider name")}
                    ELSE IF Of({r[1]}, r[2]) = {} THEN {Bad("Can't find extern provider '" \o s \o "' in repo '" \o r[1] \o "'")}
                    ELSE IF Len(r) > 2 THEN many
                    ELSE {OkId(First(Of({r[1]}, r[2])))}
               ELSE LET all == Of({repos[i].name : i \in 1..Len(repos)}, r[1])
                        own == Of({externs[x].repo}, r[1])
                        rep == {provs[i].repo : i \in all}
                    IN IF all = {} THEN {Bad("Can't find extern provider '" \o r[1] \o "' for extern '" \o ShortExtern(x) \o "' in any repo")}
                       \* repo.extern.provider, in full, is the provider of that repository itself
                       ELSE IF Cardinality(rep) > 1 /\ ~(IsRepo(c[1]) /\ own # {})
                       THEN {Bad("Extern provider '" \o r[1] \o "' for extern '" \o ShortExtern(x) \o
                                 "'  was found in multiple repos; use a repo prefix such as '" \o FullProvider(i) \o "'") : i \in all}
                       ELSE IF Len(r) > 1 THEN many
                       ELSE {OkId(First(IF Cardinality(rep) > 1 THEN own ELSE all))}

---------------------------------------------------------------------------
(* The project *)
NoProject == [nodes |-> <<>>, unsel |-> <<>>, uninst |-> <<>>, tree |-> <<>>, errs |-> <<>>, fatal |-> ""]

NewNode(kind, id) ==
    [kind |-> kind, id |-> id, type |-> "lib", ctr |-> 0, dlp |-> "", code |-> FALSE, pch |-> <<>>,
     src |-> <<>>, non |-> <<>>, ok |-> TRUE, done |-> kind # "target", prop |-> FALSE, deps |-> <<>>, vis |-> <<>>,
     pinc |-> <<>>, inc |-> <<>>, pdef |-> <<>>, def |-> <<>>, pflag |-> <<>>, flag |-> <<>>,
     libs |-> <<>>, dlls |-> <<>>, fws |-> <<>>]

(* definitions: a sequence of <<name, value>> *)
DefAt(s, k) == {i \in 1..Len(s) : s[i][1] = k}
SetDef(s, k, v) == IF DefAt(s, k) = {} THEN Append(s, <<k, v>>)
                   ELSE [s EXCEPT ![First(DefAt(s, k))] = <<k, v>>]
RECURSIVE MergeDefs(_, _)
MergeDefs(a, b) == IF b = <<>> THEN a
                   ELSE MergeDefs(IF DefAt(a, b[1][1]) = {} THEN Append(a, b[1]) ELSE a, Tail(b))
RECURSIVE Clashes(_, _)
Clashes(a, b) == IF b = <<>> THEN <<>>
                 ELSE (IF \E i \in DefAt(a, b[1][1]) : a[i][2] # b[1][2]
                       THEN <<"Clashing definitions for \"" \o b[1][1] \o "\"">> ELSE <<>>)
                      \o Clashes(MergeDefs(a, <<b[1]>>), Tail(b))

Join(p, s) == p \o "/" \o s
Node(st, n) == st.nodes[n]
NodeOf(st, kind, id) == {n \in 1..Len(st.nodes) : st.nodes[n].kind = kind /\ st.nodes[n].id = id}
ShortOf(kind, id) == IF kind = "target" THEN ShortTarget(id) ELSE ShortExtern(id)

(* one step of a module function or of a provider *)
Step(nd, path, s) ==
    CASE s[1] = "inc" -> LET d == IF path = "" THEN s[3] ELSE Join(path, s[3])
                         IN [nd EXCEPT !.pinc = IF path = "" THEN @ ELSE Append(@, d),
                                       !.inc = IF s[2] = "pub" THEN Append(@, d) ELSE @]
      [] s[1] = "def" -> [nd EXCEPT !.pdef = IF path = "" THEN @ ELSE SetDef(@, s[3], s[4]),
                                    !.def = IF s[2] = "pub" THEN SetDef(@, s[3], s[4]) ELSE @]
      [] s[1] = "flag" -> IF s[2] = "pub" THEN [nd EXCEPT !.flag = Append(@, s[3])]
                          ELSE [nd EXCEPT !.pflag = Append(@, s[3])]
      [] s[1] = "lib" -> [nd EXCEPT !.libs = Append(@, s[2])]
      [] s[1] = "dll" -> [nd EXCEPT !.dlls = Append(@, s[2])]
      [] s[1] = "fw" -> [nd EXCEPT !.fws = Append(@, s[2])]
      [] s[1] = "type" -> [nd EXCEPT !.type = s[2]]
      [] s[1] = "dlp" -> [nd EXCEPT !.dlp = s[2]]
      \* the names of source files are given; only C and C++ files make it something to compile
      [] s[1] = "code" -> [nd EXCEPT !.code = @ \/ s[2] = "yes"]
      [] s[1] = "src" -> [nd EXCEPT !.src = Append(@, <<Join(path, s[2]), SubSeq(s, 3, Len(s))>>), !.code = TRUE]
      [] s[1] = "hdr" -> [nd EXCEPT !.src = Append(@, <<Join(path, s[2]), SubSeq(s, 3, Len(s))>>)]
      [] s[1] = "non" -> [nd EXCEPT !.non = Append(@, <<Join(path, s[2]), SubSeq(s, 3, Len(s))>>)]
      \* a precompiled header must be made from one of the source files
      [] s[1] = "pch" -> IF \E i \in 1..Len(nd.src) : \E j \in 1..Len(nd.src[i][2]) :
                               Join(nd.src[i][1], nd.src[i][2][j]) = Join(path, s[2])
                         THEN [nd EXCEPT !.pch = <<Join(path, s[2]), s[3]>>] ELSE nd

LeafOps == {"inc", "def", "flag", "lib", "dll", "fw", "type", "dlp", "code", "src", "hdr", "non", "pch"}

(* a mistake in a module function that ends the program (the first one counts) *)
Fatal(st, msg) == IF st.fatal = "" THEN [st EXCEPT !.fatal = msg] ELSE st

RECURSIVE Inst(_, _, _, _, _, _), Steps(_, _, _, _, _, _)
(* ctr: the shared container that what is reached belongs to. Result: [st, n], n = 0 when there *)
(* is nothing to depend on                                                                     *)
Inst(st, kind, id, shared, ctr, depth) ==
    IF NodeOf(st, kind, id) # {}
    THEN LET n == First(NodeOf(st, kind, id))
         IN IF ~Node(st, n).done
            THEN [st |-> Fatal(st, "Loop detected for " \o kind \o " '" \o ShortOf(kind, id) \o "'"), n |-> 0]
            ELSE [st |-> [st EXCEPT !.tree = Append(@, <<depth, "(" \o ShortOf(kind, id) \o ")">>)],
                  n |-> IF Node(st, n).ok THEN n ELSE 0]
    ELSE IF kind = "target"
    THEN LET n == Len(st.nodes) + 1
             c == IF shared THEN n ELSE ctr
             st1 == [st EXCEPT !.nodes = Append(@, [NewNode(kind, id) EXCEPT !.ctr = c]),
                               !.tree = Append(@, <<depth, ShortTarget(id)>>)]
             st2 == Steps(st1, n, targets[id].steps, 1, c, depth)
             nd == Node(st2, n)
             t1 == IF nd.type # "lib" THEN nd.type
                   ELSE IF shared THEN "dll"
                   ELSE IF c # 0 /\ nd.dlp # "" THEN "object" ELSE "lib"
             t2 == IF ~nd.code /\ t1 \in {"lib", "object"} THEN "header" ELSE t1
         IN [st |-> [st2 EXCEPT !.nodes[n] = [@ EXCEPT !.type = t2, !.done = TRUE]], n |-> n]
    ELSE LET n == Len(st.nodes) + 1
             mine == {i \in 1..Len(sel) : provs[sel[i]].ext = id}
             p == sel[First(mine)]
             none == [NewNode(kind, id) EXCEPT !.ok = FALSE]
             T(suffix) == Append(st.tree, <<depth, ShortExtern(id) \o suffix>>)
         IN IF mine = {}
            THEN [st |-> [st EXCEPT !.nodes = Append(@, none), !.unsel = Append(@, id), !.tree = T(" [unselected extern]")], n |-> 0]
            ELSE IF ~provs[p].inst
            THEN [st |-> [st EXCEPT !.nodes = Append(@, none), !.uninst = Append(@, p),
                                    !.tree = T(" [uninstalled extern => " \o ShortProvider(p) \o "]")], n |-> 0]
            ELSE [st |-> [st EXCEPT !.nodes = Append(@, LET F[i \in 0..Len(provs[p].steps)] ==
                                                              IF i = 0 THEN NewNode(kind, id) ELSE Step(F[i - 1], "", provs[p].steps[i])
                                                        IN F[Len(provs[p].steps)]),
                                    !.tree = T(" [extern => " \o ShortProvider(p) \o "]")], n |-> n]

Steps(st, n, steps, k, ctr, depth) ==
    IF k > Len(steps) THEN st
    ELSE LET s == steps[k]
             t == targets[Node(st, n).id]
         IN IF s[1] \in LeafOps
            THEN Steps([st EXCEPT !.nodes[n] = Step(@, t.path, s)], n, steps, k + 1, ctr, depth)
            ELSE LET u == IF s[1] = "dep" THEN UseTarget(t.repo, s[3]) ELSE UseExtern(t.repo, s[3])
                 IN IF u.id = 0
                    THEN Steps([st EXCEPT !.errs = Append(@, u.err)], n, steps, k + 1, ctr, depth)
                    ELSE LET r == Inst(st, IF s[1] = "dep" THEN "target" ELSE "extern", u.id, FALSE, ctr, depth + 1)
                             known == \E i \in 1..Len(Node(r.st, n).deps) : Node(r.st, n).deps[i][2] = r.n
                         IN Steps(IF r.n = 0 THEN r.st
                                  ELSE IF known
                                  THEN Fatal(r.st, (IF s[1] = "dep" THEN "target" ELSE "extern") \o " '" \o
                                                   ShortOf(IF s[1] = "dep" THEN "target" ELSE "extern", u.id) \o "' is already a dependency")
                                  ELSE [r.st EXCEPT !.nodes[n].deps = Append(@, <<s[2], r.n>>)],
                                  n, steps, k + 1, ctr, depth)

LinkName(st, n) == LET nd == Node(st, n) IN
    IF nd.type = "object" THEN "$<TARGET_OBJECTS:" \o targets[nd.id].name \o ">" ELSE targets[nd.id].name

(* what a list of calls makes of an empty list of dependencies: [deps, res] (was it new?) *)
AddDeps(calls) ==
    LET F[i \in 0..Len(calls)] ==
            IF i = 0 THEN [deps |-> <<>>, res |-> <<>>]
            ELSE LET d == F[i - 1].deps
                     at == {k \in 1..Len(d) : d[k][2] = calls[i][2]}
                 IN IF at = {} THEN [deps |-> Append(d, calls[i]), res |-> Append(F[i - 1].res, TRUE)]
                    ELSE [deps |-> IF calls[i][1] = "pub" THEN [d EXCEPT ![First(at)][1] = "pub"] ELSE d,
                          res |-> Append(F[i - 1].res, FALSE)]
    IN F[Len(calls)]

RECURSIVE Prop(_, _), PropDeps(_, _, _, _)
(* what one more dependency brings; bds: everything visible so far *)
PropDeps(st, n, k, bds) ==
    IF k > Len(Node(st, n).deps) THEN [st |-> st, bds |-> bds]
    ELSE LET vis == Node(st, n).deps[k][1]
             c == Node(st, n).deps[k][2]
             s1 == Prop(st, c)
             nd == Node(s1, n)
             ch == Node(s1, c)
             pub == vis = "pub"
             tgt == nd.kind = "target"
             same == ~(tgt /\ ch.kind = "target" /\ nd.ctr # ch.ctr)
             link == IF same
                     THEN Merge(Merge(nd.libs, ch.libs),
                                IF ch.kind = "target" /\ ch.type # "header" THEN <<LinkName(s1, c)>> ELSE <<>>)
                     ELSE Merge(nd.libs, <<targets[Node(s1, ch.ctr).id].name>>)
             e1 == IF tgt THEN Clashes(nd.pdef, ch.def) ELSE <<>>
             e2 == IF pub THEN Clashes(nd.def, ch.def) ELSE <<>>
             nd2 == [nd EXCEPT
                        !.vis = IF pub THEN Merge(@, ch.vis) ELSE @,
                        !.pinc = IF tgt THEN Merge(@, ch.inc) ELSE @,
                        !.pdef = IF tgt THEN MergeDefs(@, ch.def) ELSE @,
                        !.pflag = IF tgt THEN Merge(@, ch.flag) ELSE @,
                        !.inc = IF pub THEN Merge(@, ch.inc) ELSE @,
                        !.def = IF pub THEN MergeDefs(@, ch.def) ELSE @,
                        !.flag = IF pub THEN Merge(@, ch.flag) ELSE @,
                        !.libs = link,
                        !.dlls = IF same THEN Merge(@, ch.dlls) ELSE @,
                        !.fws = IF same THEN Merge(@, ch.fws) ELSE @]
         IN PropDeps([s1 EXCEPT !.nodes[n] = nd2, !.errs = @ \o e1 \o e2], n, k + 1, Merge(bds, ch.vis))

Prop(st, n) ==
    IF Node(st, n).prop THEN st
    ELSE LET r == PropDeps([st EXCEPT !.nodes[n].vis = <<n>>], n, 1, <<n>>)
             nd == Node(r.st, n)
             \* what belongs to a shared object is exported inside of it and imported elsewhere
             F[i \in 0..Len(r.bds)] ==
                 IF i = 0 THEN nd.pdef
                 ELSE LET b == Node(r.st, r.bds[i])
                      IN IF b.kind = "target" /\ b.ctr # 0 /\ b.dlp # ""
                         THEN SetDef(F[i - 1], b.dlp \o (IF b.ctr = nd.ctr THEN "_EXPORTING" ELSE "_IMPORTING"), "1")
                         ELSE F[i - 1]
         IN [r.st EXCEPT !.nodes[n] = [@ EXCEPT !.prop = TRUE, !.pdef = IF nd.kind = "target" THEN F[Len(r.bds)] ELSE @]]

RECURSIVE PropAll(_, _)
PropAll(st, n) == IF n > Len(st.nodes) THEN st
                  ELSE PropAll(IF Node(st, n).ok THEN Prop(st, n) ELSE st, n + 1)

---------------------------------------------------------------------------
(* The commands of CMakeLists.txt for a propagated project *)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Upper == [x \in Letters |-> CASE x = "a" -> "A" [] x = "b" -> "B" [] x = "c" -> "C" [] x = "d" -> "D" [] x = "e" -> "E"
    [] x = "f" -> "F" [] x = "g" -> "G" [] x = "h" -> "H" [] x = "i" -> "I" [] x = "j" -> "J" [] x = "k" -> "K" [] x = "l" -> "L"
    [] x = "m" -> "M" [] x = "n" -> "N" [] x = "o" -> "O" [] x = "p" -> "P" [] x = "q" -> "Q" [] x = "r" -> "R" [] x = "s" -> "S"
    [] x = "t" -> "T" [] x = "u" -> "U" [] x = "v" -> "V" [] x = "w" -> "W" [] x = "x" -> "X" [] x = "y" -> "Y" [] x = "z" -> "Z"
    [] OTHER -> x]
RECURSIVE UpperOf(_)
UpperOf(s) == IF s = "" THEN "" ELSE (IF At(s, 1) \in Letters THEN Upper[At(s, 1)] ELSE At(s, 1)) \o UpperOf(SubSeq(s, 2, Len(s)))

(* opt: [boot, srcf, bldf]: written for the bootstrap (paths under the two folders are relative to a variable) or not *)
Filter(opt, p) == IF ~opt.boot THEN p
                  ELSE IF StartsWith(p, opt.srcf) THEN "${SRC_FOLDER}" \o SubSeq(p, Len(opt.srcf) + 1, Len(p))
                  ELSE IF StartsWith(p, opt.bldf) THEN "${BUILD_FOLDER}" \o SubSeq(p, Len(opt.bldf) + 1, Len(p))
                  ELSE p
FilterAll(opt, s) == [i \in 1..Len(s) |-> Filter(opt, s[i])]
IsObj(s) == StartsWith(s, "$<TARGET_OBJECTS")

TargetCmds(opt, nd) ==
    LET name == targets[nd.id].name
        var == UpperOf(name) \o "_SOURCES"
        \* something that is linked needs a source file
        src == IF nd.code \/ nd.type \notin {"dll", "exe"} THEN nd.src
               ELSE Append(nd.src, <<opt.bldf \o "codegen/" \o name, <<"Null.cpp">>>>)
        links == nd.type \in {"dll", "exe"}
        uses == IF src = <<>> /\ nd.non = <<>> THEN <<>> ELSE <<"${" \o var \o "}">>
        objs == SelectSeq(Rev(nd.libs), IsObj)
        libs == SelectSeq(Rev(nd.libs), LAMBDA x : ~IsObj(x))
        fwv == [i \in 1..Len(nd.fws) |-> UpperOf(nd.fws[i]) \o "_FRAMEWORK"]
    IN [i \in 1..Len(src) |-> <<"SetSourceFolders", var, Filter(opt, src[i][1])>> \o FilterAll(opt, src[i][2])]
       \o [i \in 1..Len(nd.non) |-> <<"SetNonParticipatingFiles", var, Filter(opt, nd.non[i][1])>> \o FilterAll(opt, nd.non[i][2])]
       \o << (CASE nd.type = "header" -> <<"add_custom_target", name, "SOURCES">>
                [] nd.type = "lib" -> <<"add_library", name>>
                [] nd.type = "object" -> <<"add_library", name, "OBJECT">>
                [] nd.type = "dll" -> <<"add_library", name, "SHARED">>
                [] nd.type = "exe" -> <<"add_executable", name>>)
             \o uses \o (IF links THEN objs ELSE <<>>) >>
       \o (IF nd.type = "exe" THEN << <<"set_property", "TARGET", name, "PROPERTY", "ENABLE_EXPORTS", "TRUE">> >> ELSE <<>>)
       \o (IF nd.pch # <<>> /\ nd.pch[2] # "" THEN << <<"SetPrecompiledHeader", name, var, Filter(opt, nd.pch[1]), nd.pch[2], name \o ".$<CONFIG>.pch">> >> ELSE <<>>)
       \o (IF nd.type # "header"
           THEN << <<"EnableCppExceptions", name, IF Has(nd.pflag, "exceptions") THEN "TRUE" ELSE "FALSE">>,
                   <<"target_include_directories", name, "PRIVATE">> \o FilterAll(opt, Rev(nd.pinc)) >>
                \o (IF nd.pdef = <<>> THEN <<>>
                    ELSE << <<"target_compile_definitions", name, "PRIVATE">> \o
                            [i \in 1..Len(nd.pdef) |-> nd.pdef[i][1] \o "=" \o nd.pdef[i][2]] >>)
           ELSE <<>>)
       \o (IF links
           THEN [i \in 1..Len(nd.fws) |-> <<"find_library", fwv[i], nd.fws[i]>>]
                \o (IF nd.libs = <<>> /\ nd.fws = <<>> THEN <<>>
                    ELSE << <<"target_link_libraries", name, "PRIVATE">> \o
                            [i \in 1..Len(libs) |-> IF StartsWith(libs[i], "${") THEN libs[i] ELSE Filter(opt, libs[i])] \o
                            [i \in 1..Len(fwv) |-> "${" \o fwv[i] \o "}"] >>)
                \o (IF nd.dlls = <<>> THEN <<>> ELSE << <<"AddDLLCopyStep", name>> \o Rev(nd.dlls) >>)
                \o (IF opt.boot /\ name = "plytool"
                    THEN << <<"add_custom_command", "TARGET", "plytool", "POST_BUILD", "COMMAND", "${CMAKE_COMMAND}", "-E",
                              "copy_if_different", "$<TARGET_FILE:plytool>", "${WORKSPACE_FOLDER}">> >> ELSE <<>>)
           ELSE <<>>)

IsTarget(nd) == nd.kind = "target"
CMakeCmds(opt, sol, st) ==
    LET ts == SelectSeq(st.nodes, IsTarget)
    IN << <<"project", sol>> >> \o Flat([i \in 1..Len(ts) |-> TargetCmds(opt, ts[i])])

(* where the result of a build is found *)
OutputPath(type, name, folder, config) ==
    folder \o "build/" \o config \o "/" \o
    (CASE type = "exe" -> name [] type = "dll" -> "lib" \o name \o ".so" [] type = "lib" -> "lib" \o name \o ".a")

---------------------------------------------------------------------------
(* Actions *)
GInit == repos = <<>> /\ targets = <<>> /\ externs = <<>> /\ provs = <<>> /\ sel = <<>> /\ g = NoProject

AddRepo(n, kids) == /\ ~IsRepo(n)
                    /\ repos' = Append(repos, [name |-> n, kids |-> kids])
                    /\ UNCHANGED <<targets, externs, provs, sel, g>>
AddTarget(r, n, path, steps) ==
    /\ TargetsOf(r, n) = {}
    /\ targets' = Append(targets, [repo |-> r, name |-> n, path |-> path, steps |-> steps])
    /\ UNCHANGED <<repos, externs, provs, sel, g>>
(* a provider for an extern that is already known to repository r, or for a new one of its own *)
AddProvider(r, x, n, inst, steps) ==
    LET u == UseExtern(r, x)
        c == Comps(x)
        new == u.id = 0
    IN /\ externs' = IF new THEN Append(externs, [repo |-> r, name |-> c[Len(c)]]) ELSE externs
       /\ provs' = Append(provs, [repo |-> r, ext |-> IF new THEN Len(externs) + 1 ELSE u.id, name |-> n, inst |-> inst, steps |-> steps])
       /\ UNCHANGED <<repos, targets, sel, g>>
Select(i) == sel' = Append(sel, i) /\ UNCHANGED <<repos, targets, externs, provs, g>>
(* a root module; shared: it becomes a shared object that what it reaches belongs to *)
Root(i, shared) == g' = Inst(g, "target", i, shared, 0, 1).st /\ g'.fatal = "" /\ UNCHANGED <<repos, targets, externs, provs, sel>>
Propagate == g' = PropAll(g, 1) /\ UNCHANGED <<repos, targets, externs, provs, sel>>
=============================================================================
