--------------------------- MODULE TraceBuildSpec ---------------------------
(* What the real build modules did with generated repositories, against      *)
(* BuildGraph.                                                               *)
EXTENDS BuildGraph, TraceBase

TInit == GInit /\ TraceStart

Reset == IsEvent("reset") /\ repos' = <<>> /\ targets' = <<>> /\ externs' = <<>> /\ provs' = <<>> /\ sel' = <<>> /\ g' = NoProject
TRepo == IsEvent("repo") /\ AddRepo(Ev.name, Ev.kids)
TTarget == IsEvent("target") /\ AddTarget(Ev.repo, Ev.name, Ev.path, Ev.steps)
TProvider == IsEvent("provider") /\ AddProvider(Ev.repo, Ev.ext, Ev.name, Ev.inst, Ev.steps)
             /\ Ev.got = provs'[Len(provs')].ext

(* the answer is one of those allowed, and a message comes with a failure only *)
Answers(a) == \E x \in a : Ev.got = x.id /\ Ev.errs = (IF x.id = 0 THEN <<x.err>> ELSE <<>>)
Look(kind, s) == CASE kind = "target" -> LookTarget(s) [] kind = "extern" -> LookExtern(s) [] kind = "provider" -> LookProvider(s)
TLook == IsEvent("look") /\ Answers(Look(Ev.kind, Ev.name)) /\ UNCHANGED vars
TSelect == /\ IsEvent("select") /\ Answers(LookProvider(Ev.name))
           /\ IF Ev.got = 0 THEN UNCHANGED vars ELSE Select(Ev.got)
(* every entity has a short and a full name, and both lead back to it *)
TNames == /\ IsEvent("names") /\ Ev.errs = <<>> /\ UNCHANGED vars
          /\ Len(Ev.all) = Len(targets) + Len(externs) + Len(provs)
          /\ \A i \in 1..Len(Ev.all) :
               LET x == Ev.all[i]
               IN /\ x.bs = x.id /\ x.bf = x.id
                  /\ x.short = (CASE x.kind = "target" -> ShortTarget(x.id) [] x.kind = "extern" -> ShortExtern(x.id) [] x.kind = "provider" -> ShortProvider(x.id))
                  /\ x.full = (CASE x.kind = "target" -> FullTarget(x.id) [] x.kind = "extern" -> FullExtern(x.id) [] x.kind = "provider" -> FullProvider(x.id))

NewErrs == SubSeq(g'.errs, Len(g.errs) + 1, Len(g'.errs))
TRoot == /\ IsEvent("root") /\ Root(Ev.id, Ev.shared)
         /\ Ev.got = First(NodeOf(g', "target", Ev.id)) /\ Ev.errs = NewErrs
TDie == /\ IsEvent("die") /\ UNCHANGED vars
        /\ LET r == Inst(g, "target", Ev.id, Ev.shared, 0, 1).st
           IN IF r.fatal = "" THEN ~Ev.died ELSE Ev.died /\ Ev.text = r.fatal
TPropagate == IsEvent("propagate") /\ Propagate /\ Ev.errs = NewErrs

SameNode(e, nd) ==
    /\ e.kind = nd.kind /\ e.id = nd.id /\ e.ok = nd.ok
    /\ nd.ok => /\ e.deps = nd.deps /\ e.vis = nd.vis
                /\ e.inc = nd.inc /\ e.def = nd.def /\ e.flag = nd.flag
                /\ e.libs = nd.libs /\ e.dlls = nd.dlls /\ e.fws = nd.fws
    /\ nd.ok /\ nd.kind = "target" =>
         /\ e.type = nd.type /\ e.ctr = nd.ctr /\ e.name = targets[nd.id].name
         /\ e.pinc = nd.pinc /\ e.pdef = nd.pdef /\ e.pflag = nd.pflag
TState == /\ IsEvent("state") /\ UNCHANGED vars
          /\ Len(Ev.nodes) = Len(g.nodes)
          /\ \A i \in 1..Len(g.nodes) : SameNode(Ev.nodes[i], g.nodes[i])
          /\ Ev.unsel = g.unsel /\ Ev.uninst = g.uninst /\ Ev.tree = g.tree

TCMake == /\ IsEvent("cmake") /\ UNCHANGED vars
          /\ Ev.cmds = CMakeCmds([boot |-> Ev.boot, srcf |-> Ev.srcf, bldf |-> Ev.bldf], Ev.sol, g)
          /\ {targets[nd.id].name : nd \in {x \in Range(g.nodes) : x.kind = "target" /\ x.type \in {"dll", "exe"} /\ ~x.code}} \subseteq Range(Ev.null)
TAddDep == IsEvent("adddep") /\ UNCHANGED vars /\ AddDeps(Ev.in) = [deps |-> Ev.deps, res |-> Ev.res]
TOutpath == IsEvent("outpath") /\ UNCHANGED vars /\ Ev.path = OutputPath(Ev.type, Ev.name, Ev.folder, Ev.config)

(* the files of a source folder: what is compiled (and headers), and what is only shown *)
RECURSIVE LastOf(_, _)
LastOf(s, ch) == IF s = "" \/ At(s, Len(s)) = ch THEN Len(s) ELSE LastOf(SubSeq(s, 1, Len(s) - 1), ch)
BaseName(p) == SubSeq(p, LastOf(p, "/") + 1, Len(p))
Ext(p) == LET b == BaseName(p) k == LastOf(b, ".") IN IF k <= 1 THEN "" ELSE SubSeq(b, k, Len(b))
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Lower(s) == CASE s \in {".C", ".c"} -> ".c" [] s \in {".CPP", ".Cpp", ".cpp"} -> ".cpp" [] s \in {".H", ".h"} -> ".h"
              [] s \in {".natvis", ".NatVis"} -> ".natvis" [] OTHER -> s
NonPart(p) == EndsWith(BaseName(p), ".modules.cpp") \/ Lower(Ext(p)) = ".natvis"
IsSource(p) == ~NonPart(p) /\ Lower(Ext(p)) \in {".c", ".cpp"}
IsHeader(p) == ~NonPart(p) /\ Lower(Ext(p)) = ".h"
Sorted(s) == LET Ord == "!-./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
                 Key(c) == CHOOSE i \in 1..Len(Ord) : At(Ord, i) = c
                 Less(a, b) == \E k \in 1..Len(b) : /\ k > Len(a) \/ Key(At(a, k)) < Key(At(b, k))
                                                    /\ k - 1 <= Len(a) /\ SubSeq(a, 1, k - 1) = SubSeq(b, 1, k - 1)
             IN \A i \in 1..Len(s) - 1 : Less(s[i], s[i + 1])
TSources == /\ IsEvent("sources") /\ UNCHANGED vars
            /\ LET all == {p \in Range(Ev.in) : Ev.rec \/ LastOf(p, "/") = 0}
               IN /\ Range(Ev.src) = {p \in all : IsSource(p) \/ IsHeader(p)}
                  /\ Range(Ev.non) = {p \in all : NonPart(p)}
                  /\ Sorted(Ev.src) /\ Sorted(Ev.non)
                  /\ Ev.any = \E p \in all : IsSource(p)

TNext == Reset \/ TRepo \/ TTarget \/ TProvider \/ TLook \/ TSelect \/ TNames \/ TRoot \/ TDie \/ TPropagate \/ TState
         \/ TCMake \/ TOutpath \/ TAddDep \/ TSources
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
