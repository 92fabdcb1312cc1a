-------------------------- MODULE TraceReflectSpec --------------------------
EXTENDS ReflectSpec, TraceBase
VARIABLES types, saved, cur, node
vars == <<types, saved, cur, node, l>>
\* saved, cur: <<>> or <<[t |-> type, v |-> value]>>;  node: <<>> or <<pylon tree>>
TInit == TraceStart /\ types = <<>> /\ saved = <<>> /\ cur = <<>> /\ node = <<>>
One(t, v) == <<[t |-> t, v |-> v]>>
TNext ==
    \/ IsEvent("reset") /\ types' = <<>> /\ saved' = <<>> /\ cur' = <<>> /\ node' = <<>>
    \/ IsEvent("types") /\ types' = Ev.ty /\ UNCHANGED <<saved, cur, node>>
    \* an object made by the script, given as seen through the type
    \/ /\ IsEvent("make") /\ Fits(types, Ev.t, Ev.v)
       /\ cur' = One(Ev.t, Ev.v) /\ UNCHANGED <<types, saved, node>>
    \/ /\ IsEvent("fresh") /\ Seen(Def(types, Ev.t, FALSE), Ev.v)
       /\ cur' = One(Ev.t, Ev.v) /\ UNCHANGED <<types, saved, node>>
    \/ /\ IsEvent("save") /\ (Ev.ok <=> Savable(types, cur[1].t, cur[1].v))
       /\ saved' = IF Ev.ok THEN cur ELSE saved
       /\ UNCHANGED <<types, cur, node>>
    \/ /\ IsEvent("load") /\ saved # <<>>
       /\ Seen(Load(types, saved[1].t, saved[1].v, Ev.t, FALSE), Ev.v)
       /\ cur' = One(Ev.t, Ev.v) /\ UNCHANGED <<types, saved, node>>
    \* what follows the object in the stream is still there
    \/ /\ IsEvent("rest") /\ Ev.left = 0 /\ UNCHANGED <<types, saved, cur, node>>
    \/ /\ IsEvent("export") /\ Ev.node = Export(types, cur[1].t, cur[1].v)
       /\ node' = <<Ev.node>> /\ UNCHANGED <<types, saved, cur>>
    \/ /\ IsEvent("import") /\ node # <<>>
       /\ Seen(Import(types, Ev.t, Def(types, Ev.t, FALSE), node[1]), Ev.v)
       /\ cur' = One(Ev.t, Ev.v) /\ UNCHANGED <<types, saved, node>>
    \/ /\ IsEvent("patch") /\ Seen(Import(types, cur[1].t, cur[1].v, Ev.node), Ev.v)
       /\ cur' = One(cur[1].t, Ev.v) /\ UNCHANGED <<types, saved, node>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
