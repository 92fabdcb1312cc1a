------------------------- MODULE TraceMarkdownSpec -------------------------
(* Recorded conversions of markdown texts.                                  *)
EXTENDS TraceBase, MarkdownSpec

Reset == IsEvent("reset")
Shown ==
    /\ Tree(Ev.tree)
    /\ Ev.html = Html(Ev.tree, FALSE, 0, 0)
    /\ Ev.ids = Html(Ev.tree, FALSE, 1, 0)
    /\ Ev.anchors = Html(Ev.tree, FALSE, 2, 0)
\* a document that was written down is read back
Doc ==
    /\ IsEvent("doc")
    /\ Ev.text = Written(Ev.d)
    /\ Tidy(Ev.tree) = MeanDoc(Ev.d)
    /\ Shown
\* any other text
Other ==
    /\ IsEvent("any")
    /\ Letters(Ev.text) = LettersOf(Ev.tree)
    /\ Shown

TInit == TraceStart
TNext == Reset \/ Doc \/ Other
TSpec == TInit /\ [][TNext]_l
=============================================================================
