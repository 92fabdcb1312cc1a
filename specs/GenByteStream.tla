--------------------------- MODULE GenByteStream ---------------------------
(* Programs over a buffered stream, chosen by TLC from the specification's *)
(* actions; amounts are aimed at the block boundaries around the cursor.   *)
EXTENDS ByteStream, TLC, Json, FiniteSets

CONSTANTS Depth, Block
VARIABLES hist
gvars == <<bvars, hist>>

Content(n) == [i \in 1..n |-> IF i % 29 = 0 THEN 10 ELSE (i * 37 + i \div 7) % 256]
Sizes == {0, 1, Block - 1, Block, Block + 1, 2 * Block, 2 * Block + 3, 3 * Block + 50}
Scheds == {<<>>, <<1>>, <<2, 3>>, <<Block>>, <<Block - 1>>, <<Block + 1>>, <<100, 1, 60>>}
ToEdge == Block - (pos % Block)
Amounts == {1, 2, 4, ToEdge, ToEdge + 1, Block, 2 * Block + 1} \cup (IF ToEdge > 1 THEN {ToEdge - 1} ELSE {})

Say(c) == hist' = Append(hist, c)
GInit == /\ \E n \in Sizes, s \in Scheds : /\ StreamInit(Content(n), FALSE)
                                           /\ hist = <<<<"reset", s, data>>>>
GNext ==
    /\ Len(hist) < Depth
    /\ \/ \E n \in Amounts : ~done /\ UNCHANGED <<data, pos, saves, isView, done>>
                             /\ eof' = (eof \/ n > Remaining) /\ Say(<<"try", n>>)
       \/ ReadByte(IF Remaining > 0 THEN data[pos + 1] ELSE 0, eof \/ Remaining = 0) /\ Say(<<"byte">>)
       \/ \E n \in Amounts : Read(n, n <= Remaining, Slice(pos, Min(n, Remaining)) \o Zeros(n - Min(n, Remaining)), eof \/ n > Remaining)
                             /\ Say(<<"read", n>>)
       \/ \E n \in Amounts : Skip(n, n <= Remaining, eof \/ n > Remaining) /\ Say(<<"skip", n>>)
       \/ ~done /\ SeekPos(pos, eof) /\ Say(<<"pos">>)
       \/ ~done /\ \E k \in {0, 1} : Save(k, eof) /\ Say(<<"save", k>>)
       \/ \E k \in {0, 1} : saves[k] >= 0 /\ ~done /\ Drop(k, eof) /\ Say(<<"drop", k>>)
       \/ \E k \in {0, 1} : ~done /\ Rewind(k, FALSE) /\ Say(<<"rewind", k>>)
       \/ \E k \in {0, 1} : ~done /\ Since(k, Slice(saves[k], pos - saves[k]), eof) /\ Say(<<"since", k>>)
       \/ LET n == LineLen(pos, 0) IN
          ~done /\ ReadLine(Slice(pos, n), eof \/ ~(n > 0 /\ data[pos + n] = 10)) /\ Say(<<"line">>)
       \/ ~done /\ \A k \in Slots : saves[k] = -1 /\ ReadRemaining(Slice(pos, Remaining), TRUE) /\ Say(<<"rest">>)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
