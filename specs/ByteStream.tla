----------------------------- MODULE ByteStream -----------------------------
(* What a buffered input stream means to its user: a cursor over a fixed    *)
(* sequence of bytes, whatever the size of the blocks it buffers in and     *)
(* whatever pieces the underlying pipe delivers. The cursor moves only by   *)
(* the operations below; saved positions can be returned to.                *)
EXTENDS Naturals, Integers, Sequences

VARIABLES data,   \* everything the source will ever deliver
          pos,    \* number of bytes consumed
          eof,    \* the end-of-stream flag the user can ask for
          saves,  \* slot -> position, or -1
          isView, \* reads straight from memory (no pipe)
          done    \* readRemainingContents was called

bvars == <<data, pos, eof, saves, isView, done>>

Slots == 0..3
Min(a, b) == IF a < b THEN a ELSE b
Remaining == Len(data) - pos
Slice(from, n) == SubSeq(data, from + 1, from + n)
Zeros(n) == [i \in 1..n |-> 0]

StreamInit(d, v) == /\ data = d /\ pos = 0 /\ eof = FALSE /\ isView = v
                    /\ saves = [k \in Slots |-> -1] /\ done = FALSE
StreamReset(d, v) == /\ data' = d /\ pos' = 0 /\ eof' = FALSE /\ isView' = v
                     /\ saves' = [k \in Slots |-> -1] /\ done' = FALSE

(* The flag is set by an attempt that finds nothing at all, and never by an *)
(* attempt that finds everything it asked for; a partial attempt may do     *)
(* either. Nothing but a rewind clears it.                                  *)
EofAfter(asked, e) ==
    /\ (asked > Remaining /\ Remaining = 0) => e
    /\ (asked <= Remaining) => (e = eof)
    /\ eof => e

(* Make n bytes available contiguously: r is what became available, av the  *)
(* whole window, win the window's first bytes.                              *)
TryMake(n, r, av, win, e) ==
    /\ av >= r /\ av <= Remaining
    /\ IF n <= Remaining THEN r >= n ELSE r = Remaining
    /\ Len(win) = Min(av, 300) /\ win = Slice(pos, Len(win))
    /\ EofAfter(n, e) /\ eof' = e
    /\ UNCHANGED <<data, pos, saves, isView, done>>

ReadByte(v, e) ==
    /\ v = IF Remaining > 0 THEN data[pos + 1] ELSE 0
    /\ pos' = Min(Len(data), pos + 1)
    /\ EofAfter(1, e) /\ eof' = e
    /\ UNCHANGED <<data, saves, isView, done>>

(* Fills the whole buffer, or delivers what is left followed by zeros.      *)
Read(n, ok, out, e) ==
    /\ ok = (n <= Remaining)
    /\ out = Slice(pos, Min(n, Remaining)) \o Zeros(n - Min(n, Remaining))
    /\ pos' = Min(Len(data), pos + n)
    /\ (n > Remaining) => e
    /\ (n <= Remaining) => (e = eof)
    /\ eof' = e
    /\ UNCHANGED <<data, saves, isView, done>>

Skip(n, ok, e) ==
    /\ ok = (n <= Remaining)
    /\ pos' = Min(Len(data), pos + n)
    /\ (n > Remaining) => e
    /\ (n <= Remaining) => (e = eof)
    /\ eof' = e
    /\ UNCHANGED <<data, saves, isView, done>>

(* Consume n bytes of the current window.                                   *)
Advance(n, out, e) ==
    /\ n <= Remaining /\ out = Slice(pos, n)
    /\ pos' = pos + n /\ e = eof
    /\ UNCHANGED <<data, eof, saves, isView, done>>

SeekPos(v, e) == v = pos /\ e = eof /\ UNCHANGED bvars

Save(k, e) == /\ saves' = [saves EXCEPT ![k] = pos] /\ e = eof
              /\ UNCHANGED <<data, pos, eof, isView, done>>
Drop(k, e) == /\ saves' = [saves EXCEPT ![k] = -1] /\ e = eof
              /\ UNCHANGED <<data, pos, eof, isView, done>>

(* Going back to a saved position makes everything after it readable again. *)
Rewind(k, e) == /\ saves[k] >= 0
                /\ pos' = saves[k]
                /\ (~isView => ~e) /\ (isView => e = eof) /\ eof' = e
                /\ done' = FALSE      \* also after the rest was taken
                /\ UNCHANGED <<data, saves, isView>>

(* The text between a saved position and the cursor, wherever block         *)
(* boundaries fall.                                                         *)
Since(k, out, e) == /\ saves[k] >= 0 /\ saves[k] <= pos
                    /\ out = Slice(saves[k], pos - saves[k]) /\ e = eof
                    /\ UNCHANGED bvars
(* After the rest was taken, a saved position still has all the text that   *)
(* follows it.                                                              *)
ToEnd(k, out, e) == /\ done /\ saves[k] >= 0 /\ e = eof
                    /\ out = Slice(saves[k], Len(data) - saves[k])
                    /\ UNCHANGED bvars
(* The same, giving up the saved position.                                  *)
SinceMove(k, out, e) == /\ saves[k] >= 0 /\ saves[k] <= pos
                        /\ out = Slice(saves[k], pos - saves[k]) /\ e = eof
                        /\ saves' = [saves EXCEPT ![k] = -1]
                        /\ UNCHANGED <<data, pos, eof, isView, done>>

RECURSIVE LineLen(_, _)
LineLen(p, n) == IF p + n >= Len(data) THEN n
                 ELSE IF data[p + n + 1] = 10 THEN n + 1 ELSE LineLen(p, n + 1)
(* A line up to and including its terminator, or the unterminated rest.     *)
ReadLine(out, e) ==
    LET n == LineLen(pos, 0)
        terminated == n > 0 /\ data[pos + n] = 10 IN
    /\ out = Slice(pos, n)
    /\ pos' = pos + n
    /\ terminated => (e = eof)
    /\ ~terminated => e
    /\ eof' = e
    /\ UNCHANGED <<data, saves, isView, done>>

MoveStream(e) == e = eof /\ UNCHANGED bvars

ReadRemaining(out, e) ==
    /\ out = Slice(pos, Remaining) /\ pos' = Len(data) /\ e /\ eof' = e
    /\ done' = TRUE
    /\ UNCHANGED <<data, saves, isView>>

(* The user's view of an arbitrary program over the stream.                 *)
CONSTANTS Datas, MaxAsk
BInit == \E d \in Datas, v \in BOOLEAN : StreamInit(d, v)
BNext ==
    \/ \E n \in 1..MaxAsk, r, av \in 0..MaxAsk + 2, e \in BOOLEAN :
          ~done /\ TryMake(n, r, av, Slice(pos, av), e)
    \/ \E e \in BOOLEAN : ReadByte(IF Remaining > 0 THEN data[pos + 1] ELSE 0, e)
    \/ \E n \in 1..MaxAsk, e \in BOOLEAN :
          Read(n, n <= Remaining, Slice(pos, Min(n, Remaining)) \o Zeros(n - Min(n, Remaining)), e)
    \/ \E n \in 1..MaxAsk, e \in BOOLEAN : Skip(n, n <= Remaining, e)
    \/ \E n \in 1..MaxAsk : n <= Remaining /\ Advance(n, Slice(pos, n), eof)
    \/ \E k \in {0} : Save(k, eof) \/ Drop(k, eof) \/ \E e \in BOOLEAN : Rewind(k, e)
    \/ \E e \in BOOLEAN : ReadLine(Slice(pos, LineLen(pos, 0)), e)
    \/ ~isView /\ ~done /\ ReadRemaining(Slice(pos, Remaining), TRUE)
BSpec == BInit /\ [][BNext]_bvars

InRange == pos \in 0..Len(data) /\ \A k \in Slots : saves[k] <= Len(data)
(* End of stream is only ever reported once everything was consumed or a    *)
(* request ran past the end, and a source that has ended stays ended.       *)
Monotone == [][(\A k \in Slots : pos' # saves[k] \/ pos' >= pos) => pos' >= pos]_bvars
=============================================================================
