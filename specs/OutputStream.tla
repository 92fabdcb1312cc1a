---------------------------- MODULE OutputStream ----------------------------
(* What buffered output means to its user: bytes are accepted in program    *)
(* order and delivered to the destination in that order, each exactly once, *)
(* all of them by the next flush or by the destruction of the stream. When  *)
(* the destination fails, what it received is a prefix of what was written, *)
(* the failure is reported, and nothing further is sent.                    *)
EXTENDS Naturals, Integers, Sequences

VARIABLES kind,   \* "pipe", "file" (a pipe to a descriptor), "mem", "view"
          cap,    \* view: its size. pipe: number of bytes it accepts, -1 = all
          acc,    \* pipe/file: accepted but not yet delivered; mem/view: all accepted
          nacc,   \* number of bytes accepted in all
          sent,   \* number of bytes delivered
          eof,    \* failure or end of view reported
          owned, flushok, open

ovars == <<kind, cap, acc, nacc, sent, eof, owned, flushok, open>>
Min(a, b) == IF a < b THEN a ELSE b
IsPipe == kind \in {"pipe", "file"}

OutInit == /\ kind = "mem" /\ cap = -1 /\ acc = <<>> /\ nacc = 0 /\ sent = 0 /\ eof = FALSE
           /\ owned = FALSE /\ flushok = TRUE /\ open = FALSE
OutReset(k, c, o, f) ==
    /\ kind' = k /\ cap' = c /\ acc' = <<>> /\ nacc' = 0 /\ sent' = 0 /\ eof' = FALSE
    /\ owned' = o /\ flushok' = f /\ open' = TRUE

(* The destination receives the bytes d and signals pf failures, out of the *)
(* pending bytes p.                                                         *)
Deliver(p, d, pf) ==
    /\ Len(d) <= Len(p) /\ d = SubSeq(p, 1, Len(d))
    /\ sent' = sent + Len(d)
    /\ IF eof THEN d = <<>> /\ pf = 0 ELSE pf \in {0, 1}
    /\ (kind # "pipe") => pf = 0
    /\ (cap >= 0 /\ IsPipe) => sent' <= cap
    /\ pf = 1 => /\ cap >= 0 /\ sent' = cap
    \* bytes accepted before the failure was noticed are lost with it
    /\ acc' = IF eof \/ pf = 1 THEN <<>> ELSE SubSeq(p, Len(d) + 1, Len(p))

Keep == UNCHANGED <<kind, cap, owned, flushok, open>>

(* Append b. *)
Write(b, ok, d, pf, e) ==
    /\ open
    /\ IF IsPipe THEN
          /\ Deliver(acc \o b, d, pf)
          /\ e = (eof \/ pf = 1)
          /\ ok = ~e
          /\ nacc' = nacc + Len(b)
       ELSE LET n == IF kind = "view" THEN Min(Len(b), cap - nacc) ELSE Len(b) IN
          /\ d = <<>> /\ pf = 0 /\ sent' = 0
          /\ \E k \in (IF eof THEN {0, n} ELSE {n}) :
                acc' = acc \o SubSeq(b, 1, k) /\ nacc' = nacc + k
          /\ (n < Len(b)) => ~ok
          /\ (n = Len(b) /\ ~eof) => ok
          /\ e = (eof \/ n < Len(b))
    /\ eof' = e
    /\ Keep

(* Ask for n contiguous writable bytes (must: even if the destination has   *)
(* failed), then use the first Len(b) of them.                              *)
Reserve(n, must, r, av, b, d, pf, e) ==
    /\ open
    /\ Len(b) <= r
    /\ IF IsPipe THEN
          /\ \E k \in {Len(d)} : Deliver(acc \o b, d, pf) /\ k <= Len(acc) \* b itself cannot be out yet
          /\ e = (eof \/ pf = 1)
          /\ (~e \/ must) => r >= n
          /\ ~must /\ pf = 1 => r < n
          /\ nacc' = nacc + Len(b)
       ELSE
          /\ d = <<>> /\ pf = 0 /\ sent' = 0 /\ acc' = acc \o b /\ nacc' = nacc + Len(b)
          /\ IF kind = "view" THEN r <= cap - nacc /\ (IF n <= cap - nacc THEN r >= n /\ e = eof ELSE r = cap - nacc /\ e)
                              ELSE r >= n /\ ~e
    /\ av >= r
    /\ eof' = e
    /\ Keep

(* After a flush the destination has everything, and was flushed itself.    *)
Flush(dev, ok, fl, dfl, d, pf, e) ==
    /\ open
    /\ IF IsPipe THEN /\ Deliver(acc, d, pf)
                      /\ e = (eof \/ pf = 1)
                      /\ ~e => acc' = <<>>
                      /\ (kind = "pipe") => (ok = flushok /\ fl >= 1 /\ (dev <=> dfl >= 1))
                 ELSE d = <<>> /\ pf = 0 /\ e = eof /\ ok /\ UNCHANGED <<acc, sent>>
    /\ eof' = e
    /\ UNCHANGED nacc /\ Keep

SeekPos(v, d, pf, e) ==
    /\ open /\ d = <<>> /\ pf = 0 /\ e = eof
    /\ ~(IsPipe /\ eof) => v = nacc
    /\ UNCHANGED ovars

(* The stream's contents change owner; the source becomes a null stream.    *)
Move(dead, d, pf, e) == /\ open /\ dead /\ d = <<>> /\ pf = 0 /\ e = eof /\ UNCHANGED ovars

Contents(v, d, pf, e) == /\ open /\ v = acc /\ d = <<>> /\ pf = 0 /\ e = eof /\ UNCHANGED ovars

MoveToString(v, dead) == /\ open /\ kind = "mem" /\ v = acc /\ dead
                         /\ open' = FALSE /\ UNCHANGED <<kind, cap, acc, nacc, sent, eof, owned, flushok>>

(* Destruction flushes; an owned destination is destroyed, a borrowed one   *)
(* is not.                                                                  *)
Close(destroyed, d, pf) ==
    /\ open
    /\ IF IsPipe THEN /\ Deliver(acc, d, pf)
                      /\ (~eof /\ pf = 0) => acc' = <<>>
                      /\ destroyed = owned
                 ELSE d = <<>> /\ pf = 0 /\ ~destroyed /\ UNCHANGED <<acc, sent>>
    /\ open' = FALSE
    /\ UNCHANGED <<kind, cap, nacc, eof, owned, flushok>>

(* An arbitrary program, for exhaustive checking of the specification.      *)
CONSTANTS MaxBytes
OInit == \E k \in {"pipe", "mem", "view"}, c \in {-1, 0, 2, 3} :
            /\ (k = "view" => c >= 0) /\ (k = "mem" => c = -1)
            /\ kind = k /\ cap = c /\ acc = <<>> /\ nacc = 0 /\ sent = 0 /\ eof = FALSE
            /\ owned \in BOOLEAN /\ flushok = TRUE /\ open = TRUE
Pieces == {<<>>, <<1>>, <<2, 3>>}
Outs(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}
ONext ==
    \/ /\ nacc + Len(acc) < MaxBytes
       /\ \E b \in Pieces, ok, e \in BOOLEAN, pf \in 0..1 :
            \E d \in Outs(acc \o b) : Write(b, ok, d, pf, e)
    \/ /\ nacc + Len(acc) < MaxBytes
       /\ \E b \in Pieces, n \in 1..2, must, e \in BOOLEAN, pf \in 0..1, r \in 0..2 :
            \E d \in Outs(acc) : Reserve(n, must, r, r, b, d, pf, e)
    \/ \E e \in BOOLEAN, pf \in 0..1 : \E d \in Outs(acc) : Flush(FALSE, TRUE, 1, 0, d, pf, e)
    \/ \E pf \in 0..1 : \E d \in Outs(acc) : Close(owned /\ IsPipe, d, pf)
    \/ Move(TRUE, <<>>, 0, eof)
    \/ MoveToString(acc, TRUE)
OSpec == OInit /\ [][ONext]_ovars

NoLoss == (IsPipe /\ ~eof /\ open) => sent + Len(acc) = nacc
Bounded == /\ (cap >= 0 /\ kind = "view") => nacc <= cap
           /\ sent <= nacc
ClosedDelivered == (~open /\ IsPipe /\ acc # <<>>) => eof
Sticky == [][eof => eof']_ovars
=============================================================================
