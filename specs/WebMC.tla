------------------------------- MODULE WebMC -------------------------------
(* 1. Paths: whatever is written, nothing outside the folder is reached, and *)
(*    what Resolve says is where walking the folders leads.                  *)
(* 2. The server at work: two clients send streams of requests bit by bit,   *)
(*    may go away at any time; one thread per connection.                    *)
EXTENDS WebSpec

---------------------------------------------------------------------------
Names == {"", ".", "..", "a", "b"}
RECURSIVE JoinOf(_)
JoinOf(s) == IF Len(s) = 1 THEN B(s[1]) ELSE B(s[1]) \o <<47>> \o JoinOf(Tail(s))
Paths == UNION {[1..n -> Names] : n \in 1..5}
(* walking: the place is a list of folders from the root of the disk; the served folder is /r/s, and every folder exists *)
RECURSIVE WalkFrom(_, _, _)
WalkFrom(place, s, k) ==
    IF k > Len(s) THEN place
    ELSE IF s[k] \in {"", "."} THEN WalkFrom(place, s, k + 1)
    ELSE IF s[k] = ".." THEN WalkFrom(IF place = <<>> THEN <<>> ELSE SubSeq(place, 1, Len(place) - 1), s, k + 1)
    ELSE WalkFrom(Append(place, B(s[k])), s, k + 1)
Served == <<B("r"), B("s")>>
Inside(place) == Len(place) >= 2 /\ SubSeq(place, 1, 2) = Served
PathsAreSafe == \A s \in Paths :
    LET r == Resolve(JoinOf(s)) w == WalkFrom(Served, s, 1)
    IN /\ r.ok => w = Served \o r.path
       /\ ~Inside(w) => ~r.ok
       /\ (r.ok /\ ~r.slash /\ ~r.loose) => r.path # <<>>
ASSUME PathsAreSafe

(* percent encoding is one to one and plain *)
RECURSIVE Unesc(_)
HexVal(c) == IF c < 58 THEN c - 48 ELSE c - 55
Unesc(b) == IF b = <<>> THEN <<>>
            ELSE IF b[1] = 37 THEN <<(HexVal(b[2]) * 16) + HexVal(b[3])>> \o Unesc(From(b, 4))
            ELSE <<b[1]>> \o Unesc(Tail(b))
ASSUME \A c \in 0..255 : LET e == Escaped(<<c, 65, c>>) IN Unesc(e) = <<c, 65, c>> /\ \A i \in 1..Len(e) : e[i] \in Plain \cup {37}

(* expanded entries of a table of contents: exactly a path from the top to the page *)
Tocs == {<<[d |-> 1, title |-> <<>>, link |-> l1], [d |-> d2, title |-> <<>>, link |-> l2], [d |-> d3, title |-> <<>>, link |-> l3],
           [d |-> d4, title |-> <<>>, link |-> l4]>> :
           l1 \in {<<1>>, <<47>>}, l2 \in {<<1>>, <<47>>}, l3 \in {<<1>>, <<47>>}, l4 \in {<<1>>, <<47>>},
           d2 \in 1..2, d3 \in 1..3, d4 \in 1..4}
GoodToc(t) == \A k \in 2..Len(t) : t[k].d <= t[k - 1].d + 1
ASSUME \A t \in {x \in Tocs : GoodToc(x)} :
    LET r == TocRows(t, <<>>)
        on == {k \in 1..4 : r[k].down}
        h == Here(t, <<>>)
    IN /\ \A k \in on : r[k].caret /\ r[k].d <= r[h].d
       /\ \A j, k \in on : j # k => r[j].d # r[k].d
       /\ h = 0 => on = {}
       /\ h # 0 => r[h].sel /\ Cardinality({k \in 1..4 : r[k].sel}) = 1

---------------------------------------------------------------------------
(* The protocol. A stream is a sequence of requests: "keep" (answered, goes on), "last" (answered, then closed),  *)
(* "bad" (refused, then closed), "part" (the beginning of a request, never completed)                             *)
Conns == {1, 2}
Streams == {s \in UNION {[1..n -> {"keep", "last", "bad", "part"}] : n \in 0..2} : \A i \in 1..Len(s) : s[i] = "part" => i = Len(s)}
VARIABLES plan,  \* what the client will send
          sent,  \* how much of it is sent
          cl,    \* the client: "open", "done" (will send no more), "gone" (reads nothing any more)
          srv,   \* the thread: "wait", "closed"
          used,  \* how many requests it has taken
          out    \* answers: sequence of request numbers, 0 for a refusal
pvars == <<plan, sent, cl, srv, used, out>>
PInit == /\ plan \in [Conns -> Streams] /\ sent = [c \in Conns |-> 0] /\ cl = [c \in Conns |-> "open"]
         /\ srv = [c \in Conns |-> "wait"] /\ used = [c \in Conns |-> 0] /\ out = [c \in Conns |-> <<>>]
         /\ files = {} /\ disk = [kind |-> "none", nodes |-> <<>>] /\ toc = <<>>
Send(c) == cl[c] = "open" /\ sent[c] < Len(plan[c]) /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ UNCHANGED <<plan, cl, srv, used, out>>
Done(c) == cl[c] = "open" /\ sent[c] = Len(plan[c]) /\ cl' = [cl EXCEPT ![c] = "done"] /\ UNCHANGED <<plan, sent, srv, used, out>>
Leave(c) == cl[c] # "gone" /\ cl' = [cl EXCEPT ![c] = "gone"] /\ UNCHANGED <<plan, sent, srv, used, out>>
(* the thread of the connection *)
Take(c) == /\ srv[c] = "wait" /\ used[c] < sent[c]
           /\ LET q == plan[c][used[c] + 1]
              IN /\ q # "part"
                 /\ used' = [used EXCEPT ![c] = @ + 1]
                 /\ out' = [out EXCEPT ![c] = Append(@, IF q = "bad" THEN 0 ELSE used[c] + 1)]
                 /\ srv' = [srv EXCEPT ![c] = IF q = "keep" THEN "wait" ELSE "closed"]
           /\ UNCHANGED <<plan, sent, cl>>
AtEnd(c) == /\ srv[c] = "wait" /\ cl[c] # "open"
            /\ IF used[c] = sent[c] THEN TRUE ELSE plan[c][used[c] + 1] = "part"
            /\ out' = [out EXCEPT ![c] = IF used[c] < sent[c] THEN Append(@, 0) ELSE @]
            /\ srv' = [srv EXCEPT ![c] = "closed"] /\ UNCHANGED <<plan, sent, cl, used>>
PNext == \E c \in Conns : (Send(c) \/ Done(c) \/ Leave(c) \/ Take(c) \/ AtEnd(c)) /\ UNCHANGED wvars
Fair == \A c \in Conns : WF_<<pvars, wvars>>((Take(c) \/ AtEnd(c)) /\ UNCHANGED wvars) /\ WF_<<pvars, wvars>>((Send(c) \/ Done(c)) /\ UNCHANGED wvars)
PSpec == PInit /\ [][PNext]_<<pvars, wvars>> /\ Fair

InOrder == \A c \in Conns : \A i \in 1..Len(out[c]) : out[c][i] = i \/ (out[c][i] = 0 /\ i = Len(out[c]))
NoneAfterEnd == \A c \in Conns : \A i \in 1..used[c] : plan[c][i] \in {"last", "bad"} => (i = used[c] /\ srv[c] = "closed")
OnlyAsked == \A c \in Conns : Len(out[c]) <= sent[c]
(* one client cannot keep the server from another, nor from its own end *)
AllEnd == \A c \in Conns : <>(srv[c] = "closed")
Reaches == \A c \in Conns : []((IF used[c] < sent[c] /\ srv[c] = "wait" THEN plan[c][used[c] + 1] = "keep" ELSE FALSE) => <>(used[c] > 0))
=============================================================================
