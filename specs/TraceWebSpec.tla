---------------------------- MODULE TraceWebSpec ----------------------------
(* What the real web server answered on real connections, against WebSpec    *)
EXTENDS WebSpec, TraceBase

TInit == files = {} /\ disk = [kind |-> "none", nodes |-> <<>>] /\ toc = <<>> /\ TraceStart

Reset == IsEvent("reset") /\ files' = {} /\ disk' = [kind |-> "none", nodes |-> <<>>] /\ toc' = <<>>
TFile == IsEvent("file") /\ files' = {f \in files : f.path # Ev.path} \cup {[path |-> Ev.path, data |-> Ev.data]}
         /\ UNCHANGED <<disk, toc>>
(* a client that is gone may have asked for a page before the change *)
Seen == toc' \in {toc, Loaded}
TToc == IsEvent("toc") /\ disk' = [kind |-> "toc", nodes |-> Ev.nodes] /\ Seen /\ UNCHANGED files
TBadToc == IsEvent("badtoc") /\ disk' = [kind |-> "bad", nodes |-> <<>>] /\ Seen /\ UNCHANGED files
TNoToc == IsEvent("notoc") /\ disk' = [kind |-> "none", nodes |-> <<>>] /\ Seen /\ UNCHANGED files
(* a new server starts with what is in the data folder *)
TRestart == IsEvent("init") /\ toc' = disk.nodes /\ UNCHANGED <<files, disk>>

Reason(code) == CASE code = 200 -> B("OK") [] code = 400 -> B("Bad Request") [] code = 404 -> B("Not Found") [] OTHER -> B("Internal Server Error")
SameToc(e, n) == /\ Len(e) = Len(n)
                 /\ \A i \in 1..Len(n) : /\ e[i].d = n[i].d /\ e[i].title = n[i].title /\ e[i].link = n[i].link
                                         /\ e[i].sel = n[i].sel /\ e[i].caret = n[i].caret /\ e[i].down = n[i].down
                                         /\ e[i].active = n[i].active
LongHeader(uri) == LET c == Split(uri, 47) IN IF Len(c) >= 6 THEN Num(c[6]) ELSE 0
Match(r, a, q) ==
    /\ r.ok /\ r.code = a.code /\ r.reason = Reason(a.code) /\ (r.te <=> q.ver = V11)
    /\ CASE a.kind = "generic" -> r.ctype = B("text/html") /\ r.len > 0
         [] a.kind = "bytes" -> r.ctype = B(a.ctype) /\ r.body = a.body /\ r.len = Len(a.body)
         [] a.kind = "pattern" -> r.ctype = B("text/plain") /\ r.pat /\ r.len = a.len /\ r.hdr = LongHeader(q.uri)
         [] a.kind = "rows" -> r.shape = "rows" /\ r.title = a.title /\ r.rows = a.rows /\ StartsWith(r.ctype, B("text/html"))
         [] a.kind = "page" -> r.shape = "page" /\ r.title = a.title /\ r.h1 = a.title /\ r.art = a.body /\ SameToc(r.toc, a.toc)
                               /\ StartsWith(r.ctype, B("text/html"))
         [] a.kind = "content" -> r.shape = "other" /\ r.title2 = a.title /\ r.h1 = a.title /\ r.art = a.body /\ StartsWith(r.ctype, B("text/html"))
         [] a.kind = "echo" -> r.shape = "echo" /\ StartsWith(r.ctype, B("text/html"))
         [] OTHER -> FALSE
BadRequest == [kind |-> "generic", code |-> 400]
Answered(reqs, resps, k, t) == \E a \in Answers(reqs[k].uri, t) : Match(resps[k], a, reqs[k])

TConn ==
    /\ IsEvent("conn") /\ Ev.addr /\ Ev.path
    /\ LET s == Stream(Ev.in, 1, <<>>)
           n == Len(s.reqs)
           broken == n > 0 /\ StartsWith(s.reqs[n].uri, B("/t/begin"))
           m == IF broken THEN n - 1 ELSE n
       IN /\ Ev.handled = s.reqs
          /\ IF s.cut THEN \A k \in 1..Len(Ev.resps) : k < n => Answered(s.reqs, Ev.resps, k, Loaded)
             ELSE /\ IF broken THEN Len(Ev.resps) \in {m, m + 1} ELSE Ev.rest = 0 /\ Len(Ev.resps) = n + (IF s.bad THEN 1 ELSE 0)
                  /\ \A k \in 1..m : Answered(s.reqs, Ev.resps, k, Loaded)
                  /\ s.bad => Match(Ev.resps[n + 1], BadRequest, [ver |-> <<>>, uri |-> <<>>])
          /\ toc' = (IF \E k \in 1..n : IsDoc(s.reqs[k].uri) THEN Loaded ELSE toc)
    /\ UNCHANGED <<files, disk>>
(* all that was asked so far has been answered while the connection is still open *)
TAnswered == IsEvent("answered") /\ LET s == Stream(Ev.in, 1, <<>>) IN Ev.n = Len(s.reqs) /\ UNCHANGED wvars
TDrop == IsEvent("drop") /\ UNCHANGED wvars
TUrl == IsEvent("urlesc") /\ Ev.got = Escaped(Ev.in) /\ UNCHANGED wvars
(* pages read while the table of contents changes show one version of it, and the last one in the end *)
TStorm == IsEvent("storm") /\ Ev.torn = 0 /\ disk' = [kind |-> "toc", nodes |-> Ev.nodes] /\ UNCHANGED <<files, toc>>

TNext == Reset \/ TFile \/ TToc \/ TBadToc \/ TNoToc \/ TRestart \/ TConn \/ TAnswered \/ TDrop \/ TUrl \/ TStorm
TSpec == TInit /\ [][TNext]_<<wvars, l>>
=============================================================================
