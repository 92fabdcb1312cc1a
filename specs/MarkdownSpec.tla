--------------------------- MODULE MarkdownSpec ---------------------------
(* Markdown documents: how a document is written down (Written), the tree it   *)
(* stands for (Mean), what any tree looks like (Tree), and its HTML (Html).  *)
(*                                                                           *)
(* Blocks, with the choices made in writing them (bl: blank lines before):   *)
(*  [k:"p", bl, ind, cont, tr, c]   paragraph: first and further indentation *)
(*  [k:"h", bl, ind, n, tr, c]      heading                                  *)
(*  [k:"pre", bl, tab, ls]          code block: its lines                    *)
(*  [k:"q", bl, ind, st, b]         quotation: marker, blocks                *)
(*  [k:"l", bl, n, u, lo, it]       list: start or -1, punctuation, loose    *)
(*      items: [bl, in, sp, b]      indentation, spaces after the marker     *)
(* Inline elements:                                                          *)
(*  [k:"t", s]  [k:"em"/"st", m, c]  [k:"cs", n, pad, ls]  [k:"a", c, d]     *)
(*  [k:"br"]        d: the destination, a sequence of characters             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN "" ELSE s \o Times(s, n - 1)
RECURSIVE Join(_, _)
Join(ls, sep) == IF ls = <<>> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o sep \o Join(Tail(ls), sep)
Decimal(n) == ToString(n)

\* ---- writing inline elements: a sequence of lines ----
Glue(a, b) == SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o b[1]>> \o Tail(b)
Ends(x) == x \in {"(", ")", "\\"}
RECURSIVE Dest(_)
Dest(d) == IF d = <<>> THEN "" ELSE (IF Ends(d[1]) THEN "\\" \o d[1] ELSE d[1]) \o Dest(Tail(d))
RECURSIVE Inlines(_)
Inline(x) ==
    CASE x.k = "t" -> <<x.s>>
      [] x.k = "br" -> <<"", "">>
      [] x.k \in {"em", "st"} ->
            LET m == IF x.k = "em" THEN x.m ELSE x.m \o x.m IN Glue(Glue(<<m>>, Inlines(x.c)), <<m>>)
      [] x.k = "cs" ->
            LET m == Times("`", x.n) \o (IF x.pad THEN " " ELSE "")
                e == (IF x.pad THEN " " ELSE "") \o Times("`", x.n)
            IN Glue(Glue(<<m>>, x.ls), <<e>>)
      [] x.k = "a" -> Glue(Glue(<<"[">>, Inlines(x.c)), <<"](" \o Dest(x.d) \o ")">>)
Inlines(s) == IF s = <<>> THEN <<"">> ELSE Glue(Inline(s[1]), Inlines(Tail(s)))

\* ---- writing blocks: a sequence of lines ----
Blank(n) == [i \in 1..n |-> ""]
Marker(l, i) == IF l.n < 0 THEN l.u ELSE Decimal(l.n + i - 1) \o l.u
Indented(ls, first, rest) ==
    [i \in DOMAIN ls |-> IF i = 1 THEN first \o ls[1] ELSE IF ls[i] = "" THEN "" ELSE rest \o ls[i]]
RECURSIVE Blocks(_)
RECURSIVE Items(_, _)
Block(x) ==
    CASE x.k = "p" ->
            LET ls == Inlines(x.c) IN
            [i \in DOMAIN ls |-> Times(" ", IF i = 1 THEN x.ind ELSE x.cont) \o ls[i] \o Times(" ", x.tr)]
      [] x.k = "h" -> <<Times(" ", x.ind) \o Times("#", x.n) \o (IF x.c = <<>> THEN "" ELSE " ") \o Inlines(x.c)[1] \o Times(" ", x.tr)>>
      [] x.k = "pre" -> [i \in DOMAIN x.ls |-> IF x.ls[i] = "" THEN "" ELSE (IF x.tab THEN "\t" ELSE "    ") \o x.ls[i]]
      [] x.k = "q" ->
            LET ls == Blocks(x.b) IN
            [i \in DOMAIN ls |-> Times(" ", x.ind) \o (IF ls[i] = "" THEN ">" ELSE x.st \o ls[i])]
      [] x.k = "l" -> Items(x, 1)
Blocks(s) == IF s = <<>> THEN <<>> ELSE Blank(s[1].bl) \o Block(s[1]) \o Blocks(Tail(s))
Items(l, i) ==
    IF i > Len(l.it) THEN <<>>
    ELSE LET it == l.it[i]
             m == Times(" ", it.in) \o Marker(l, i) \o Times(" ", it.sp)
         IN Blank(it.bl) \o Indented(IF it.b = <<>> THEN <<"">> ELSE Blocks(it.b), m, Times(" ", Len(m))) \o Items(l, i + 1)
\* a document: [b: blocks, nl: end of line, fin: whether the last line has one, tabs: four
\* spaces at the start of a line, or after other such, are a tab]
RECURSIVE Tabbed(_)
Tabbed(s) == IF Len(s) > 4 /\ SubSeq(s, 1, 4) = "    " THEN "\t" \o Tabbed(SubSeq(s, 5, Len(s))) ELSE s
Written(d) ==
    LET ls == Blocks(d.b)
        t == Join(IF d.tabs THEN [i \in DOMAIN ls |-> Tabbed(ls[i])] ELSE ls, d.nl)
    IN IF d.fin THEN t \o d.nl ELSE t

\* ---- what it stands for ----
Txt(s) == [k |-> "t", s |-> s]
RECURSIVE Merged(_)
Merged(s) ==
    IF Len(s) < 2 THEN s
    ELSE LET r == Merged(Tail(s)) IN
         IF s[1].k = "t" /\ r[1].k = "t" THEN <<Txt(s[1].s \o r[1].s)>> \o Tail(r) ELSE <<s[1]>> \o r
RECURSIVE Spans(_)
Span(x) ==
    CASE x.k = "t" -> Txt(x.s)
      [] x.k = "br" -> [k |-> "br"]
      [] x.k \in {"em", "st"} -> [k |-> x.k, c |-> Spans(x.c)]
      [] x.k = "cs" -> [k |-> "cs", s |-> Join(x.ls, " ")]
      [] x.k = "a" -> [k |-> "a", s |-> Join(x.d, ""), c |-> Spans(x.c)]
Spans(s) == Merged([i \in DOMAIN s |-> Span(s[i])])
RECURSIVE Mean(_)
MeanAll(s) == [i \in DOMAIN s |-> Mean(s[i])]
Mean(x) ==
    CASE x.k = "p" -> [k |-> "p", c |-> Spans(x.c)]
      [] x.k = "h" -> [k |-> "h", n |-> x.n, c |-> Spans(x.c)]
      [] x.k = "pre" -> [k |-> "pre", s |-> Join(x.ls, "\n") \o "\n"]
      [] x.k = "q" -> [k |-> "q", c |-> MeanAll(x.b)]
      [] x.k = "l" -> [k |-> "l", n |-> x.n, lo |-> x.lo, c |-> [i \in DOMAIN x.it |-> [k |-> "i", c |-> MeanAll(x.it[i].b)]]]
MeanDoc(d) == [k |-> "doc", c |-> MeanAll(d.b)]

\* adjacent texts of an observed tree are one text
RECURSIVE Tidy(_)
Tidy(t) == IF "c" \in DOMAIN t THEN [t EXCEPT !.c = Merged([i \in DOMAIN t.c |-> Tidy(t.c[i])])] ELSE t

\* ---- which trees there are ----
BlockKinds == {"p", "h", "pre", "q", "l"}
InlineKinds == {"t", "br", "em", "st", "cs", "a"}
Kids(t, S) == \A i \in DOMAIN t.c : t.c[i].k \in S
RECURSIVE Tree(_)
Tree(t) ==
    /\ CASE t.k \in {"doc", "q", "i"} -> Kids(t, BlockKinds)
         [] t.k = "l" -> t.n >= -1 /\ t.c # <<>> /\ Kids(t, {"i"})
         [] t.k = "p" -> t.c # <<>> /\ Kids(t, InlineKinds)
         [] t.k = "h" -> t.n \in 1..6 /\ Kids(t, InlineKinds)
         [] t.k \in {"em", "st"} -> t.c # <<>> /\ Kids(t, InlineKinds)
         [] t.k = "a" -> Kids(t, InlineKinds)
         [] t.k \in {"t", "cs"} -> t.s # ""
         [] t.k \in {"pre", "br"} -> TRUE
         [] OTHER -> FALSE
    /\ "c" \in DOMAIN t => \A i \in DOMAIN t.c : Tree(t.c[i])

\* nothing that is not a mark of the syntax gets lost, or moves: the letters of a text
Letter == {"a", "b", "c", "d", "e", "f", "x", "y", "z"}
Letters(s) == FoldLeftDomain(LAMBDA r, i : IF Ch(s, i) \in Letter THEN r \o Ch(s, i) ELSE r, "", [i \in 1..Len(s) |-> i])
RECURSIVE LettersOf(_)
LettersAll(s) == FoldLeft(LAMBDA r, x : r \o LettersOf(x), "", s)
LettersOf(t) ==
    CASE t.k \in {"t", "cs", "pre"} -> Letters(t.s)
      [] t.k = "br" -> ""
      [] t.k = "a" -> LettersAll(t.c) \o Letters(t.s)
      [] OTHER -> LettersAll(t.c)

\* ---- HTML ----
EscChar(c) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "\"" -> "&quot;" [] OTHER -> c
Esc(s) == FoldLeftDomain(LAMBDA r, i : r \o EscChar(Ch(s, i)), "", [i \in 1..Len(s) |-> i])
Tag(n, s) == "<" \o n \o ">" \o s \o "</" \o n \o ">"
\* tight: inside an item of a tight list;  id: 0 none, 1 attribute, 2 anchor;  h: the headings before
RECURSIVE Headings(_)
Headings(t) == (IF t.k = "h" THEN 1 ELSE 0) +
               (IF "c" \in DOMAIN t THEN FoldLeft(LAMBDA r, x : r + Headings(x), 0, t.c) ELSE 0)
RECURSIVE Html(_, _, _, _)
HtmlAll(s, tight, id, h) ==
    FoldLeftDomain(LAMBDA r, i : r \o Html(s[i], tight, id, h + FoldLeft(LAMBDA q, x : q + Headings(x), 0, SubSeq(s, 1, i - 1))), "", s)
Html(t, tight, id, h) ==
    CASE t.k = "t" -> Esc(t.s)
      [] t.k = "br" -> "\n"
      [] t.k = "cs" -> Tag("code", Esc(t.s))
      [] t.k = "em" -> Tag("em", HtmlAll(t.c, FALSE, id, h))
      [] t.k = "st" -> Tag("strong", HtmlAll(t.c, FALSE, id, h))
      [] t.k = "a" -> "<a href=\"" \o Esc(t.s) \o "\">" \o HtmlAll(t.c, FALSE, id, h) \o "</a>"
      [] t.k = "p" -> IF tight THEN HtmlAll(t.c, FALSE, id, h) ELSE Tag("p", HtmlAll(t.c, FALSE, id, h)) \o "\n"
      [] t.k = "h" ->
            LET n == "h" \o Decimal(t.n)
                name == "id&lt;" \o Decimal(h) \o "&gt;"
            IN "<" \o n \o (CASE id = 0 -> ">"
                              [] id = 1 -> " id=\"" \o name \o "\">"
                              [] id = 2 -> " class=\"anchored\"><span class=\"anchor\" id=\"" \o name \o "\">&nbsp;</span>")
               \o HtmlAll(t.c, FALSE, id, h) \o "</" \o n \o ">\n"
      [] t.k = "pre" -> "<pre><code>" \o Esc(t.s) \o "</code></pre>\n"
      [] t.k = "q" -> "<blockquote>\n" \o HtmlAll(t.c, FALSE, id, h) \o "</blockquote>\n"
      [] t.k = "l" ->
            LET n == IF t.n < 0 THEN "ul" ELSE "ol" IN
            "<" \o n \o (IF t.n >= 0 /\ t.n # 1 THEN " start=\"" \o Decimal(t.n) \o "\"" ELSE "") \o ">\n"
            \o HtmlAll(t.c, ~t.lo, id, h) \o "</" \o n \o ">\n"
      [] t.k = "i" ->
            \* a paragraph of a tight list has no tags, and ends with the line if more follows
            LET part(i) ==
                    Html(t.c[i], tight, id, h + FoldLeft(LAMBDA q, x : q + Headings(x), 0, SubSeq(t.c, 1, i - 1)))
                    \o (IF tight /\ t.c[i].k = "p" /\ i < Len(t.c) THEN "\n" ELSE "")
            IN "<li>" \o (IF t.c = <<>> \/ (tight /\ t.c[1].k = "p") THEN "" ELSE "\n")
               \o FoldLeftDomain(LAMBDA r, i : r \o part(i), "", t.c) \o "</li>\n"
      [] t.k = "doc" -> HtmlAll(t.c, FALSE, id, h)
=============================================================================
