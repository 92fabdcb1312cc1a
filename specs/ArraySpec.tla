----------------------------- MODULE ArraySpec -----------------------------
(* Array, FixedArray and ArrayView: the items each array holds after every  *)
(* operation. An item is a number; 0 is a default constructed item, Gone a  *)
(* moved-from one. The number of live objects is the number of items held.  *)
EXTENDS Naturals, Integers, Sequences
VARIABLE A
Regs == 1..3
Gone == -1
ArrInit == A = [r \in Regs |-> <<>>]
Zeros(n) == [i \in 1..n |-> 0]
Gones(n) == [i \in 1..n |-> Gone]
Sub(s, from, n) == SubSeq(s, from + 1, from + n)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN Len(A[r]) + Sum(S \ {r})
Live == Sum(Regs)
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
Perm(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

Put(d, v) == A' = [A EXCEPT ![d] = v]
Copy(d, a) == Put(d, A[a])
Move(d, a) == A' = IF d = a THEN [A EXCEPT ![d] = <<>>] ELSE [A EXCEPT ![d] = A[a], ![a] = <<>>]
FromView(d, a, from, n) == from + n <= Len(A[a]) /\ Put(d, Sub(A[a], from, n))
Append1(d, v) == Put(d, Append(A[d], v))
Extend(d, v) == Put(d, A[d] \o v)
\* the items of the source are moved from, the source keeps its (hollow) items
ExtendMove(d, a) == d # a /\ A' = [A EXCEPT ![d] = A[d] \o A[a], ![a] = Gones(Len(A[a]))]
Concat(d, a, b, ma, mb) ==
    LET r == A[a] \o A[b]
        A1 == IF ma THEN [A EXCEPT ![a] = Gones(Len(A[a]))] ELSE A
        A2 == IF mb THEN [A1 EXCEPT ![b] = Gones(Len(A[b]))] ELSE A1
    IN (ma \/ mb => a # b) /\ A' = [A2 EXCEPT ![d] = r]
Insert(d, pos, n) == pos <= Len(A[d]) /\ Put(d, Sub(A[d], 0, pos) \o Zeros(n) \o Sub(A[d], pos, Len(A[d]) - pos))
Erase(d, pos, n) == pos + n <= Len(A[d]) /\ Put(d, Sub(A[d], 0, pos) \o Sub(A[d], pos + n, Len(A[d]) - pos - n))
\* the last items are moved into the gap; a tail shorter than the gap simply closes it
EraseQuick(d, pos, n) ==
    /\ pos + n <= Len(A[d])
    /\ LET L == Len(A[d])  tail == L - pos - n
           k == IF tail < n THEN tail ELSE n
       IN Put(d, Sub(A[d], 0, pos) \o Sub(A[d], L - k, k) \o Sub(A[d], pos + n, tail - k))
Resize(d, n) == Put(d, IF n <= Len(A[d]) THEN Sub(A[d], 0, n) ELSE A[d] \o Zeros(n - Len(A[d])))
Pop(d, n) == n <= Len(A[d]) /\ Resize(d, Len(A[d]) - n)
Clear(d) == Put(d, <<>>)
Set(d, i, v) == i < Len(A[d]) /\ Put(d, [A[d] EXCEPT ![i + 1] = v])
Less(desc, x, y) == IF desc THEN x > y ELSE x < y
Sort(d, desc, v) == /\ Perm(A[d], v) /\ \A i \in 1..(Len(v) - 1) : ~Less(desc, v[i + 1], v[i])
                    /\ Put(d, v)
FindIn(s, x) == LET I == {i \in 1..Len(s) : s[i] = x} IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
RFindIn(s, x) == LET I == {i \in 1..Len(s) : s[i] = x} IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : \A j \in I : i >= j) - 1
=============================================================================
