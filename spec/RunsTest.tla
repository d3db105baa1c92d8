------------------------------ MODULE RunsTest ------------------------------
(* The run algebra agrees with plain sequences: checked exhaustively for all  *)
(* sequences of up to two short runs and all small arguments.                 *)
EXTENDS Runs, FiniteSets, TLC
VARIABLE st
Run == {<<a, n, d>> : a \in {0, 2}, n \in 1..3, d \in {-1, 0, 1}}
RS == {<<>>} \cup {<<r>> : r \in Run} \cup {<<r, q>> : r, q \in Run}
Arg == {NONE, -4, -2, -1, 0, 1, 2, 3, 5}
RECURSIVE PlainSlice(_, _, _, _)
PlainSlice(q, i, j, s) == IF (s > 0 /\ i >= j) \/ (s < 0 /\ i <= j) THEN <<>>
                          ELSE <<q[i + 1]>> \o PlainSlice(q, i + s, j, s)
RECURSIVE PlainCmp(_, _)
PlainCmp(p, q) == IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1)
                  ELSE IF q = <<>> THEN 1
                  ELSE IF Head(p) < Head(q) THEN -1 ELSE IF Head(p) > Head(q) THEN 1
                  ELSE PlainCmp(Tail(p), Tail(q))
Cnt(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Good(rs) ==
  LET q == Expand(rs)
      n == Len(q)
  IN /\ RLen(rs) = n
     /\ \A i \in 0..(n - 1) : RAt(rs, i) = q[i + 1]
     /\ \A i \in 0..n : /\ Expand(RTake(rs, i)) = SubSeq(q, 1, i)
                        /\ Expand(RDrop(rs, i)) = SubSeq(q, i + 1, n)
                        /\ \A j \in 0..n : Expand(RDelRange(rs, i, j)) =
                              SubSeq(q, 1, i) \o SubSeq(q, MaxI(i, j) + 1, n)
     /\ \A i \in 0..(n - 1) : Expand(RSet(rs, i, 7)) = [q EXCEPT ![i + 1] = 7]
     /\ Expand(RSet(rs, n, 7)) = Append(q, 7)
     /\ Expand(RRev(rs)) = [i \in 1..n |-> q[n + 1 - i]]
     /\ Expand(RRepeat(rs, 2)) = q \o q
     /\ \A x \in -3..6 : /\ RCount(rs, x) = Cnt(q, x)
                         /\ RFind(rs, x) = (IF Cnt(q, x) = 0 THEN -1
                                ELSE (CHOOSE i \in 0..(n - 1) : q[i + 1] = x /\ \A k \in 1..i : q[k] # x))
     /\ \A a, b \in Arg : \A s \in {NONE, 1, 2, 3, -1, -2} :
           LET t == IF s = NONE THEN 1 ELSE s
           IN Expand(RSlice(rs, a, b, s)) = PlainSlice(q, SliceStart(a, t, n), SliceStop(b, t, n), t)
Init == st \in RS
Next == UNCHANGED st
Inv == Good(st) /\ \A r \in Run : /\ RCmp(st, <<r>>) = PlainCmp(Expand(st), Expand(<<r>>))
                                  /\ RCmp(<<r>>, st) = PlainCmp(Expand(<<r>>), Expand(st))
==============================================================================
