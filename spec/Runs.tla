-------------------------------- MODULE Runs --------------------------------
(* Abstract finite sequences of integers, represented by arithmetic runs.     *)
(* A run <<a, n, d>> (n >= 1) denotes  a, a+d, ..., a+(n-1)*d.  A sequence of  *)
(* runs denotes the concatenation.  This lets the model talk about vectors of *)
(* a million elements (four trie levels) at the cost of a handful of runs.    *)
(* Indices are 0-based, exactly as in the API being specified.                *)
EXTENDS Integers, Sequences

NONE == 999999999        \* "argument omitted" in slices and searches

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

One(x)      == <<<<x, 1, 0>>>>
Fresh(a, n) == IF n = 0 THEN <<>> ELSE <<<<a, n, 1>>>>

RECURSIVE RLenFrom(_, _)
RLenFrom(rs, i) == IF i > Len(rs) THEN 0 ELSE rs[i][2] + RLenFrom(rs, i + 1)
RLen(rs) == RLenFrom(rs, 1)

RunAt(r, i) == r[1] + i * r[3]

RECURSIVE RAt(_, _)
RAt(rs, i) == IF i < Head(rs)[2] THEN RunAt(Head(rs), i)
              ELSE RAt(Tail(rs), i - Head(rs)[2])

RECURSIVE RTake(_, _)
RTake(rs, k) ==
    IF k <= 0 \/ rs = <<>> THEN <<>>
    ELSE LET r == Head(rs) IN
         IF k < r[2] THEN <<<<r[1], k, r[3]>>>>
         ELSE <<r>> \o RTake(Tail(rs), k - r[2])

RECURSIVE RDrop(_, _)
RDrop(rs, k) ==
    IF rs = <<>> THEN <<>>
    ELSE IF k <= 0 THEN rs
    ELSE LET r == Head(rs) IN
         IF k < r[2] THEN <<<<RunAt(r, k), r[2] - k, r[3]>>>> \o Tail(rs)
         ELSE RDrop(Tail(rs), k - r[2])

RSet(rs, i, x) == RTake(rs, i) \o One(x) \o RDrop(rs, i + 1)
RDelRange(rs, i, j) == RTake(rs, i) \o RDrop(rs, MaxI(i, j))   \* 0 <= i, j <= len

RECURSIVE RRev(_)
RRev(rs) == IF rs = <<>> THEN <<>>
            ELSE LET r == Head(rs) IN
                 RRev(Tail(rs)) \o <<<<RunAt(r, r[2] - 1), r[2], 0 - r[3]>>>>

\* every k-th element (k >= 1) starting with the element at offset `skip'
RECURSIVE REvery(_, _, _)
REvery(rs, k, skip) ==
    IF rs = <<>> THEN <<>>
    ELSE LET r == Head(rs) IN
         IF skip >= r[2] THEN REvery(Tail(rs), k, skip - r[2])
         ELSE LET m == (r[2] - skip + k - 1) \div k IN
              <<<<RunAt(r, skip), m, r[3] * k>>>> \o REvery(Tail(rs), k, skip + m * k - r[2])

RECURSIVE RRepeat(_, _)
RRepeat(rs, k) == IF k <= 0 THEN <<>> ELSE rs \o RRepeat(rs, k - 1)

\* Python's slice.indices(len) for step # 0, and the sequence it selects
ClampIdx(x, len, lo, hi) == LET y == IF x < 0 THEN x + len ELSE x
                            IN  IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
SliceStart(a, s, len) == IF s > 0 THEN (IF a = NONE THEN 0 ELSE ClampIdx(a, len, 0, len))
                         ELSE (IF a = NONE THEN len - 1 ELSE ClampIdx(a, len, -1, len - 1))
SliceStop(b, s, len)  == IF s > 0 THEN (IF b = NONE THEN len ELSE ClampIdx(b, len, 0, len))
                         ELSE (IF b = NONE THEN -1 ELSE ClampIdx(b, len, -1, len - 1))
RSlice(rs, a, b, s0) ==
    LET s == IF s0 = NONE THEN 1 ELSE s0
        n == RLen(rs)
        i == SliceStart(a, s, n)
        j == SliceStop(b, s, n)
    IN IF s > 0
       THEN IF j <= i THEN <<>> ELSE REvery(RTake(rs, j), s, i)
       ELSE IF i <= j THEN <<>>
            ELSE REvery(RTake(RRev(rs), n - 1 - j), 0 - s, n - 1 - i)

\* First offset >= 0 in run r (of its first m elements) holding x, or -1
RunFind(r, m, x) ==
    IF r[3] = 0 \/ m = 1 THEN (IF r[1] = x THEN 0 ELSE -1)
    ELSE LET q == x - r[1]
             d == r[3]
             aq == IF q < 0 THEN 0 - q ELSE q
             ad == IF d < 0 THEN 0 - d ELSE d
         IN IF aq % ad # 0 THEN -1
            ELSE IF q # 0 /\ ((q < 0) # (d < 0)) THEN -1
            ELSE IF aq \div ad < m THEN aq \div ad ELSE -1

RECURSIVE RFindFrom(_, _, _)
RFindFrom(rs, x, off) ==
    IF rs = <<>> THEN -1
    ELSE LET r == Head(rs)
             k == RunFind(r, r[2], x)
         IN IF k >= 0 THEN off + k ELSE RFindFrom(Tail(rs), x, off + r[2])
RFind(rs, x) == RFindFrom(rs, x, 0)

\* list.index(x, a, b): -1 when absent
RIndex(rs, x, a, b) ==
    LET n == RLen(rs)
        i == IF a = NONE THEN 0 ELSE ClampIdx(a, n, 0, n)
        j == IF b = NONE THEN n ELSE ClampIdx(b, n, 0, n)
        k == IF j <= i THEN -1 ELSE RFind(RDrop(RTake(rs, j), i), x)
    IN IF k < 0 THEN -1 ELSE k + i

RECURSIVE RCount(_, _)
RCount(rs, x) ==
    IF rs = <<>> THEN 0
    ELSE LET r == Head(rs)
             c == IF r[3] = 0 THEN (IF r[1] = x THEN r[2] ELSE 0)
                  ELSE IF RunFind(r, r[2], x) >= 0 THEN 1 ELSE 0
         IN c + RCount(Tail(rs), x)

\* Lexicographic comparison: -1, 0, 1  (walks runs, not elements)
RECURSIVE RCmp(_, _)
RCmp(p, q) ==
    IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1)
    ELSE IF q = <<>> THEN 1
    ELSE LET r == Head(p)
             s == Head(q)
             m == MinI(r[2], s[2])
         IN IF r[1] # s[1] THEN (IF r[1] < s[1] THEN -1 ELSE 1)
            ELSE IF m > 1 /\ r[3] # s[3] THEN (IF r[3] < s[3] THEN -1 ELSE 1)
            ELSE RCmp(RDrop(p, m), RDrop(q, m))
REq(p, q) == RLen(p) = RLen(q) /\ RCmp(p, q) = 0

\* Denotation, for cross-checking the run algebra against plain sequences
RECURSIVE Expand(_)
Expand(rs) == IF rs = <<>> THEN <<>>
              ELSE [i \in 1..Head(rs)[2] |-> RunAt(Head(rs), i - 1)] \o Expand(Tail(rs))
==============================================================================
