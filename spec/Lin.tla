-------------------------------- MODULE Lin ---------------------------------
(* Persistent deques (bounded or not) and persistent lists over all values    *)
(* ever produced.  heap[i] = content (a sequence), m = bound (NONE: none).    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, OpSeq, MaxHeap, MaxLen, Kind,  \* "dq" or "pl"
          Bounds,                                    \* maxlen values
          Batch, InitSizes

NONE == 999999999
VARIABLES heap, its, nxt, h
vars == <<heap, its, nxt, h>>

Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Live  == {i \in 1..Len(heap) : heap[i].live}
OpenI == {i \in 1..Len(its) : its[i].live}
C(i) == heap[i].c
M(i) == heap[i].m
N(i) == Len(heap[i].c)
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b
Take(q, n) == SubSeq(q, 1, MinN(n, Len(q)))
Skp(q, n)  == SubSeq(q, n + 1, Len(q))
TakeR(q, n) == Skp(q, Len(q) - MinN(n, Len(q)))
DropR(q, n) == Take(q, MaxN(0, Len(q) - n))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
FreshSeq(n) == [i \in 1..n |-> nxt + i - 1]
\* what a bound does to a queue grown on the right / on the left
CutL(q, m) == IF m = NONE THEN q ELSE TakeR(q, m)
CutR(q, m) == IF m = NONE THEN q ELSE Take(q, m)
Find(q, x) == IF \E i \in 1..Len(q) : q[i] = x
              THEN CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
              ELSE 0
Clamp(i, n, lo, hi) == LET k == IF i < 0 THEN i + n ELSE i IN IF k < lo THEN lo ELSE IF k > hi THEN hi ELSE k
RECURSIVE Walk(_, _, _, _)
Walk(q, i, stop, step) == IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
                          ELSE <<q[i + 1]>> \o Walk(q, i + step, stop, step)
Slc(q, a, b, t) ==
    LET n == Len(q)
        s == IF t = NONE THEN 1 ELSE t
    IN IF s > 0 THEN Walk(q, IF a = NONE THEN 0 ELSE Clamp(a, n, 0, n), IF b = NONE THEN n ELSE Clamp(b, n, 0, n), s)
       ELSE Walk(q, IF a = NONE THEN n - 1 ELSE Clamp(a, n, -1, n - 1), IF b = NONE THEN -1 ELSE Clamp(b, n, -1, n - 1), s)
RECURSIVE Cmp(_, _)
Cmp(p, q) == IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1)
             ELSE IF q = <<>> THEN 1
             ELSE IF p[1] # q[1] THEN (IF p[1] < q[1] THEN -1 ELSE 1)
             ELSE Cmp(Tail(p), Tail(q))
Rot(q, k) == IF q = <<>> THEN q ELSE LET n == Len(q) IN [i \in 1..n |-> q[((i - 1 - k) % n) + 1]]

Pos(n) == IF Mode = "sim" THEN {RandomElement((0 - n - 2)..(n + 2))} ELSE (0 - n - 1)..(n + 1)
Bound(n) == IF Mode = "sim" THEN {IF RandomElement(1..3) = 1 THEN NONE ELSE RandomElement((0 - n - 2)..(n + 2))}
            ELSE {NONE, 0, 1, n, -1}
\* ways to hand over a sequence
Kinds == IF Mode = "sim" THEN {"list", "gen", "tuple", "iter", "deque", "old", "hint"} ELSE {"list", "gen"}
Elem == IF Mode = "sim" THEN {IF RandomElement(1..2) = 1 THEN RandomElement(1..nxt) ELSE nxt} ELSE {nxt, 1}
OldIn(q) == IF Mode = "sim" THEN {IF q # <<>> /\ RandomElement(1..4) > 1 THEN q[RandomElement(1..Len(q))] ELSE RandomElement(1..nxt)}
            ELSE {1, nxt}
Up(x) == IF x >= nxt THEN x + 1 ELSE nxt

Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r]
Log(e) == h' = Append(h, e)
Room == Len(heap) < MaxHeap
Skip == Log(Ev("skip", 0, <<>>, "", "ok", 0)) /\ UNCHANGED <<heap, its, nxt>>
NewL(op, s, a, k, c, m, nx) ==
    IF Len(c) > MaxLen THEN Skip
    ELSE /\ heap' = Append(heap, [c |-> c, m |-> m, live |-> TRUE])
         /\ nxt' = nx
         /\ Log(Ev(op, s, a, k, "new", <<c, m>>))
         /\ UNCHANGED its
Keep(op, s, a, k, o, r) == Log(Ev(op, s, a, k, o, r)) /\ UNCHANGED <<heap, its, nxt>>
B(x) == IF x THEN 1 ELSE 0

\* ----------------------------------------------------------------- common
New == \E n \in Pick(Batch) : \E m \in Pick(Bounds) : \E k \in Pick({"args", "reverse"} \cup Kinds) :
         IF Kind = "dq" THEN LET b == IF k = "args" THEN NONE ELSE m
                             IN NewL("new", 0, <<FreshSeq(n), b>>, k, CutL(FreshSeq(n), b), b, nxt + n)
         ELSE NewL("new", 0, <<FreshSeq(n), NONE>>, k, IF k = "reverse" THEN Rev(FreshSeq(n)) ELSE FreshSeq(n), NONE, nxt + n)
Reverse == \E s \in Pick(Live) : \E k \in Pick({"m", "r"}) : NewL("reverse", s, <<>>, k, Rev(C(s)), M(s), nxt)
Remove == \E s \in Pick(Live) : \E x \in OldIn(C(s)) :
            LET j == Find(C(s), x)
            IN IF j = 0 THEN Keep("remove", s, <<x>>, "", "err", "ValueError")
               ELSE NewL("remove", s, <<x>>, "", Take(C(s), j - 1) \o Skp(C(s), j), M(s), nxt)
Slice == \E s \in Pick(Live) : \E a \in Bound(N(s)), b \in Bound(N(s)) : \E t \in Pick(IF Mode = "sim" THEN {NONE, NONE, 1, 2, -1, -2, 3} ELSE {NONE, 2, -1}) :
            LET c == Slc(C(s), a, b, t)
            IN NewL("slice", s, <<a, b, t>>, "", c, M(s), nxt)
RoundTrip == \E s \in Pick(Live) : \E k \in Pick({"p0", "p1", "p2", "p3", "p4", "p5", "copy", "deepcopy"}) :
            NewL("rt", s, <<>>, k, C(s), M(s), nxt)
Near == \E s \in Pick(Live) : IF N(s) = 0 THEN Skip
          ELSE \E i \in Pick(1..N(s)) : \E k \in Pick({"swap", "short"}) :
               IF k = "short" THEN NewL("near", s, DropR(C(s), 1), k, DropR(C(s), 1), M(s), nxt)
               ELSE NewL("near", s, [C(s) EXCEPT ![i] = nxt], k, [C(s) EXCEPT ![i] = nxt], M(s), nxt + 1)
\* the same content split differently between the two internal ends
Rebuild == \E s \in Pick(Live) : \E k \in Pick({"right", "left", "grow"}) : NewL("rebuild", s, <<>>, k, C(s), M(s), nxt)
Get == \E s \in Pick(Live) : \E i \in Pos(N(s)) :
         LET j == IF i < 0 THEN i + N(s) ELSE i
         IN IF j < 0 \/ j >= N(s) THEN Keep("get", s, <<i>>, "", "err", "IndexError")
            ELSE Keep("get", s, <<i>>, "", "val", C(s)[j + 1])
IndexA == \E s \in Pick(Live) : \E x \in OldIn(C(s)) : \E a \in Bound(N(s)), b \in Bound(N(s)) :
         LET n == N(s)
             b2 == IF a = NONE THEN NONE ELSE b
             i == IF a = NONE THEN 0 ELSE Clamp(a, n, 0, n)
             j == IF b2 = NONE THEN n ELSE Clamp(b2, n, 0, n)
             f == IF i >= j THEN 0 ELSE Find(SubSeq(C(s), i + 1, j), x)
         IN IF f = 0 THEN Keep("index", s, <<x, a, b2>>, "", "err", "ValueError")
            ELSE Keep("index", s, <<x, a, b2>>, "", "val", i + f - 1)
CountA == \E s \in Pick(Live) : \E x \in OldIn(C(s)) :
         Keep("count", s, <<x>>, "", "val", Cardinality({i \in 1..N(s) : C(s)[i] = x}))
Contains == \E s \in Pick(Live) : \E x \in OldIn(C(s)) : Keep("contains", s, <<x>>, "", "val", B(Find(C(s), x) > 0))
CmpA == \E s \in Pick(Live), t \in Pick(Live) : Keep("cmp", s, <<t>>, "", "val", Cmp(C(s), C(t)))
IterNew == IF Len(its) >= 4 THEN Skip
           ELSE \E s \in Pick(Live) : \E k \in Pick({"fwd", "rev"}) :
                /\ its' = Append(its, [c |-> IF k = "fwd" THEN C(s) ELSE Rev(C(s)), p |-> 0, live |-> TRUE])
                /\ Log(Ev("iter", s, <<>>, k, "newit", 0))
                /\ UNCHANGED <<heap, nxt>>
IterNext == IF OpenI = {} THEN Skip
            ELSE \E i \in Pick(OpenI) : \E k \in Pick({1, 2, 100}) :
         LET m == MinN(k, Len(its[i].c) - its[i].p)
         IN /\ its' = [its EXCEPT ![i].p = @ + m, ![i].live = (m = k)]
            /\ Log(Ev("next", i, <<k>>, "", "seq", SubSeq(its[i].c, its[i].p + 1, its[i].p + m)))
            /\ UNCHANGED <<heap, nxt>>
Drop == IF Cardinality(Live) <= 1 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ heap' = [heap EXCEPT ![s].live = FALSE]
             /\ Log(Ev("drop", s, <<>>, "", "ok", 0))
             /\ UNCHANGED <<its, nxt>>

\* ----------------------------------------------------------------- deques
AppendA == \E s \in Pick(Live) : \E x \in Elem : NewL("append", s, <<x>>, "", CutL(C(s) \o <<x>>, M(s)), M(s), Up(x))
AppendLeft == \E s \in Pick(Live) : \E x \in Elem : NewL("appendleft", s, <<x>>, "", CutR(<<x>> \o C(s), M(s)), M(s), Up(x))
Extend == \E s \in Pick(Live) : \E n \in Pick(Batch) : \E k \in Pick({"own"} \cup Kinds) :
            NewL("extend", s, FreshSeq(n), k, CutL(C(s) \o FreshSeq(n), M(s)), M(s), nxt + n)
ExtendLeft == \E s \in Pick(Live) : \E n \in Pick(Batch) : \E k \in Pick({"own"} \cup Kinds) :
            NewL("extendleft", s, FreshSeq(n), k, CutR(Rev(FreshSeq(n)) \o C(s), M(s)), M(s), nxt + n)
ExtendT == \E s \in Pick(Live), t \in Pick(Live) : NewL("extendt", s, <<t>>, "", CutL(C(s) \o C(t), M(s)), M(s), nxt)
Pop == \E s \in Pick(Live) : \E n \in Pos(N(s)) : \E k \in Pick({"n", "1"}) :
            LET m == IF k = "1" THEN 1 ELSE n
            IN NewL("pop", s, <<m>>, k, IF m >= 0 THEN DropR(C(s), m) ELSE Skp(C(s), MinN(0 - m, N(s))), M(s), nxt)
PopLeft == \E s \in Pick(Live) : \E n \in Pos(N(s)) : \E k \in Pick({"n", "1"}) :
            LET m == IF k = "1" THEN 1 ELSE n
            IN NewL("popleft", s, <<m>>, k, IF m < 0 THEN DropR(C(s), 0 - m) ELSE Skp(C(s), MinN(m, N(s))), M(s), nxt)
Rotate == \E s \in Pick(Live) : \E n \in (IF Mode = "sim" THEN {RandomElement(-15..15)} ELSE {-3, -1, 0, 1, 2, 5}) :
            NewL("rotate", s, <<n>>, "", Rot(C(s), n), M(s), nxt)
Ends == \E s \in Pick(Live) : \E k \in Pick({"left", "right", "maxlen"}) :
            IF k = "maxlen" THEN Keep("ends", s, <<>>, k, "val", M(s))
            ELSE IF N(s) = 0 THEN Keep("ends", s, <<>>, k, "err", "IndexError")
            ELSE Keep("ends", s, <<>>, k, "val", IF k = "left" THEN C(s)[1] ELSE C(s)[N(s)])
\* wrong operands are rejected and change nothing; no other kind of object is equal
Bad == \E s \in Pick(Live) : \E k \in Pick({"lt", "get", "setitem", "setattr", "new", "foreign", "foreignseq"} \cup (IF Kind = "dq" THEN {"extend"} ELSE {"mcons"})) :
         IF k \in {"foreign", "foreignseq"} THEN Keep("bad", s, <<>>, k, "val", 0)
         ELSE Keep("bad", s, <<>>, k, "err", IF k = "setattr" THEN "AttributeError" ELSE "TypeError")
BadBound == \E k \in Pick({"neg", "type", "float"}) : Keep("badbound", 0, <<>>, k, "err", IF k = "neg" THEN "ValueError" ELSE "TypeError")

\* ----------------------------------------------------------------- lists
Cons == \E s \in Pick(Live) : \E x \in Elem : NewL("cons", s, <<x>>, "", <<x>> \o C(s), NONE, Up(x))
MCons == \E s \in Pick(Live) : \E n \in Pick(Batch) : \E k \in Pick({"own"} \cup Kinds) :
            NewL("mcons", s, FreshSeq(n), k, Rev(FreshSeq(n)) \o C(s), NONE, nxt + n)
First == \E s \in Pick(Live) : IF N(s) = 0 THEN Keep("first", s, <<>>, "", "err", "AttributeError")
                               ELSE Keep("first", s, <<>>, "", "val", C(s)[1])
Rest == \E s \in Pick(Live) : NewL("rest", s, <<>>, "", IF N(s) = 0 THEN <<>> ELSE Tail(C(s)), NONE, nxt)
Split == \E s \in Pick(Live) : \E i \in Pick(0..(N(s) + 1)) : \E k \in Pick({"l", "r"}) :
            NewL("split", s, <<i>>, k, IF k = "l" THEN Take(C(s), i) ELSE Skp(C(s), MinN(i, N(s))), NONE, nxt)

Init == \E n \in InitSizes, m \in Bounds :
          LET q == [i \in 1..n |-> i]
              b == IF Kind = "dq" THEN m ELSE NONE
          IN /\ heap = <<[c |-> CutL(q, b), m |-> b, live |-> TRUE]>>
             /\ its = <<>>
             /\ nxt = n + 1
             /\ h = <<Ev("new", 0, <<q, b>>, "list", "new", <<CutL(q, b), b>>)>>

Creating == {"new", "reverse", "remove", "slice", "rt", "near", "rebuild", "append", "appendleft", "extend", "extendleft", "extendt", "pop",
             "popleft", "rotate", "cons", "mcons", "rest", "split"}
Do(op) ==
    IF op \in Creating /\ ~Room THEN Skip
    ELSE CASE op = "new" -> New
           [] op = "reverse" -> Reverse
           [] op = "remove" -> Remove
           [] op = "slice" -> Slice
           [] op = "rt" -> RoundTrip
           [] op = "near" -> Near
           [] op = "rebuild" -> Rebuild
           [] op = "get" -> Get
           [] op = "index" -> IndexA
           [] op = "count" -> CountA
           [] op = "contains" -> Contains
           [] op = "cmp" -> CmpA
           [] op = "iter" -> IterNew
           [] op = "next" -> IterNext
           [] op = "drop" -> Drop
           [] op = "append" -> AppendA
           [] op = "appendleft" -> AppendLeft
           [] op = "extend" -> Extend
           [] op = "extendleft" -> ExtendLeft
           [] op = "extendt" -> ExtendT
           [] op = "pop" -> Pop
           [] op = "popleft" -> PopLeft
           [] op = "rotate" -> Rotate
           [] op = "ends" -> Ends
           [] op = "bad" -> Bad
           [] op = "badbound" -> BadBound
           [] op = "cons" -> Cons
           [] op = "mcons" -> MCons
           [] op = "first" -> First
           [] op = "rest" -> Rest
           [] op = "split" -> Split

Read == <<"bad", "get", "get", "index", "count", "contains", "cmp", "cmp", "iter", "next", "next", "drop", "near">>
DqUpd == <<"new", "append", "append", "appendleft", "appendleft", "extend", "extendleft", "extendt", "pop", "pop", "popleft", "popleft",
           "rotate", "rotate", "reverse", "remove", "slice", "slice", "rebuild">>
DqAll == DqUpd \o DqUpd \o Read \o <<"ends", "ends", "badbound">>
DqEq  == DqUpd \o <<"near", "near", "rebuild", "rebuild", "rebuild", "cmp">>
DqRT  == DqUpd \o <<"rt", "rt", "rt", "rt", "rt", "ends", "cmp", "get">>
DqBfs == <<"append", "appendleft", "extend", "extendleft", "pop", "popleft", "rotate", "reverse", "remove", "slice">>
DqBfs2 == <<"append", "appendleft", "pop", "popleft", "rotate", "reverse", "get", "ends">>
PlUpd == <<"new", "cons", "cons", "cons", "mcons", "rest", "split", "split", "reverse", "remove", "remove", "slice", "slice">>
PlAll == PlUpd \o PlUpd \o Read \o <<"first", "first">>
PlEq  == PlUpd \o <<"near", "near", "rebuild", "rebuild", "cmp">>
PlRT  == PlUpd \o <<"rt", "rt", "rt", "rt", "first", "cmp", "get">>
PlBfs == <<"cons", "mcons", "rest", "split", "reverse", "remove", "slice", "get">>

Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

Persistence == [][\A i \in 1..Len(heap) : heap'[i].c = heap[i].c /\ heap'[i].m = heap[i].m]_vars
\* no deque ever exceeds its bound
Bounded == \A i \in 1..Len(heap) : M(i) # NONE => N(i) <= M(i)
\* laws relating the operations
Laws == \A i \in Live : Rot(Rot(C(i), 1), -1) = C(i) /\ Rev(Rev(C(i))) = C(i) /\ Rot(C(i), N(i)) = C(i)
TypeOK == \A i \in 1..Len(heap) : N(i) <= MaxLen

Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
