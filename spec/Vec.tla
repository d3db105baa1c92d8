-------------------------------- MODULE Vec ---------------------------------
(* The persistent vector, its evolvers and its iterators, as a state machine  *)
(* over *all* values ever produced.                                           *)
(*                                                                            *)
(*   heap : every vector handed out so far (content as Runs, its length),     *)
(*          live or dropped by the user                                       *)
(*   evs  : every evolver (content, the vector it returns when clean, dirty:  *)
(*          0 clean, 1 dirty, 2 not specified)                                *)
(*   its  : open iterators (vector they were opened on, position)             *)
(*   nxt  : next fresh element                                                *)
(*   h    : the operations performed, with the result the API must give       *)
(*                                                                            *)
(* Every public call is one action; its argument errors are part of the same  *)
(* action ("err" outcomes leave every other variable unchanged).  A behaviour *)
(* is a history h; every history is replayed on the real library.             *)
EXTENDS Runs, FiniteSets, Json, TLC

CONSTANTS Mode,      \* "sim": random parameters, "bfs": all parameters
          Depth,     \* operations per behaviour
          InitSizes, \* sizes of the first vector
          Grow,      \* sizes used by constructors and extensions
          MaxLen,    \* no vector longer than this is built
          OpSeq,     \* the operations to generate (repeats = weight)
          MaxHeap    \* bound on vectors per behaviour

VARIABLES heap, evs, its, nxt, h
vars == <<heap, evs, its, nxt, h>>

Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
\* a number in 0..n-1 without enumerating large intervals
Rnd(n) == IF n <= 1500 THEN RandomElement(0..(n - 1))
          ELSE (RandomElement(0..1499) * 1500 + RandomElement(0..1499)) % n

Live  == {i \in 1..Len(heap) : heap[i].live}
LiveE == {i \in 1..Len(evs) : evs[i].live}
OpenI == {i \in 1..Len(its) : its[i].live}
C(i)  == heap[i].c
N(i)  == heap[i].n
EN(e) == evs[e].n
MaxRuns == 60

TailOff(n) == IF n = 0 THEN 0 ELSE ((n - 1) \div 32) * 32
\* boundary positions of a vector of length n (valid and invalid ones)
PosAll(n) == {0, 1, 31, 32, 33, 63, 64, 1023, 1024, 1055, 1056, 32767, 32768, 32799, 32800, 33823,
              33824, n \div 2, n - 33, n - 32, n - 2, n - 1, n, n + 1, TailOff(n) - 1, TailOff(n),
              TailOff(n) + 1, TailOff(n) - 32, TailOff(n) - 33, -1, -2, 0 - n, 0 - n - 1, 0 - n + 1}
PosSet(n) == {p \in PosAll(n) : p >= 0 - n - 1 /\ p <= n + 1}
PosBfs(n) == {p \in {0, 32, n \div 2, n - 1, n, n + 1, TailOff(n) - 1, TailOff(n), -1, 0 - n - 1} :
                 p >= 0 - n - 1 /\ p <= n + 1}
\* positions used before by set and the like, and positions at trie distances from them
OfSet == {"set", "eset", "get", "eget", "mset", "transform"}
Related(n) == LET used == {h[i].a[1] : i \in {j \in 1..Len(h) : h[j].op \in OfSet /\ h[j].a # <<>>}}
                  d == {-32768, -1024, -32, -31, -1, 0, 1, 31, 32, 1024, 32768}
              IN {p \in {u + x : u \in used, x \in d} : p >= 0 - n - 1 /\ p <= n + 1}
Pos(n) == IF Mode = "sim"
          THEN {LET r == RandomElement(1..6) IN
                CASE r <= 2 -> Rnd(n + 1)
                  [] r \in {3, 4} /\ Related(n) # {} -> RandomElement(Related(n))
                  [] OTHER -> RandomElement(PosSet(n))}
          ELSE PosBfs(n)
Bound(n) == IF Mode = "sim"
            THEN {LET r == RandomElement(1..12) IN
                  CASE r <= 3 -> NONE
                    [] r <= 5 -> Rnd(n + 1)
                    [] r = 6 -> RandomElement({n, n + 1, n + 7, 0 - n - 7, n + 40, 2000000000, -2000000000})
                    [] OTHER -> RandomElement(PosSet(n))}
            ELSE IF Depth = 1 THEN {0, 1, n - 1, n, n + 1, n + 7, TailOff(n), -1, 0 - n, 0 - n - 2, NONE}
            ELSE {0, 1, n - 1, n + 1, TailOff(n), -1, NONE}
Steps(x) == IF Mode = "sim" THEN {RandomElement({NONE, 1, 2, 3, 32, -1, -2, -31})} ELSE {NONE, 2, -1}
\* an element: fresh, or (sim) sometimes one that already occurs somewhere
Elem  == IF Mode = "sim" THEN {IF RandomElement(1..3) = 1 THEN 1 + Rnd(nxt) ELSE nxt} ELSE {nxt}
\* an element to look for: mostly one that occurs in content c of length n
OldIn(c, n) == IF Mode = "sim"
               THEN {IF n > 0 /\ RandomElement(1..4) > 1 THEN RAt(c, Rnd(n)) ELSE 1 + Rnd(nxt)}
               ELSE {1, nxt} \cup (IF n > 0 THEN {RAt(c, n - 1), RAt(c, n \div 2)} ELSE {})
\* (parameters keep TLC from evaluating a random choice only once)
Sizes(x) == Pick(Grow)
Kinds(x) == Pick(IF Mode = "sim" THEN {"list", "tuple", "gen", "iter", "deque", "old", "hint", "vec", "other"} ELSE {"list", "tuple", "gen"})
Norm(i, n) == IF i < 0 THEN i + n ELSE i

Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r]
Log(e) == h' = Append(h, e)
V(c) == [c |-> c, n |-> RLen(c), live |-> TRUE]

\* -------- outcome helpers
Skip == Log(Ev("skip", 0, <<>>, "", "ok", 0)) /\ UNCHANGED <<heap, evs, its, nxt>>
NewVec(op, s, a, k, c, nx) ==
    IF Len(c) <= MaxRuns /\ RLen(c) <= MaxLen
    THEN /\ heap' = Append(heap, V(c))
         /\ nxt' = nx
         /\ Log(Ev(op, s, a, k, "new", c))
         /\ UNCHANGED <<evs, its>>
    ELSE Skip
Keep(op, s, a, k, o, r) ==
    /\ Log(Ev(op, s, a, k, o, r))
    /\ UNCHANGED <<heap, evs, its, nxt>>
Room == Len(heap) < MaxHeap
Up(x) == IF x >= nxt THEN x + 1 ELSE nxt

\* ------------------------------------------------------------------ vectors
New == \E n \in Sizes(nxt), k \in Kinds(nxt) : NewVec("new", 0, <<nxt, n>>, k, Fresh(nxt, n), nxt + n)

AppendA == \E s \in Pick(Live) : \E x \in Elem :
             NewVec("append", s, <<x>>, "", C(s) \o One(x), Up(x))

ExtendA == \E s \in Pick(Live) : \E n \in Sizes(nxt), k \in (IF Mode = "bfs" THEN {"plus"} \cup Kinds(nxt) ELSE IF RandomElement(1..6) = 1 THEN {"plus"} ELSE Kinds(nxt)) :
             IF n = 0 THEN Keep("extend", s, <<nxt, 0>>, k, "same", s)
             ELSE NewVec("extend", s, <<nxt, n>>, k, C(s) \o Fresh(nxt, n), nxt + n)

ExtendV == \E s \in Pick(Live), t \in Pick(Live) : \E k \in Pick({"vec", "vplus", "other", "checked"}) :
             IF N(t) = 0 THEN Keep("extendv", s, <<t>>, k, "same", s)
             ELSE NewVec("extendv", s, <<t>>, k, C(s) \o C(t), nxt)

SetA == \E s \in Pick(Live) : \E i \in Pos(N(s)), x \in Elem :
          LET n == N(s)
              j == Norm(i, n)
          IN IF j < 0 \/ j > n THEN Keep("set", s, <<i, x>>, "", "err", "IndexError")
             ELSE NewVec("set", s, <<i, x>>, "", RSet(C(s), j, x), Up(x))

\* mset: left to right, an index equal to the current length appends
RECURSIVE MSetC(_, _, _)
MSetC(c, n, a) ==   \* <<TRUE, content>> or <<FALSE, <<>>>>
    IF a = <<>> THEN <<TRUE, c>>
    ELSE LET j == Norm(a[1], n)
         IN IF j < 0 \/ j > n THEN <<FALSE, <<>>>>
            ELSE MSetC(RSet(c, j, a[2]), IF j = n THEN n + 1 ELSE n, SubSeq(a, 3, Len(a)))
MSetArgs(a, s) == LET m == MSetC(C(s), N(s), a)
                  IN IF ~m[1] THEN Keep("mset", s, a, "", "err", "IndexError")
                     ELSE NewVec("mset", s, a, "", m[2], nxt + 3)
MSet == \E s \in Pick(Live) : \E i \in Pos(N(s)), j \in Pos(N(s)), l \in Pos(N(s)) : \E w \in Pick(IF Mode = "sim" THEN 1..3 ELSE {2}) :
          MSetArgs(SubSeq(<<i, nxt, j, nxt + 1, l, nxt + 2>>, 1, 2 * w), s)
MSetOdd == \E s \in Pick(Live) : Keep("mset", s, <<0, 1, 0>>, "odd", "err", "TypeError")

\* operations that change nothing
Noop == \E s \in Pick(Live) : \E k \in Pick({"tid", "tsame", "tny", "tnone", "mset0"}) :
          IF k \in {"tid", "tsame"} THEN IF N(s) = 0 THEN Skip
                                        ELSE \E i \in Pick({0, N(s) - 1, -1, N(s) \div 2}) : Keep("noop", s, <<i>>, k, "same", s)
          ELSE Keep("noop", s, <<>>, k, "same", s)

Delete1 == \E s \in Pick(Live) : \E i \in Pos(N(s)) :
             LET n == N(s)
                 j == Norm(i, n)
             IN IF j < 0 \/ j >= n THEN Keep("delete", s, <<i>>, "", "err", "IndexError")
                ELSE NewVec("delete", s, <<i>>, "", RDelRange(C(s), j, j + 1), nxt)
Delete2 == \E s \in Pick(Live) : \E i \in Pos(N(s)), e \in Pos(N(s)) :
             LET n == N(s)
                 a == ClampIdx(i, n, 0, n)
                 b == ClampIdx(e, n, 0, n)
             IN NewVec("delete", s, <<i, e>>, "", RDelRange(C(s), a, b), nxt)
Remove == \E s \in Pick(Live) : \E x \in OldIn(C(s), N(s)) :
            LET j == RFind(C(s), x)
            IN IF j < 0 THEN Keep("remove", s, <<x>>, "", "err", "ValueError")
               ELSE NewVec("remove", s, <<x>>, "", RDelRange(C(s), j, j + 1), nxt)
Slice == \E s \in Pick(Live) : \E a \in Bound(N(s)), b \in Bound(N(s)) : \E t \in Steps(nxt) :
           NewVec("slice", s, <<a, b, t>>, "", RSlice(C(s), a, b, t), nxt)
SliceZero == \E s \in Pick(Live) : Keep("slice", s, <<NONE, NONE, 0>>, "", "err", "ValueError")
Mul == \E s \in Pick(Live) : \E t \in Pick({-1, 0, 1, 2, 3, 33}) : \E k \in Pick({"l", "r"}) :
         IF N(s) * t <= MaxLen /\ Len(C(s)) * t <= MaxRuns
         THEN NewVec("mul", s, <<t>>, k, RRepeat(C(s), t), nxt)
         ELSE Skip
\* transform with a literal index; a constant or a function as command
TransformA == \E s \in Pick(Live) : \E i \in Pos(N(s)) : \E k \in Pick({"const", "fun"}) :
                IF i < 0 \/ i >= N(s) THEN Skip
                ELSE NewVec("transform", s, <<i, nxt>>, k, RSet(C(s), i, nxt), nxt + 1)
\* transform with ny: every element e becomes e + 1000000
RECURSIVE RShift(_, _)
RShift(c, d) == IF c = <<>> THEN <<>> ELSE <<<<c[1][1] + d, c[1][2], c[1][3]>>>> \o RShift(Tail(c), d)
TransformAll == \E s \in Pick(Live) :
                  IF N(s) = 0 \/ N(s) > 2000 THEN Skip
                  ELSE NewVec("transformny", s, <<1000000>>, "", RShift(C(s), 1000000), nxt)
\* pickling and copying: an equal value
RoundTrip == \E s \in Pick(Live) : \E k \in Pick({"p0", "p1", "p2", "p3", "p4", "p5", "copy", "deepcopy"}) :
               NewVec("rt", s, <<>>, k, C(s), nxt)

\* ------------------------------------------------------------------ reads
Get == \E s \in Pick(Live) : \E i \in Pos(N(s)) :
         LET n == N(s)
             j == Norm(i, n)
         IN IF j < 0 \/ j >= n THEN Keep("get", s, <<i>>, "", "err", "IndexError")
            ELSE Keep("get", s, <<i>>, "", "val", RAt(C(s), j))
IndexA == \E s \in Pick(Live) : \E x \in OldIn(C(s), N(s)) : \E a \in Bound(N(s)), b \in Bound(N(s)) :
         LET b2 == IF a = NONE THEN NONE ELSE b
             j  == RIndex(C(s), x, a, b2)
         IN IF j < 0 THEN Keep("index", s, <<x, a, b2>>, "", "err", "ValueError")
            ELSE Keep("index", s, <<x, a, b2>>, "", "val", j)
CountA == \E s \in Pick(Live) : \E x \in OldIn(C(s), N(s)) :
         Keep("count", s, <<x>>, "", "val", RCount(C(s), x))
ContainsA == \E s \in Pick(Live) : \E x \in OldIn(C(s), N(s)) :
         Keep("contains", s, <<x>>, "", "val", IF RFind(C(s), x) >= 0 THEN 1 ELSE 0)
CmpA == \E s \in Pick(Live), t \in Pick(Live) : \E k \in Pick({"vec", "list"}) :
         Keep("cmp", s, <<t>>, k, "val", RCmp(C(s), C(t)))
\* comparison with a near copy: one element changed, or cut short / extended
Near == \E s \in Pick(Live) : \E i \in Pos(N(s)) : \E d \in Pick({-1, 1}) :
          IF N(s) = 0 \/ Norm(i, N(s)) < 0 \/ Norm(i, N(s)) >= N(s) THEN Skip
          ELSE LET j == Norm(i, N(s))
                   c == RSet(C(s), j, RAt(C(s), j) + d)
               IN NewVec("near", s, <<j, RAt(C(s), j) + d>>, "", c, nxt)

IterNew == IF Len(its) >= 4 THEN Skip
           ELSE \E s \in Pick(Live) : \E k \in Pick({"fwd", "rev"}) :
                /\ its' = Append(its, [c |-> IF k = "fwd" THEN C(s) ELSE RRev(C(s)), n |-> N(s), s |-> s, p |-> 0,
                                       live |-> TRUE])
                /\ Log(Ev("iter", s, <<>>, k, "newit", 0))
                /\ UNCHANGED <<heap, evs, nxt>>
IterNext == IF OpenI = {} THEN Skip
            ELSE \E i \in Pick(OpenI) : \E k \in Pick({1, 31, 32, 33}) :
         LET n == its[i].n
             m == MinI(k, n - its[i].p)
             out == RTake(RDrop(its[i].c, its[i].p), m)
         IN /\ its' = [its EXCEPT ![i].p = @ + m, ![i].live = (m = k)]
            /\ Log(Ev("next", i, <<k>>, "", "seq", out))
            /\ UNCHANGED <<heap, evs, nxt>>

\* arguments of the wrong type are rejected and change nothing
BadKinds == {"get", "set", "extend", "plus", "mul", "delete", "new", "eset", "eget", "edel", "eextend", "lt", "msetk"}
Bad == \E s \in Pick(Live) : \E k \in Pick(BadKinds) : Keep("bad", s, <<>>, k, "err", "TypeError")

Drop == IF Cardinality(Live) <= 1 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ heap' = [heap EXCEPT ![s].live = FALSE]
             /\ Log(Ev("drop", s, <<>>, "", "ok", 0))
             /\ UNCHANGED <<evs, its, nxt>>

\* ----------------------------------------------------------------- evolvers
EvState(op, e, a, k, c, d, nx) ==
    IF Len(c) <= MaxRuns /\ RLen(c) <= MaxLen
    THEN /\ evs' = [evs EXCEPT ![e].c = c, ![e].n = RLen(c), ![e].dirty = d]
         /\ nxt' = nx
         /\ Log(Ev(op, e, a, k, "ev", <<c, d>>))
         /\ UNCHANGED <<heap, its>>
    ELSE Skip

ENew == IF Len(evs) >= 5 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ evs' = Append(evs, [c |-> C(s), n |-> N(s), base |-> s, dirty |-> 0, live |-> TRUE])
             /\ Log(Ev("enew", s, <<>>, "", "newev", <<C(s), 0>>))
             /\ UNCHANGED <<heap, its, nxt>>
ESet == \E e \in Pick(LiveE) : \E i \in Pos(EN(e)), x \in Elem : \E k \in Pick({"m", "i"}) :
             LET n == EN(e)
                 j == Norm(i, n)
             IN IF j < 0 \/ j > n THEN Keep("eset", e, <<i, x>>, k, "err", "IndexError")
                ELSE EvState("eset", e, <<i, x>>, k, RSet(evs[e].c, j, x),
                             IF j < n /\ RAt(evs[e].c, j) = x /\ evs[e].dirty # 1 THEN 2 ELSE 1, Up(x))
EDel == \E e \in Pick(LiveE) : \E i \in Pos(EN(e)) : \E k \in Pick({"m", "i"}) :
             LET n == EN(e)
                 j == Norm(i, n)
             IN IF j < 0 \/ j >= n THEN Keep("edel", e, <<i>>, k, "err", "IndexError")
                ELSE EvState("edel", e, <<i>>, k, RDelRange(evs[e].c, j, j + 1), 1, nxt)
EAppend == \E e \in Pick(LiveE) : \E x \in Elem :
             EvState("eappend", e, <<x>>, "", evs[e].c \o One(x), 1, Up(x))
EExtend == \E e \in Pick(LiveE) : \E n \in Sizes(nxt), k \in Kinds(nxt) :
             EvState("eextend", e, <<nxt, n>>, k, evs[e].c \o Fresh(nxt, n),
                     IF n = 0 THEN evs[e].dirty ELSE 1, nxt + n)
EGet == \E e \in Pick(LiveE) : \E i \in Pos(EN(e)) :
             LET n == EN(e)
                 j == Norm(i, n)
             IN IF j < 0 \/ j >= n THEN Keep("eget", e, <<i>>, "", "err", "IndexError")
                ELSE Keep("eget", e, <<i>>, "", "val", RAt(evs[e].c, j))
\* persistent(): a clean evolver returns the very vector it is based on
EPersist == \E e \in Pick(LiveE) :
                 IF evs[e].dirty = 0 /\ heap[evs[e].base].live
                 THEN Keep("epersist", e, <<>>, "", "same", evs[e].base)
                 ELSE /\ heap' = Append(heap, [c |-> evs[e].c, n |-> evs[e].n, live |-> TRUE])
                      /\ evs' = [evs EXCEPT ![e].dirty = 0, ![e].base = Len(heap) + 1]
                      /\ Log(Ev("epersist", e, <<>>, "", "new", evs[e].c))
                      /\ UNCHANGED <<its, nxt>>
EDrop == \E e \in Pick(LiveE) :
              /\ evs' = [evs EXCEPT ![e].live = FALSE]
              /\ Log(Ev("edrop", e, <<>>, "", "ok", 0))
              /\ UNCHANGED <<heap, its, nxt>>

Init == \E n \in InitSizes, k \in {"list", "append"} :
          /\ heap = <<V(Fresh(1, n))>>
          /\ evs = <<>> /\ its = <<>>
          /\ nxt = n + 1
          /\ h = <<Ev("new", 0, <<1, n>>, IF n > 2000 THEN "list" ELSE k, "new", Fresh(1, n))>>

Creating == {"new", "append", "extend", "extendv", "set", "mset", "delete", "delete2", "remove", "slice", "mul",
             "transform", "transformny", "near", "rt", "epersist"}
OnEvolver == {"eset", "edel", "eappend", "eextend", "eget", "epersist", "edrop"}
Do(op) ==
    IF op \in Creating /\ ~Room THEN Skip
    ELSE IF op \in OnEvolver /\ LiveE = {} THEN ENew
    ELSE CASE op = "new" -> New
           [] op = "append" -> AppendA
           [] op = "extend" -> ExtendA
           [] op = "extendv" -> ExtendV
           [] op = "set" -> SetA
           [] op = "mset" -> MSet
           [] op = "msetodd" -> MSetOdd
           [] op = "delete" -> Delete1
           [] op = "delete2" -> Delete2
           [] op = "remove" -> Remove
           [] op = "slice" -> Slice
           [] op = "slicezero" -> SliceZero
           [] op = "mul" -> Mul
           [] op = "transform" -> TransformA
           [] op = "transformny" -> TransformAll
           [] op = "rt" -> RoundTrip
           [] op = "noop" -> Noop
           [] op = "near" -> Near
           [] op = "get" -> Get
           [] op = "index" -> IndexA
           [] op = "count" -> CountA
           [] op = "contains" -> ContainsA
           [] op = "cmp" -> CmpA
           [] op = "iter" -> IterNew
           [] op = "bad" -> Bad
           [] op = "next" -> IterNext
           [] op = "drop" -> Drop
           [] op = "enew" -> ENew
           [] op = "eset" -> ESet
           [] op = "edel" -> EDel
           [] op = "eappend" -> EAppend
           [] op = "eextend" -> EExtend
           [] op = "eget" -> EGet
           [] op = "epersist" -> EPersist
           [] op = "edrop" -> EDrop

OpsUpd  == <<"new", "append", "append", "extend", "extend", "extendv", "set", "set", "mset", "delete",
             "delete2", "remove", "slice", "mul", "transform">>
OpsRead == <<"get", "get", "index", "count", "contains", "cmp", "near", "iter", "next", "next", "drop",
             "msetodd", "slicezero", "transformny", "noop">>
OpsEv   == <<"enew", "enew", "eset", "eset", "eset", "eset", "edel", "eappend", "eappend", "eextend", "eget",
             "epersist", "epersist", "epersist">>
OpsAll    == OpsUpd \o OpsRead \o OpsEv \o <<"edrop", "bad">>
OpsFun    == OpsUpd \o OpsUpd \o OpsRead \o <<"bad">>  \* the vector itself
OpsTx     == OpsEv \o OpsEv \o OpsUpd \o <<"drop", "edrop">>  \* evolver-heavy
OpsChurn  == OpsUpd \o OpsEv \o <<"drop", "drop", "drop", "edrop", "iter", "next">>
OpsRT     == OpsUpd \o OpsEv \o <<"rt", "rt", "rt", "rt", "rt", "rt", "get", "cmp">>
OpsEq     == OpsUpd \o OpsEv \o <<"near", "near", "near", "cmp", "cmp">>
OpsEvSet  == <<"enew", "eset", "eset", "eset", "eset", "eset", "eset", "eget", "eget", "epersist", "set", "set", "get">>
OpsSame   == OpsUpd \o OpsEv \o <<"noop", "noop", "noop", "noop", "extend", "extendv">>
\* exhaustive configurations
OpsBfsUpd == <<"append", "extend", "extendv", "set", "delete", "slice", "mul">>
OpsBfsRead == <<"get", "index", "slice", "delete2", "count", "contains", "remove", "mul", "noop", "bad", "iter", "cmp">>
OpsBfsEv  == <<"enew", "eset", "eappend", "edel", "epersist", "append", "set">>

Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* Persistence: nothing that was handed out ever changes.
Persistence == [][\A i \in 1..Len(heap) : heap'[i].c = heap[i].c]_vars
\* An evolver step changes at most that evolver; a vector step changes none.
Isolation == [][Cardinality({e \in 1..Len(evs) : evs'[e].c # evs[e].c}) <= 1]_vars
\* A clean evolver shows exactly the vector it would return.
CleanIsBase == \A e \in 1..Len(evs) : evs[e].dirty = 0 => REq(evs[e].c, heap[evs[e].base].c)
TypeOK == /\ \A i \in 1..Len(heap) : N(i) <= MaxLen /\ N(i) = RLen(C(i))
          /\ \A i \in 1..Len(its) : its[i].p <= its[i].n

Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
