-------------------------------- MODULE Coll --------------------------------
(* Persistent sets and bags over all values ever produced.                    *)
(*                                                                            *)
(*   kind : "set" or "bag" (one kind per behaviour)                           *)
(*   hp   : how the elements 1..K hash                                        *)
(*   heap : every set/bag handed out; content is a function from elements to  *)
(*          positive multiplicities (all 1 for a set)                         *)
(*   evs  : set evolvers                                                      *)
(*   its  : open iterators                                                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, K, Patterns, OpSeq, MaxHeap, PreSizes, Batch, Kind, MaxCount

VARIABLES hp, heap, evs, its, h
vars == <<hp, heap, evs, its, h>>

Els == 1..K
Empty == [x \in {} |-> 0]
Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Live  == {i \in 1..Len(heap) : heap[i].live}
LiveE == {i \in 1..Len(evs) : evs[i].live}
OpenI == {i \in 1..Len(its) : its[i].live}
C(i)  == heap[i].c
D(i)  == DOMAIN heap[i].c
Cnt(c, x) == IF x \in DOMAIN c THEN c[x] ELSE 0
Pairs(c) == {<<k, c[k]>> : k \in DOMAIN c}
Sub(S) == [x \in S |-> 1]
Bagify(f, S) == LET T == {x \in S : f[x] > 0} IN [x \in T |-> f[x]]
Put(c, x, n) == [y \in DOMAIN c \cup {x} |-> IF y = x THEN n ELSE c[y]]
Del(c, x) == [y \in DOMAIN c \ {x} |-> c[y]]
AddOne(c, x) == IF Kind = "set" THEN Put(c, x, 1) ELSE Put(c, x, Cnt(c, x) + 1)
AddAll(c, xs) == [x \in DOMAIN c \cup {xs[i] : i \in 1..Len(xs)} |->
                    IF Kind = "set" THEN 1 ELSE Cnt(c, x) + Cardinality({i \in 1..Len(xs) : xs[i] = x})]
MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(c, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN c[x] + SumOver(c, S \ {x})
Size(c) == IF Kind = "set" THEN Cardinality(DOMAIN c) ELSE SumOver(c, DOMAIN c)

\* binary operations, set and multiset arithmetic alike
Bin(op, c, d) == LET S == DOMAIN c \cup DOMAIN d IN
    CASE op = "or"  -> Bagify([x \in S |-> MaxN(Cnt(c, x), Cnt(d, x))], S)
      [] op = "and" -> Bagify([x \in S |-> MinN(Cnt(c, x), Cnt(d, x))], S)
      [] op = "sub" -> Bagify([x \in S |-> MaxN(0, Cnt(c, x) - Cnt(d, x))], S)
      [] op = "xor" -> Bagify([x \in S |-> MaxN(Cnt(c, x), Cnt(d, x)) - MinN(Cnt(c, x), Cnt(d, x))], S)
      [] op = "add" -> Bagify([x \in S |-> Cnt(c, x) + Cnt(d, x)], S)
Rel(op, c, d) ==
    CASE op = "le" -> DOMAIN c \subseteq DOMAIN d
      [] op = "lt" -> DOMAIN c \subseteq DOMAIN d /\ DOMAIN c # DOMAIN d
      [] op = "ge" -> DOMAIN d \subseteq DOMAIN c
      [] op = "gt" -> DOMAIN d \subseteq DOMAIN c /\ DOMAIN c # DOMAIN d
      [] op = "isdisjoint" -> DOMAIN c \cap DOMAIN d = {}
      [] op = "eq" -> c = d

OldEl(c) == IF Mode = "sim"
            THEN {IF DOMAIN c # {} /\ RandomElement(1..5) > 1 THEN RandomElement(DOMAIN c) ELSE RandomElement(Els)}
            ELSE Els
AnyEl(c) == Pick(Els)
\* (parameters keep TLC from evaluating a random choice only once)
RECURSIVE RndEls(_)
RndEls(n) == IF n = 0 THEN <<>> ELSE Append(RndEls(n - 1), RandomElement(Els))
ElSeqs(x) == IF Mode = "sim" THEN {RndEls(RandomElement(Batch))}
          ELSE {<<>>, <<1>>, <<1, K, 1>>}

Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r]
Log(e) == h' = Append(h, e)
Room == Len(heap) < MaxHeap
Skip == Log(Ev("skip", 0, <<>>, "", "ok", 0)) /\ UNCHANGED <<hp, heap, evs, its>>
NewC(op, s, a, k, c) ==
    IF \E x \in DOMAIN c : c[x] > MaxCount THEN Skip
    ELSE /\ heap' = Append(heap, [c |-> c, live |-> TRUE])
         /\ Log(Ev(op, s, a, k, "new", Pairs(c)))
         /\ UNCHANGED <<hp, evs, its>>
Keep(op, s, a, k, o, r) == Log(Ev(op, s, a, k, o, r)) /\ UNCHANGED <<hp, heap, evs, its>>
Upd(op, s, a, k, c) == IF Kind = "set" /\ c = C(s) THEN Keep(op, s, a, k, "same", s) ELSE NewC(op, s, a, k, c)
B(x) == IF x THEN 1 ELSE 0

\* a set may be combined with a checked set (of any element type); the result stays a plain set
Checkd == IF Kind = "set" THEN {"checked"} ELSE {}
More == IF Mode = "sim" THEN {"tuple", "old", "hint"} ELSE {}
New == \E xs \in ElSeqs(Len(h)) : \E k \in Pick({"list", "gen", "set", "own", "args", "keys"} \cup Checkd \cup More) : \E p \in Pick(PreSizes) :
         NewC("new", 0, <<xs, p>>, k, AddAll(Empty, xs))
Add == \E s \in Pick(Live) : \E x \in AnyEl(C(s)) : Upd("add", s, <<x>>, "", AddOne(C(s), x))
Update == \E s \in Pick(Live) : \E xs \in ElSeqs(Len(h)) : \E k \in Pick({"list", "gen", "own"} \cup Checkd \cup More) :
            IF xs = <<>> /\ (Kind = "set" \/ k = "list") THEN Keep("update", s, <<xs>>, k, "same", s)
            ELSE Upd("update", s, <<xs>>, k, AddAll(C(s), xs))
Remove == \E s \in Pick(Live) : \E x \in OldEl(C(s)) :
            IF x \notin D(s) THEN Keep("remove", s, <<x>>, "", "err", "KeyError")
            ELSE NewC("remove", s, <<x>>, "", IF C(s)[x] = 1 THEN Del(C(s), x) ELSE Put(C(s), x, C(s)[x] - 1))
Discard == \E s \in Pick(Live) : \E x \in OldEl(C(s)) : Upd("discard", s, <<x>>, "", Del(C(s), x))
BinOps == IF Kind = "set" THEN {"or", "and", "sub", "xor"} ELSE {"or", "and", "sub", "add"}
Operand == IF Kind = "set" THEN {"own", "set", "frozenset", "checked", "m-own", "m-set", "m-list", "m-checked"} ELSE {"own"}
\* a builtin set may also stand on the left
Left == IF Kind = "set" THEN {"l-set", "l-frozenset"} ELSE {}
Binary == \E s \in Pick(Live), t \in Pick(Live) : \E op \in Pick(BinOps) : \E k \in Pick(Operand \cup Left) :
            NewC("bin", s, <<t, op>>, k, IF k \in Left THEN Bin(op, C(t), C(s)) ELSE Bin(op, C(s), C(t)))
RelOps == IF Kind = "set" THEN {"le", "lt", "ge", "gt", "isdisjoint", "eq"} ELSE {"eq"}
Relation == \E s \in Pick(Live), t \in Pick(Live) : \E op \in Pick(RelOps) : \E k \in Pick(Operand) :
            Keep("rel", s, <<t, op>>, k, "val", B(Rel(op, C(s), C(t))))
Contains == \E s \in Pick(Live) : \E x \in OldEl(C(s)) : Keep("contains", s, <<x>>, "", "val", B(x \in D(s)))
Count == \E s \in Pick(Live) : \E x \in OldEl(C(s)) : Keep("count", s, <<x>>, "", "val", Cnt(C(s), x))
CopyC == \E s \in Pick(Live) : Keep("copy", s, <<>>, "", "same", s)
RoundTrip == \E s \in Pick(Live) : \E k \in Pick({"p0", "p1", "p2", "p3", "p4", "p5", "copy", "deepcopy"}) :
         NewC("rt", s, <<>>, k, C(s))
Rebuild == \E s \in Pick(Live) : \E k \in Pick({"list", "adds", "evolver", "rev", "addrem"}) : \E p \in Pick(PreSizes) :
         NewC("rebuild", s, <<p>>, k, C(s))
\* nearly the same: one element replaced, or (bag) one more of it
Near == \E s \in Pick(Live) : IF D(s) = {} THEN Skip
         ELSE \E x \in Pick(D(s)), y \in Pick(Els) :
              IF Kind = "bag" THEN NewC("near", s, <<x, x>>, "more", AddOne(C(s), x))
              ELSE NewC("near", s, <<x, y>>, "swap", Put(Del(C(s), x), y, 1))
IterNew == IF Len(its) >= 4 THEN Skip
           ELSE \E s \in Pick(Live) :
                /\ its' = Append(its, [c |-> C(s), p |-> 0, live |-> TRUE])
                /\ Log(Ev("iter", s, <<>>, "", "newit", 0))
                /\ UNCHANGED <<hp, heap, evs>>
IterNext == IF OpenI = {} THEN Skip
            ELSE \E i \in Pick(OpenI) : \E k \in Pick({1, 2, 100}) :
         LET n == Size(its[i].c)
             m == IF k < n - its[i].p THEN k ELSE n - its[i].p
         IN /\ its' = [its EXCEPT ![i].p = @ + m, ![i].live = (m = k)]
            /\ Log(Ev("next", i, <<k>>, "", "seq", <<Pairs(its[i].c), m>>))
            /\ UNCHANGED <<hp, heap, evs>>
Drop == IF Cardinality(Live) <= 1 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ heap' = [heap EXCEPT ![s].live = FALSE]
             /\ Log(Ev("drop", s, <<>>, "", "ok", 0))
             /\ UNCHANGED <<hp, evs, its>>

EvState(op, e, a, k, c) ==
    LET d == IF c = evs[e].c THEN evs[e].dirty ELSE 1
    IN /\ evs' = [evs EXCEPT ![e].c = c, ![e].dirty = d]
       /\ Log(Ev(op, e, a, k, "ev", <<Pairs(c), d>>))
       /\ UNCHANGED <<hp, heap, its>>
ENew == IF Len(evs) >= 5 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ evs' = Append(evs, [c |-> C(s), base |-> s, dirty |-> 0, live |-> TRUE])
             /\ Log(Ev("enew", s, <<>>, "", "newev", <<Pairs(C(s)), 0>>))
             /\ UNCHANGED <<hp, heap, its>>
EAdd == \E e \in Pick(LiveE) : \E x \in AnyEl(evs[e].c) : EvState("eadd", e, <<x>>, "", AddOne(evs[e].c, x))
ERemove == \E e \in Pick(LiveE) : \E x \in OldEl(evs[e].c) :
             IF x \in DOMAIN evs[e].c THEN EvState("eremove", e, <<x>>, "", Del(evs[e].c, x))
             ELSE Keep("eremove", e, <<x>>, "", "err", "KeyError")
EPersist == \E e \in Pick(LiveE) :
                 IF evs[e].dirty = 0 /\ heap[evs[e].base].live
                 THEN Keep("epersist", e, <<>>, "", "same", evs[e].base)
                 ELSE /\ heap' = Append(heap, [c |-> evs[e].c, live |-> TRUE])
                      /\ evs' = [evs EXCEPT ![e].dirty = 0, ![e].base = Len(heap) + 1]
                      /\ Log(Ev("epersist", e, <<>>, "", "new", Pairs(evs[e].c)))
                      /\ UNCHANGED <<hp, its>>
\* unhashable elements and operands of another kind are rejected and change nothing; a set equals no other kind of object
BadKinds == IF Kind = "set" THEN {"new", "add", "update", "remove", "discard", "contains", "or", "and", "sub", "le", "lt", "foreign", "setattr", "setitem"}
            ELSE {"new", "add", "update", "contains", "or", "and", "sub", "plus", "eq", "plusset", "sublist", "setattr", "setitem"}
Bad == \E s \in Pick(Live) : \E k \in Pick(BadKinds) :
         IF k = "foreign" THEN Keep("bad", s, <<>>, k, "val", 0)
         ELSE Keep("bad", s, <<>>, k, "err", IF k = "setattr" THEN "AttributeError" ELSE "TypeError")
EDrop == \E e \in Pick(LiveE) :
              /\ evs' = [evs EXCEPT ![e].live = FALSE]
              /\ Log(Ev("edrop", e, <<>>, "", "ok", 0))
              /\ UNCHANGED <<hp, heap, its>>

InitEls == IF Mode = "sim" THEN {[i \in 1..n |-> i] : n \in {k \in {0, 3, 5, 12, 13, 24, 25, 86, 171, 172} : k <= K}}
           ELSE {<<>>, [i \in 1..(K - 1) |-> i]}
Init == \E p \in Patterns, xs \in InitEls, z \in PreSizes :
          /\ hp = p
          /\ heap = <<[c |-> AddAll(Empty, xs), live |-> TRUE]>>
          /\ evs = <<>> /\ its = <<>>
          /\ h = <<Ev("hash", 0, <<K>>, p, "ok", 0), Ev("new", 0, <<xs, z>>, "list", "new", Pairs(AddAll(Empty, xs)))>>

Creating == {"new", "add", "update", "remove", "discard", "bin", "rt", "rebuild", "near", "epersist"}
OnEvolver == {"eadd", "eremove", "epersist", "edrop"}
Do(op) ==
    IF op \in Creating /\ ~Room THEN Skip
    ELSE IF op \in OnEvolver /\ LiveE = {} THEN ENew
    ELSE CASE op = "new" -> New
           [] op = "add" -> Add
           [] op = "update" -> Update
           [] op = "remove" -> Remove
           [] op = "discard" -> Discard
           [] op = "bin" -> Binary
           [] op = "rel" -> Relation
           [] op = "contains" -> Contains
           [] op = "count" -> Count
           [] op = "copy" -> CopyC
           [] op = "bad" -> Bad
           [] op = "rt" -> RoundTrip
           [] op = "rebuild" -> Rebuild
           [] op = "near" -> Near
           [] op = "iter" -> IterNew
           [] op = "next" -> IterNext
           [] op = "drop" -> Drop
           [] op = "enew" -> ENew
           [] op = "eadd" -> EAdd
           [] op = "eremove" -> ERemove
           [] op = "epersist" -> EPersist
           [] op = "edrop" -> EDrop

SUpd  == <<"new", "new", "add", "add", "add", "update", "remove", "remove", "discard", "bin", "bin", "bin", "bin">>
SRead == <<"rel", "rel", "rel", "contains", "iter", "next", "next", "copy", "drop", "rebuild", "near">>
SEv   == <<"enew", "eadd", "eadd", "eadd", "eremove", "eremove", "epersist", "epersist", "epersist">>
SetAll  == SUpd \o SRead \o SEv \o <<"edrop", "bad">>
SetFun  == SUpd \o SUpd \o SRead \o <<"bad">>
SetTx   == SEv \o SEv \o SUpd \o <<"drop">>
SetEq   == SUpd \o SEv \o <<"near", "near", "near", "rebuild", "rebuild", "rebuild", "rel">>
SetRT   == SUpd \o SEv \o <<"rt", "rt", "rt", "rt", "rel", "contains">>
SetSame == SUpd \o <<"discard", "discard", "add", "add", "update", "copy">> \o SEv
SetBfs  == <<"add", "remove", "discard", "bin", "rel", "contains">>
SetBfsEv == <<"enew", "eadd", "eremove", "epersist", "add">>
BUpd  == <<"new", "new", "add", "add", "add", "update", "update", "remove", "remove", "remove", "bin", "bin", "bin", "bin">>
BRead == <<"rel", "rel", "contains", "count", "count", "iter", "next", "next", "drop", "rebuild", "near">>
BagAll == BUpd \o BUpd \o BRead \o <<"bad">>
BagEq  == BUpd \o <<"near", "near", "near", "rebuild", "rebuild", "rebuild", "rel">>
BagRT  == BUpd \o <<"rt", "rt", "rt", "rt", "rel", "count">>
BagBfs == <<"add", "remove", "bin", "count">>

Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

Persistence == [][\A i \in 1..Len(heap) : heap'[i].c = heap[i].c]_vars
Isolation == [][Cardinality({e \in 1..Len(evs) : evs'[e].c # evs[e].c}) <= 1]_vars
CleanIsBase == \A e \in 1..Len(evs) : evs[e].dirty = 0 => evs[e].c = heap[evs[e].base].c
TypeOK == \A i \in 1..Len(heap) : D(i) \subseteq Els /\ \A x \in D(i) : C(i)[x] >= 1 /\ (Kind = "set" => C(i)[x] = 1)
\* laws of the algebra the results are computed with
Laws == \A i, j \in Live :
          /\ Bin("or", C(i), C(j)) = Bin("or", C(j), C(i))
          /\ Bin("and", C(i), C(j)) = Bin("and", C(j), C(i))
          /\ (Rel("le", C(i), C(j)) /\ Rel("le", C(j), C(i))) => D(i) = D(j)
          /\ Kind = "set" => Bin("xor", C(i), C(j)) = Bin("sub", Bin("or", C(i), C(j)), Bin("and", C(i), C(j)))
          /\ Kind = "bag" => Size(Bin("add", C(i), C(j))) = Size(Bin("or", C(i), C(j))) + Size(Bin("and", C(i), C(j)))

Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
