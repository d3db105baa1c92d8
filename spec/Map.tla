-------------------------------- MODULE Map ---------------------------------
(* The persistent map, its evolvers, iterators and views, over all values     *)
(* ever produced.                                                             *)
(*                                                                            *)
(*   hp   : how the keys 1..K hash (chosen once per behaviour; no result may  *)
(*          depend on it)                                                     *)
(*   heap : every map handed out (content: a function from some keys to       *)
(*          values)                                                           *)
(*   evs  : every evolver (content, the map it is based on, changed or not)   *)
(*   its  : open iterators and views                                          *)
(*                                                                            *)
(* Values are numbers; 2i and 2i+1 are equal but distinguishable objects, so  *)
(* "nothing changed" (same object) and "equal" are different things.          *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode,      \* "sim": random parameters, "bfs": all parameters
          Depth, K, Patterns, OpSeq, MaxHeap, PreSizes, Batch

VARIABLES hp, heap, evs, its, nxt, h
vars == <<hp, heap, evs, its, nxt, h>>

Keys == 1..K
Empty == [x \in {} |-> 0]
Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Live  == {i \in 1..Len(heap) : heap[i].live}
LiveE == {i \in 1..Len(evs) : evs[i].live}
OpenI == {i \in 1..Len(its) : its[i].live}
C(i)  == heap[i].c
D(i)  == DOMAIN heap[i].c
VEq(v, w) == v \div 2 = w \div 2
MEq(c, d) == DOMAIN c = DOMAIN d /\ \A k \in DOMAIN c : VEq(c[k], d[k])
\* what a map shows: its bindings, each with the key object it holds (the one first inserted; an equal key set later
\* replaces the value, not the key).  A key object is named by the event that made it.
Pairs(c, q) == {<<k, c[k], q[k]>> : k \in DOMAIN c}
Reps(c, q) == [x \in DOMAIN c |-> IF x \in DOMAIN q THEN q[x] ELSE Len(h) + 1]
Put(c, k, v) == [x \in DOMAIN c \cup {k} |-> IF x = k THEN v ELSE c[x]]
Del(c, k) == [x \in DOMAIN c \ {k} |-> c[x]]
\* all bindings of a sequence, the last one for a key winning
PutAll(c, ps) ==
    LET at(x) == {i \in 1..Len(ps) : ps[i][1] = x}
    IN [x \in DOMAIN c \cup {ps[i][1] : i \in 1..Len(ps)} |->
          LET I == at(x) IN IF I = {} THEN c[x] ELSE ps[CHOOSE i \in I : \A j \in I : j <= i][2]]
FromSeq(ps) == PutAll(Empty, ps)

\* merging, as update_with does it: key by key, map by map
Merged(f, l, r) == CASE f = "left" -> l
                     [] f = "right" -> r
                     [] f = "fresh" -> 500 + 2 * (l + 3 * r)
Merge(f, c, d) == [x \in DOMAIN c \cup DOMAIN d |->
                     IF x \notin DOMAIN d THEN c[x]
                     ELSE IF x \notin DOMAIN c THEN d[x]
                     ELSE Merged(f, c[x], d[x])]

\* a key: in simulation mostly one of c's (old) or mostly not (new)
OldKey(c) == IF Mode = "sim"
             THEN {IF DOMAIN c # {} /\ RandomElement(1..5) > 1 THEN RandomElement(DOMAIN c) ELSE RandomElement(Keys)}
             ELSE Keys
AnyKey(c) == IF Mode = "sim"
             THEN {IF DOMAIN c # Keys /\ RandomElement(1..2) = 1 THEN RandomElement(Keys \ DOMAIN c) ELSE RandomElement(Keys)}
             ELSE Keys
\* a value to bind k to: fresh, the one it has, or an equal but different object
Val(c, k) == IF Mode = "sim"
             THEN {IF k \in DOMAIN c /\ RandomElement(1..3) = 1 THEN c[k]
                   ELSE IF k \in DOMAIN c /\ c[k] >= 20 /\ RandomElement(1..3) = 1
                        THEN (IF c[k] % 2 = 0 THEN c[k] + 1 ELSE c[k] - 1)
                   ELSE IF RandomElement(1..6) = 1 THEN RandomElement({2, 4, 6, 8})
                   ELSE nxt}
             ELSE {nxt} \cup (IF k \in DOMAIN c THEN {c[k]} ELSE {})
\* a small batch of bindings
RECURSIVE RndPairs(_)
RndPairs(n) == IF n = 0 THEN <<>> ELSE Append(RndPairs(n - 1), <<RandomElement(Keys), nxt + 2 * n>>)
PairSeqs == IF Mode = "sim" THEN {RndPairs(RandomElement(Batch))}
            ELSE {<<>>} \cup {<<<<k, nxt + 2>>>> : k \in Keys} \cup {<<<<1, nxt + 2>>, <<K, nxt + 4>>>>}
Nx(ps) == nxt + 2 * Len(ps) + 2

Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r, t |-> Len(h) + 1]
Log(e) == h' = Append(h, e)
Room == Len(heap) < MaxHeap
Skip == Log(Ev("skip", 0, <<>>, "", "ok", 0)) /\ UNCHANGED <<hp, heap, evs, its, nxt>>
NewMapQ(op, s, a, k, c, nx, q0) ==
    LET q == Reps(c, q0)
    IN /\ heap' = Append(heap, [c |-> c, q |-> q, live |-> TRUE])
       /\ nxt' = nx
       /\ Log(Ev(op, s, a, k, "new", Pairs(c, q)))
       /\ UNCHANGED <<hp, evs, its>>
NewMap(op, s, a, k, c, nx) == NewMapQ(op, s, a, k, c, nx, IF s > 0 THEN heap[s].q ELSE Empty)
Keep(op, s, a, k, o, r) == Log(Ev(op, s, a, k, o, r)) /\ UNCHANGED <<hp, heap, evs, its, nxt>>
\* the result of an update: the very same map when no binding changed
Upd(op, s, a, k, c, nx) == IF c = C(s) THEN Keep(op, s, a, k, "same", s) ELSE NewMap(op, s, a, k, c, nx)
Q(i) == heap[i].q

\* unhashable keys and wrong operands are rejected and change nothing; no other kind of object is equal
Bad == \E s \in Pick(Live) : \E k \in Pick({"new", "set", "get", "getm", "contains", "remove", "discard", "eset", "eget", "eremove", "lt", "setitem", "setattr", "foreign", "foreignlist"}) :
         IF k \in {"foreign", "foreignlist"} THEN Keep("bad", s, <<>>, k, "val", 0)
         ELSE Keep("bad", s, <<>>, k, "err", IF k = "setattr" THEN "AttributeError" ELSE "TypeError")
New == \E ps \in PairSeqs : \E k \in Pick({"dict", "pairs", "gen", "pmap", "kw"} \cup (IF Mode = "sim" THEN {"proxy", "defdict", "bindings"} ELSE {})) : \E p \in Pick(PreSizes) :
         NewMap("new", 0, <<ps, p>>, k, FromSeq(ps), Nx(ps))
Set == \E s \in Pick(Live) : \E k \in AnyKey(C(s)) : \E v \in Val(C(s), k) :
         Upd("set", s, <<k, v>>, "", Put(C(s), k, v), nxt + 2)
Remove == \E s \in Pick(Live) : \E k \in OldKey(C(s)) :
         IF k \in D(s) THEN NewMap("remove", s, <<k>>, "", Del(C(s), k), nxt)
         ELSE Keep("remove", s, <<k>>, "", "err", "KeyError")
Discard == \E s \in Pick(Live) : \E k \in OldKey(C(s)) :
         Upd("discard", s, <<k>>, "", Del(C(s), k), nxt)
Update == \E s \in Pick(Live) : \E ps \in PairSeqs : \E k \in Pick({"dict", "two", "pmap", "plus", "or", "checked", "record"} \cup (IF Mode = "sim" THEN {"three", "proxy", "bindings"} ELSE {})) :
         Upd("update", s, <<ps>>, k, PutAll(C(s), ps), Nx(ps))
Update0 == \E s \in Pick(Live) : \E k \in Pick({"none", "empty"}) : Keep("update0", s, <<>>, k, "same", s)
UpdateM == \E s \in Pick(Live), t \in Pick(Live) : \E k \in Pick({"m", "plus", "or"}) :
         LET c == Merge("right", C(s), C(t))
         IN IF c = C(s) THEN Keep("updatem", s, <<t>>, k, "same", s)
            ELSE NewMapQ("updatem", s, <<t>>, k, c, nxt, Merge("left", Q(s), Q(t)))
UpdateWith == \E s \in Pick(Live), t \in Pick(Live), u \in Pick(Live) : \E f \in Pick({"left", "right", "fresh"}) : \E two \in Pick({0, 1}) :
         LET c1 == Merge(f, C(s), C(t))
             c2 == IF two = 1 THEN Merge(f, c1, C(u)) ELSE c1
         IN IF \E k \in DOMAIN c2 : c2[k] > 500000000 THEN Skip
            ELSE LET a == IF two = 1 THEN <<t, u>> ELSE <<t>>
                     q == IF two = 1 THEN Merge("left", Merge("left", Q(s), Q(t)), Q(u)) ELSE Merge("left", Q(s), Q(t))
                 IN IF c1 = C(s) /\ c2 = C(s) THEN Keep("updatewith", s, a, f, "same", s)
                    ELSE NewMapQ("updatewith", s, a, f, c2, nxt, q)   \* changed, perhaps back again
\* transform with a literal key
Transform == \E s \in Pick(Live) : \E k \in AnyKey(C(s)) : \E v \in Val(C(s), k) : \E w \in Pick({"const", "fun", "discard"}) :
         IF w = "discard" THEN Upd("transform", s, <<k, 0>>, w, Del(C(s), k), nxt)
         ELSE IF w = "fun" /\ k \notin D(s) THEN Skip
         ELSE Upd("transform", s, <<k, v>>, w, Put(C(s), k, v), nxt + 2)
CopyM == \E s \in Pick(Live) : Keep("copy", s, <<>>, "", "same", s)
RoundTrip == \E s \in Pick(Live) : \E k \in Pick({"p0", "p1", "p2", "p3", "p4", "p5", "copy", "deepcopy"}) :
         NewMap("rt", s, <<>>, k, C(s), nxt)
\* the same bindings produced another way: other size hint, other order of insertion
Rebuild == \E s \in Pick(Live) : \E k \in Pick({"dict", "sets", "evolver", "rev", "addrem"}) : \E p \in Pick(PreSizes) :
         NewMapQ("rebuild", s, <<p>>, k, C(s), nxt, Empty)
\* nearly the same: one value replaced by a different one, or one key by another
Near == \E s \in Pick(Live) : IF D(s) = {} THEN Skip
         ELSE \E k \in Pick(D(s)), l \in Pick(Keys) : \E w \in Pick({"val", "key", "twin"}) :
              IF w = "val" THEN NewMapQ("near", s, <<k, k, nxt>>, w, Put(C(s), k, nxt), nxt + 2, Del(Q(s), k))
              ELSE IF w = "twin" THEN (IF C(s)[k] < 20 THEN Skip
                   ELSE NewMapQ("near", s, <<k, k, IF C(s)[k] % 2 = 0 THEN C(s)[k] + 1 ELSE C(s)[k] - 1>>, w,
                               Put(C(s), k, IF C(s)[k] % 2 = 0 THEN C(s)[k] + 1 ELSE C(s)[k] - 1), nxt, Del(Q(s), k)))
              ELSE NewMapQ("near", s, <<k, l, C(s)[k]>>, w, Put(Del(C(s), k), l, C(s)[k]), nxt, Del(Q(s), k))

Get == \E s \in Pick(Live) : \E k \in OldKey(C(s)) : \E w \in Pick({"item", "get", "getd", "in", "attr"}) :
         IF k \in D(s) THEN Keep("get", s, <<k>>, w, "val", IF w = "in" THEN 1 ELSE C(s)[k])
         ELSE CASE w = "item" -> Keep("get", s, <<k>>, w, "err", "KeyError")
                [] w = "attr" -> Keep("get", s, <<k>>, w, "err", "AttributeError")
                [] w = "in"   -> Keep("get", s, <<k>>, w, "val", 0)
                [] w = "get"  -> Keep("get", s, <<k>>, w, "val", -1)      \* None
                [] w = "getd" -> Keep("get", s, <<k>>, w, "val", -2)      \* the default given
\* membership in the views: the binding itself, the key with another value, a value
Member == \E s \in Pick(Live) : \E k \in OldKey(C(s)) : \E w \in Pick({"items", "itemsx", "values", "keys", "pair"}) :
         LET v == IF w # "itemsx" /\ k \in D(s) THEN C(s)[k] ELSE IF nxt % 4 = 0 THEN 2 ELSE nxt
             r == CASE w \in {"items", "itemsx"} -> k \in D(s) /\ VEq(C(s)[k], v)
                    [] w = "values" -> \E x \in D(s) : VEq(C(s)[x], v)
                    [] w = "keys" -> k \in D(s)
                    [] w = "pair" -> FALSE      \* something that is not a pair
         IN Keep("member", s, <<k, v>>, w, "val", IF r THEN 1 ELSE 0)
\* the hash is that of any other map with this content
HashM == \E s \in Pick(Live) : Keep("hashm", s, <<>>, "", "val", 1)
Cmp == \E s \in Pick(Live), t \in Pick(Live) : \E k \in Pick({"map", "dict", "items"}) :
         Keep("cmp", s, <<t>>, k, "val", IF MEq(C(s), C(t)) THEN 1 ELSE 0)

IterNew == IF Len(its) >= 4 THEN Skip
           ELSE \E s \in Pick(Live) : \E k \in Pick({"iter", "iterkeys", "itervalues", "iteritems", "vkeys", "vvalues", "vitems"}) :
                /\ its' = Append(its, [c |-> C(s), q |-> Q(s), k |-> k, p |-> 0, live |-> TRUE])
                /\ Log(Ev("iter", s, <<>>, k, "newit", 0))
                /\ UNCHANGED <<hp, heap, evs, nxt>>
\* r: everything the iterator must yield in total, how many more now, whether it then ends
IterNext == IF OpenI = {} THEN Skip
            ELSE \E i \in Pick(OpenI) : \E k \in Pick({1, 2, 100}) :
         LET n == Cardinality(DOMAIN its[i].c)
             view == its[i].k \in {"vkeys", "vvalues", "vitems"}
             m == IF k < n - its[i].p THEN k ELSE n - its[i].p
         IN /\ its' = IF view THEN its ELSE [its EXCEPT ![i].p = @ + m, ![i].live = (m = k)]
            /\ Log(Ev("next", i, <<k>>, its[i].k, "seq", <<Pairs(its[i].c, its[i].q), IF view THEN n ELSE m>>))
            /\ UNCHANGED <<hp, heap, evs, nxt>>
Drop == IF Cardinality(Live) <= 1 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ heap' = [heap EXCEPT ![s].live = FALSE]
             /\ Log(Ev("drop", s, <<>>, "", "ok", 0))
             /\ UNCHANGED <<hp, evs, its, nxt>>

\* ----------------------------------------------------------------- evolvers
EvState(op, e, a, k, c, nx) ==
    LET d == IF c = evs[e].c THEN evs[e].dirty ELSE 1
        q == Reps(c, evs[e].q)
    IN /\ evs' = [evs EXCEPT ![e].c = c, ![e].q = q, ![e].dirty = d]
       /\ nxt' = nx
       /\ Log(Ev(op, e, a, k, "ev", <<Pairs(c, q), d>>))
       /\ UNCHANGED <<hp, heap, its>>
ENew == IF Len(evs) >= 5 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ evs' = Append(evs, [c |-> C(s), q |-> Q(s), base |-> s, dirty |-> 0, live |-> TRUE])
             /\ Log(Ev("enew", s, <<>>, "", "newev", <<Pairs(C(s), Q(s)), 0>>))
             /\ UNCHANGED <<hp, heap, its, nxt>>
ESet == \E e \in Pick(LiveE) : \E k \in AnyKey(evs[e].c) : \E v \in Val(evs[e].c, k) : \E w \in Pick({"m", "i"}) :
             EvState("eset", e, <<k, v>>, w, Put(evs[e].c, k, v), nxt + 2)
ERemove == \E e \in Pick(LiveE) : \E k \in OldKey(evs[e].c) : \E w \in Pick({"m", "i"}) :
             IF k \in DOMAIN evs[e].c THEN EvState("eremove", e, <<k>>, w, Del(evs[e].c, k), nxt)
             ELSE Keep("eremove", e, <<k>>, w, "err", "KeyError")
EGet == \E e \in Pick(LiveE) : \E k \in OldKey(evs[e].c) : \E w \in Pick({"item", "in"}) :
             IF k \in DOMAIN evs[e].c THEN Keep("eget", e, <<k>>, w, "val", IF w = "in" THEN 1 ELSE evs[e].c[k])
             ELSE IF w = "in" THEN Keep("eget", e, <<k>>, w, "val", 0)
             ELSE Keep("eget", e, <<k>>, w, "err", "KeyError")
EPersist == \E e \in Pick(LiveE) :
                 IF evs[e].dirty = 0 /\ heap[evs[e].base].live
                 THEN Keep("epersist", e, <<>>, "", "same", evs[e].base)
                 ELSE /\ heap' = Append(heap, [c |-> evs[e].c, q |-> evs[e].q, live |-> TRUE])
                      /\ evs' = [evs EXCEPT ![e].dirty = 0, ![e].base = Len(heap) + 1]
                      /\ Log(Ev("epersist", e, <<>>, "", "new", Pairs(evs[e].c, evs[e].q)))
                      /\ UNCHANGED <<hp, its, nxt>>
EDrop == \E e \in Pick(LiveE) :
              /\ evs' = [evs EXCEPT ![e].live = FALSE]
              /\ Log(Ev("edrop", e, <<>>, "", "ok", 0))
              /\ UNCHANGED <<hp, heap, its, nxt>>

InitPairs == IF Mode = "sim" THEN {<<>>} \cup {[i \in 1..n |-> <<i, 2 * i>>] : n \in {k \in {3, 5, 12, 13, 24, 25, 86, 171, 172} : k <= K}}
             ELSE {<<>>, [i \in 1..(K - 1) |-> <<i, 2 * i>>]}
Init == \E p \in Patterns, ps \in InitPairs, z \in PreSizes :
          /\ hp = p
          /\ heap = <<[c |-> FromSeq(ps), q |-> [x \in DOMAIN FromSeq(ps) |-> 2], live |-> TRUE]>>
          /\ evs = <<>> /\ its = <<>>
          /\ nxt = 20 + 2 * Len(ps)
          /\ h = <<[op |-> "hash", s |-> 0, a |-> <<K>>, k |-> p, o |-> "ok", r |-> 0, t |-> 1],
                   [op |-> "new", s |-> 0, a |-> <<ps, z>>, k |-> "dict", o |-> "new", t |-> 2,
                    r |-> {<<x, FromSeq(ps)[x], 2>> : x \in DOMAIN FromSeq(ps)}]>>

Creating == {"new", "set", "remove", "discard", "update", "updatem", "updatewith", "transform", "rt", "rebuild", "near", "epersist"}
OnEvolver == {"eset", "eremove", "eget", "epersist", "edrop"}
Do(op) ==
    IF op \in Creating /\ ~Room THEN Skip
    ELSE IF op \in OnEvolver /\ LiveE = {} THEN ENew
    ELSE CASE op = "new" -> New
           [] op = "set" -> Set
           [] op = "remove" -> Remove
           [] op = "discard" -> Discard
           [] op = "update" -> Update
           [] op = "update0" -> Update0
           [] op = "updatem" -> UpdateM
           [] op = "updatewith" -> UpdateWith
           [] op = "transform" -> Transform
           [] op = "copy" -> CopyM
           [] op = "rt" -> RoundTrip
           [] op = "rebuild" -> Rebuild
           [] op = "near" -> Near
           [] op = "get" -> Get
           [] op = "bad" -> Bad
           [] op = "cmp" -> Cmp
           [] op = "member" -> Member
           [] op = "hashm" -> HashM
           [] op = "iter" -> IterNew
           [] op = "next" -> IterNext
           [] op = "drop" -> Drop
           [] op = "enew" -> ENew
           [] op = "eset" -> ESet
           [] op = "eremove" -> ERemove
           [] op = "eget" -> EGet
           [] op = "epersist" -> EPersist
           [] op = "edrop" -> EDrop

OpsUpd  == <<"new", "set", "set", "set", "set", "set", "remove", "remove", "remove", "discard", "discard", "update", "update", "updatem", "updatewith", "transform">>
OpsRead == <<"bad", "get", "get", "get", "member", "member", "hashm", "cmp", "cmp", "iter", "next", "next", "update0", "copy", "drop", "rebuild", "near">>
OpsEv   == <<"enew", "enew", "eset", "eset", "eset", "eset", "eset", "eremove", "eremove", "eget", "epersist", "epersist", "epersist">>
OpsAll  == OpsUpd \o OpsRead \o OpsEv \o <<"edrop">>
OpsFun  == OpsUpd \o OpsUpd \o OpsRead
OpsTx   == OpsEv \o OpsEv \o OpsUpd \o <<"drop", "edrop">>
OpsEq   == OpsUpd \o OpsEv \o <<"near", "near", "near", "near", "rebuild", "rebuild", "rebuild", "cmp">>
OpsRT   == OpsUpd \o OpsEv \o <<"rt", "rt", "rt", "rt", "rt", "get", "cmp">>
OpsSame == OpsUpd \o <<"update0", "copy", "discard", "discard", "set", "set", "updatem", "updatewith", "transform">> \o OpsEv
OpsBfsUpd == <<"set", "remove", "discard", "updatem", "get", "member">>
OpsBfsEv  == <<"enew", "eset", "eremove", "epersist", "set">>

Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

Persistence == [][\A i \in 1..Len(heap) : heap'[i].c = heap[i].c /\ heap'[i].q = heap[i].q]_vars
Isolation == [][Cardinality({e \in 1..Len(evs) : evs'[e].c # evs[e].c}) <= 1]_vars
CleanIsBase == \A e \in 1..Len(evs) : evs[e].dirty = 0 => evs[e].c = heap[evs[e].base].c
TypeOK == \A i \in 1..Len(heap) : DOMAIN Q(i) = DOMAIN C(i) /\ DOMAIN C(i) \subseteq Keys /\ \A k \in DOMAIN C(i) : C(i)[k] \in Nat

Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
