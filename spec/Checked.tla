------------------------------ MODULE Checked -------------------------------
(* Checked vectors, sets and maps over all values ever produced.              *)
(*                                                                            *)
(* lv   : the declaration, a chain of classes; level i adds element types,    *)
(*        key types and invariants to those of the levels above it            *)
(* heap : every value handed out: content and the level of its class          *)
(* evs  : evolvers; "bad" counts, by invariant, the violations introduced     *)
(*                                                                            *)
(* An atom 100*t+n stands for a Python object of type t with number n:        *)
(* 1 int, 2 str, 3 float, 4 a subclass of int, 5 None.                        *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, OpSeq, MaxHeap, Kind, Batch, MaxLevels, InitSizes

NONE == 999999999
VARIABLES lv, heap, evs, h
vars == <<lv, heap, evs, h>>

\* ----------------------------------------------------------------- atoms
T(x) == x \div 100
N(x) == x % 100
Nums == IF Mode = "sim" THEN 0..9 ELSE {2, 3}
Atoms == {100 * t + n : t \in 1..4, n \in Nums} \cup {500}
Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Accepts(ts, x) == ts = {} \/ \E t \in ts : T(x) = t \/ (t = 1 /\ T(x) = 4)
InvHolds(i, k, v) == CASE i = "even" -> N(v) % 2 = 0
                       [] i = "small" -> N(v) < 8
                       [] i = "three" -> N(v) # 3
                       [] i = "ksmall" -> N(k) < 7
                       [] i = "kv" -> N(k) # N(v)
InvNames == {"even", "small", "three", "ksmall", "kv"}

\* ----------------------------------------------------------------- declarations
Level(t, k, i) == [t |-> t, k |-> k, i |-> i]
LevelOpts == IF Kind = "map"
             THEN {Level({}, {}, {"kv"}), Level({1}, {}, {}), Level({}, {1, 2}, {"even"}), Level({1, 5}, {2}, {}),
                   Level({3}, {4}, {"ksmall", "small"}), Level({}, {}, {})}
             ELSE {Level({}, {}, {"even"}), Level({1}, {}, {}), Level({2}, {}, {"small"}), Level({1, 3}, {}, {"three", "small"}),
                   Level({4, 5}, {}, {}), Level({}, {}, {})}
Chains == UNION {[1..n -> LevelOpts] : n \in 1..MaxLevels}
Types(l)  == UNION {lv[i].t : i \in 1..l}
KTypes(l) == UNION {lv[i].k : i \in 1..l}
BadType(l, x) == ~Accepts(Types(l), x)
BadKey(l, x)  == Kind = "map" /\ ~Accepts(KTypes(l), x)
Fails(l, k, v) == {p \in {<<i, n>> : i \in 1..l, n \in InvNames} : p[2] \in lv[p[1]].i /\ ~InvHolds(p[2], k, v)}
Good(l, k, v) == ~BadType(l, v) /\ ~BadKey(l, k) /\ Fails(l, k, v) = {}
\* an entry is a pair; for vectors and sets <<x, x>>
RECURSIVE Tally(_, _)
Tally(l, ps) == IF ps = <<>> THEN [n \in InvNames |-> 0]
                ELSE LET rest == Tally(l, Tail(ps))
                         f == Fails(l, ps[1][1], ps[1][2])
                     IN [n \in InvNames |-> rest[n] + Cardinality({p \in f : p[2] = n})]
Plus(a, b) == [n \in InvNames |-> a[n] + b[n]]
Clean == [n \in InvNames |-> 0]
Codes(b) == {<<n, b[n]>> : n \in {m \in InvNames : b[m] > 0}}
BadVals(l, ps) == {ps[i][2] : i \in {j \in 1..Len(ps) : BadType(l, ps[j][2])}}
BadKeys(l, ps) == {ps[i][1] : i \in {j \in 1..Len(ps) : BadKey(l, ps[j][1])}}

\* ----------------------------------------------------------------- contents
Empty == IF Kind = "vec" THEN <<>> ELSE [x \in {} |-> 0]
Put(c, k, v) == [x \in DOMAIN c \cup {k} |-> IF x = k THEN v ELSE c[x]]
Del(c, k) == [x \in DOMAIN c \ {k} |-> c[x]]
AddOne(c, p) == IF Kind = "vec" THEN Append(c, p[2]) ELSE IF Kind = "set" THEN Put(c, p[2], 1) ELSE Put(c, p[1], p[2])
RECURSIVE AddAll(_, _)
AddAll(c, ps) == IF ps = <<>> THEN c ELSE AddAll(AddOne(c, ps[1]), Tail(ps))
Show(c) == IF Kind = "vec" THEN c ELSE {<<k, c[k]>> : k \in DOMAIN c}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Entries(c) == IF Kind = "vec" THEN [i \in 1..Len(c) |-> <<c[i], c[i]>>]
              ELSE LET q == SetSeq(DOMAIN c)
                   IN [i \in 1..Len(q) |-> IF Kind = "set" THEN <<q[i], q[i]>> ELSE <<q[i], c[q[i]]>>]

Live  == {i \in 1..Len(heap) : heap[i].live}
LiveE == {i \in 1..Len(evs) : evs[i].live}
C(i)  == heap[i].c
L(i)  == heap[i].l

\* an entry, conforming to level l more often than not
Ent(l) == IF Mode = "sim"
          THEN LET good == {x \in Atoms : ~BadType(l, x) /\ (Kind = "map" \/ Fails(l, x, x) = {})}
                   v == IF good # {} /\ RandomElement(1..6) > 1 THEN RandomElement(good) ELSE RandomElement(Atoms)
                   gk == {k \in Atoms : Good(l, k, v)}
                   k == IF Kind # "map" THEN v ELSE IF gk # {} /\ RandomElement(1..6) > 1 THEN RandomElement(gk) ELSE RandomElement(Atoms)
               IN {<<k, v>>}
          ELSE IF Kind = "map" THEN {<<k, v>> : k \in {102, 203}, v \in {102, 103, 500}} ELSE {<<x, x>> : x \in Atoms}
RECURSIVE Rnd(_, _)
Rnd(l, n) == IF n = 0 THEN <<>> ELSE LET e == CHOOSE y \in Ent(l) : TRUE IN <<e>> \o Rnd(l, n - 1)
\* sets and maps: one entry per key, the last
RECURSIVE Distinct(_)
Distinct(ps) == IF ps = <<>> \/ Kind = "vec" THEN ps
                ELSE IF \E i \in 2..Len(ps) : ps[i][1] = ps[1][1] THEN Distinct(Tail(ps))
                ELSE <<ps[1]>> \o Distinct(Tail(ps))
Ents(l) == IF Mode = "sim" THEN {Distinct(Rnd(l, RandomElement(Batch)))}
           ELSE {<<>>} \cup {<<e>> : e \in Ent(l)} \cup {Distinct(<<<<102, 102>>, e>>) : e \in Ent(l)}
\* a key of c, or not
Key(c) == IF Mode = "sim" THEN {IF DOMAIN c # {} /\ RandomElement(1..4) > 1 THEN RandomElement(DOMAIN c) ELSE RandomElement(Atoms)}
          ELSE {102, 203}

Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r]
Log(e) == h' = Append(h, e)
Room == Len(heap) < MaxHeap
Skip == Log(Ev("skip", 0, <<>>, "", "ok", 0)) /\ UNCHANGED <<lv, heap, evs>>
Keep(op, s, a, k, o, r) == Log(Ev(op, s, a, k, o, r)) /\ UNCHANGED <<lv, heap, evs>>
NewC(op, s, a, k, c, l) == /\ heap' = Append(heap, [c |-> c, l |-> l, live |-> TRUE])
                           /\ Log(Ev(op, s, a, k, "new", <<Show(c), l>>))
                           /\ UNCHANGED <<lv, evs>>
TypeErr(l, ps) == <<"type", BadKeys(l, ps), BadVals(l, ps), l>>
InvErr(b) == <<"inv", Codes(b)>>
\* the outcome of adding the entries ps to content c, giving a value of level l
Add(op, s, a, k, c, ps, l) ==
    IF BadVals(l, ps) # {} \/ BadKeys(l, ps) # {} THEN Keep(op, s, a, k, "err", TypeErr(l, ps))
    ELSE IF Tally(l, ps) # Clean THEN Keep(op, s, a, k, "err", InvErr(Tally(l, ps)))
    ELSE LET d == AddAll(c, ps)
         IN IF s > 0 /\ d = C(s) /\ L(s) = l /\ (Kind # "vec" \/ ps = <<>>) THEN Keep(op, s, a, k, "same", s)
            ELSE NewC(op, s, a, k, d, l)

New == \E l \in Pick(1..Len(lv)) : \E ps \in Ents(l) : \E k \in Pick({"ctor", "create", "gen", "plain", "pyplain", "list"}) :
         Add("new", 0, <<ps, l>>, k, Empty, ps, l)
\* from an existing value of another (or the same) class of the chain
From == \E s \in Pick(Live) : \E l \in Pick(1..Len(lv)) : \E k \in Pick({"ctor", "create"}) :
         IF k = "create" /\ L(s) >= l THEN Keep("from", s, <<l>>, k, "same", s)
         ELSE LET ps == Entries(C(s))
              IN IF BadVals(l, ps) # {} \/ BadKeys(l, ps) # {} THEN Keep("from", s, <<l>>, k, "err", TypeErr(l, ps))
                 ELSE IF Tally(l, ps) # Clean THEN Keep("from", s, <<l>>, k, "err", InvErr(Tally(l, ps)))
                 ELSE NewC("from", s, <<l>>, k, C(s), l)
AddA == \E s \in Pick(Live) : \E p \in Ent(L(s)) : Add("add", s, p, "", C(s), <<p>>, L(s))
Many == \E s \in Pick(Live) : \E ps \in Ents(L(s)) : \E k \in Pick({"list", "gen", "own", "plus", "with"}) :
          Add("many", s, <<ps>>, k, C(s), ps, L(s))
\* vectors: assignment by position
PutAt == \E s \in Pick(Live) : \E p \in Ent(L(s)) : \E k \in Pick({"set", "mset", "transform", "fun"}) :
           IF Kind = "map"
           THEN (IF k \in {"transform", "fun"} /\ p[1] \in DOMAIN C(s) THEN Add("put", s, p, k, C(s), <<p>>, L(s)) ELSE Skip)
           ELSE IF Kind = "set" THEN Skip
           ELSE \E i \in Pick(0..Len(C(s))) :
             LET l == L(s)
                 x == p[2]
             IN IF k \in {"transform", "fun"} /\ i = Len(C(s)) THEN Skip
                ELSE IF BadType(l, x) THEN Keep("put", s, <<i, x>>, k, "err", TypeErr(l, <<p>>))
                ELSE IF Tally(l, <<p>>) # Clean THEN Keep("put", s, <<i, x>>, k, "err", InvErr(Tally(l, <<p>>)))
                ELSE IF i < Len(C(s)) /\ C(s)[i + 1] = x /\ k \in {"transform", "fun"} THEN Keep("put", s, <<i, x>>, k, "same", s)
                ELSE NewC("put", s, <<i, x>>, k, IF i = Len(C(s)) THEN Append(C(s), x) ELSE [C(s) EXCEPT ![i + 1] = x], l)
PutOut == \E s \in Pick(Live) : IF Kind # "vec" THEN Skip
           ELSE IF \E x \in Atoms : Good(L(s), x, x)
                THEN \E x \in Pick({y \in Atoms : Good(L(s), y, y)}) :
                     Keep("put", s, <<Len(C(s)) + 1, x>>, "set", "err", <<"IndexError">>)
                ELSE Skip
DelA == \E s \in Pick(Live) : \E k \in Pick({"remove", "discard"}) : IF Kind = "vec" THEN Skip
         ELSE \E x \in Key(C(s)) :
           IF x \notin DOMAIN C(s)
           THEN (IF k = "discard" THEN Keep("del", s, <<x>>, k, "same", s) ELSE Keep("del", s, <<x>>, k, "err", <<"KeyError">>))
           ELSE NewC("del", s, <<x>>, k, Del(C(s), x), L(s))
RoundTrip == \E s \in Pick(Live) : \E k \in Pick({"p0", "p1", "p2", "p3", "p4", "p5", "copy", "deepcopy", "serialize"}) :
         NewC("rt", s, <<>>, k, C(s), L(s))
Rebuild == \E s \in Pick(Live) : \E k \in Pick({"ctor", "adds", "evolver"}) : NewC("rebuild", s, <<>>, k, C(s), L(s))
Drop == IF Cardinality(Live) <= 1 THEN Skip
        ELSE \E s \in Pick(Live) : /\ heap' = [heap EXCEPT ![s].live = FALSE]
                                   /\ Log(Ev("drop", s, <<>>, "", "ok", 0))
                                   /\ UNCHANGED <<lv, evs>>

\* ----------------------------------------------------------------- evolvers
Dirty(e, d) == IF Kind = "vec" THEN IF evs[e].dirty = 1 THEN 1 ELSE IF d THEN 2 ELSE evs[e].dirty
               ELSE IF d THEN 1 ELSE evs[e].dirty
EvState(op, e, a, k, c, dirty) ==
    /\ evs' = [evs EXCEPT ![e].c = c, ![e].dirty = dirty]
    /\ Log(Ev(op, e, a, k, "ev", <<Show(c), dirty>>))
    /\ UNCHANGED <<lv, heap>>
\* introduce entries: rejected for a type, remembered for an invariant
EvAdd(op, e, a, k, ps, c, dirty) ==
    LET l == evs[e].l
        t == Tally(l, ps)
    IN IF BadVals(l, ps) # {} \/ BadKeys(l, ps) # {}
       THEN Keep(op, e, a, k, "err", TypeErr(l, ps))
       ELSE IF t # Clean \/ evs[e].bad # Clean
       THEN /\ evs' = [evs EXCEPT ![e].bad = Plus(@, t)]
            /\ Log(Ev(op, e, a, k, "ok", 0))
            /\ UNCHANGED <<lv, heap>>
       ELSE EvState(op, e, a, k, c, dirty)
ENew == IF Len(evs) >= 5 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ evs' = Append(evs, [c |-> C(s), base |-> s, dirty |-> 0, live |-> TRUE, l |-> L(s), bad |-> Clean])
             /\ Log(Ev("enew", s, <<>>, "", "newev", <<Show(C(s)), 0>>))
             /\ UNCHANGED <<lv, heap>>
EAdd == \E e \in Pick(LiveE) : \E p \in Ent(evs[e].l) : \E k \in Pick({"m", "i"}) :
          LET c == AddOne(evs[e].c, p)
          IN EvAdd("eadd", e, p, k, <<p>>, c, IF Kind = "vec" THEN 1 ELSE Dirty(e, c # evs[e].c))
EMany == \E e \in Pick(LiveE) : \E ps \in Ents(evs[e].l) : \E k \in Pick({"list", "gen"}) :
          IF Kind # "vec" THEN Skip
          ELSE EvAdd("emany", e, <<ps>>, k, ps, AddAll(evs[e].c, ps), IF ps = <<>> THEN evs[e].dirty ELSE 1)
EPut == \E e \in Pick(LiveE) : \E p \in Ent(evs[e].l) : \E k \in Pick({"m", "i"}) :
          IF Kind # "vec" THEN Skip
          ELSE \E i \in Pick(0..Len(evs[e].c)) :
               EvAdd("eput", e, <<i, p[2]>>, k, <<p>>,
                     IF i = Len(evs[e].c) THEN Append(evs[e].c, p[2]) ELSE [evs[e].c EXCEPT ![i + 1] = p[2]],
                     IF i < Len(evs[e].c) /\ evs[e].c[i + 1] = p[2] THEN Dirty(e, TRUE) ELSE 1)
EDel == \E e \in Pick(LiveE) : \E k \in Pick({"m", "i"}) :
          IF evs[e].bad # Clean THEN Skip
          ELSE IF Kind = "vec"
          THEN IF evs[e].c = <<>> THEN Keep("edel", e, <<0>>, k, "err", <<"IndexError">>)
               ELSE \E i \in Pick(1..Len(evs[e].c)) :
                    EvState("edel", e, <<i - 1>>, k, SubSeq(evs[e].c, 1, i - 1) \o SubSeq(evs[e].c, i + 1, Len(evs[e].c)), 1)
          ELSE \E x \in Key(evs[e].c) :
                    IF x \notin DOMAIN evs[e].c THEN Keep("edel", e, <<x>>, k, "err", <<"KeyError">>)
                    ELSE EvState("edel", e, <<x>>, k, Del(evs[e].c, x), 1)
EPersist == \E e \in Pick(LiveE) :
              IF evs[e].bad # Clean
              THEN /\ evs' = [evs EXCEPT ![e].live = FALSE]
                   /\ Log(Ev("epersist", e, <<>>, "", "err", InvErr(evs[e].bad)))
                   /\ UNCHANGED <<lv, heap>>
              ELSE IF evs[e].dirty = 0 /\ heap[evs[e].base].live
              THEN Keep("epersist", e, <<>>, "", "same", evs[e].base)
              ELSE /\ heap' = Append(heap, [c |-> evs[e].c, l |-> evs[e].l, live |-> TRUE])
                   /\ evs' = [evs EXCEPT ![e].dirty = 0, ![e].base = Len(heap) + 1]
                   /\ Log(Ev("epersist", e, <<>>, "", "new", <<Show(evs[e].c), evs[e].l>>))
                   /\ UNCHANGED lv

\* ----------------------------------------------------------------- behaviours
Fill(l, n) == LET good == {p \in (IF Kind = "map" THEN {<<a, b>> : a \in Atoms, b \in Atoms} ELSE {<<a, a>> : a \in Atoms}) : Good(l, p[1], p[2])}
              IN IF good = {} THEN <<>> ELSE LET g == CHOOSE p \in good : TRUE IN [i \in 1..n |-> g]
Init == \E ch \in Chains, n \in InitSizes :
          /\ lv = ch
          /\ evs = <<>>
          /\ LET l == Len(ch)
                 ps == Fill(l, IF Kind = "vec" THEN n ELSE IF n > 0 THEN 1 ELSE 0)
             IN /\ heap = <<[c |-> AddAll(Empty, ps), l |-> l, live |-> TRUE]>>
                /\ h = <<Ev("decl", 0, ch, Kind, "ok", 0), Ev("new", 0, <<ps, l>>, "ctor", "new", <<Show(AddAll(Empty, ps)), l>>)>>

Creating == {"new", "from", "add", "many", "put", "del", "rt", "rebuild", "epersist"}
OnEvolver == {"eadd", "emany", "eput", "edel", "epersist"}
Do(op) ==
    IF op \in Creating /\ ~Room THEN Skip
    ELSE IF op \in OnEvolver /\ LiveE = {} THEN ENew
    ELSE CASE op = "new" -> New
           [] op = "from" -> From
           [] op = "add" -> AddA
           [] op = "many" -> Many
           [] op = "put" -> PutAt
           [] op = "putout" -> PutOut
           [] op = "del" -> DelA
           [] op = "rt" -> RoundTrip
           [] op = "rebuild" -> Rebuild
           [] op = "drop" -> Drop
           [] op = "enew" -> ENew
           [] op = "eadd" -> EAdd
           [] op = "emany" -> EMany
           [] op = "eput" -> EPut
           [] op = "edel" -> EDel
           [] op = "epersist" -> EPersist

Upd == <<"new", "new", "from", "from", "add", "add", "add", "many", "many", "many", "put", "put", "put", "putout", "del", "del">>
Evo == <<"enew", "enew", "eadd", "eadd", "eadd", "emany", "eput", "eput", "edel", "epersist", "epersist", "epersist">>
OpsAll == Upd \o Evo \o <<"rt", "rt", "drop">>
OpsTx  == Upd \o Evo \o Evo
OpsEq  == Upd \o Evo \o <<"rebuild", "rebuild", "rebuild", "rebuild">>
OpsRT  == Upd \o Evo \o <<"rt", "rt", "rt", "rt">>
OpsSame == Upd \o <<"add", "add", "many", "put", "put", "del", "del", "from">> \o Evo
OpsBfs == <<"new", "from", "add", "many", "put">>
OpsBfsEv == <<"enew", "eadd", "eput", "edel", "epersist">>

Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

\* the property: nothing that exists breaks its declaration
\* (each value when it is the newest; Persistence says it stays as it was)
Conform == LET i == Len(heap)
               c == C(i)
           IN IF Kind = "vec" THEN \A j \in 1..Len(c) : Good(L(i), c[j], c[j])
              ELSE \A k \in DOMAIN c : IF Kind = "set" THEN Good(L(i), k, k) ELSE Good(L(i), k, c[k])
Persistence == [][\A i \in 1..Len(heap) : heap'[i].c = heap[i].c /\ heap'[i].l = heap[i].l]_vars
Isolation == [][Cardinality({e \in 1..Len(evs) : evs'[e].c # evs[e].c}) <= 1]_vars
CleanIsBase == \A e \in 1..Len(evs) : evs[e].dirty = 0 => evs[e].c = heap[evs[e].base].c

Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
