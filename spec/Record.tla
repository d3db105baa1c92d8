------------------------------- MODULE Record -------------------------------
(* Records (Kind = "rec") and class instances (Kind = "cls") with declared    *)
(* fields, over all instances ever produced.                                  *)
(*                                                                            *)
(* decl : field number -> declaration; glob : the invariants on the whole     *)
(* heap : every instance: a function from the fields present to atoms         *)
(* evs  : evolvers                                                            *)
(*                                                                            *)
(* Atoms 100*t+n as in Checked.tla; field 9 is one that is never declared.    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, OpSeq, MaxHeap, Kind, NF, Opts, Globs

NONE == 999999999
VARIABLES decl, glob, heap, evs, h
vars == <<decl, glob, heap, evs, h>>

T(x) == x \div 100
N(x) == x % 100
Atoms == IF Mode = "sim" THEN {100 * t + n : t \in 1..4, n \in 0..9} \cup {500} ELSE {102, 103, 203, 500}
Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Accepts(ts, x) == ts = {} \/ \E t \in ts : T(x) = t \/ (t = 1 /\ T(x) = 4)
Holds(i, x) == CASE i = "even" -> N(x) % 2 = 0
                 [] i = "small" -> N(x) < 8
                 [] i = "three" -> N(x) # 3
Fac(f, x) == CASE f = "none" -> x
               [] f = "int" -> IF T(x) = 2 THEN 100 + N(x) ELSE x
               [] f = "inc" -> IF T(x) = 1 THEN 100 + ((N(x) + 1) % 10) ELSE x
GHolds(g, c) == CASE g = "ord" -> (1 \in DOMAIN c /\ 2 \in DOMAIN c) => N(c[1]) <= N(c[2])
                  [] g = "some" -> DOMAIN c # {}
                  [] g = "dis" -> (1 \in DOMAIN c /\ NF \in DOMAIN c /\ NF > 1) => N(c[1]) # N(c[NF])

Fld(t, i, m, ini, call, fac) == [t |-> t, i |-> i, m |-> m, ini |-> ini, call |-> call, fac |-> fac]
Options == << Fld({}, {}, 0, NONE, 0, "none"),
              Fld({1}, {}, 1, NONE, 0, "none"),
              Fld({1, 2}, {"even"}, 0, NONE, 0, "none"),
              Fld({1}, {"small"}, 0, 104, 0, "none"),
              Fld({1}, {}, 1, NONE, 0, "int"),
              Fld({1}, {"three", "even"}, 0, 103, 1, "inc"),
              Fld({}, {}, 0, NONE, 0, "inc"),
              Fld({2, 5}, {}, 1, 500, 0, "none"),
              Fld({3, 4}, {"small"}, 1, NONE, 0, "none"),
              Fld({1, 2}, {}, 1, 203, 1, "int") >>
Fields == 1..NF
Mand == {f \in Fields : decl[f].m = 1}
HasIni == {f \in Fields : decl[f].ini # NONE}
Overlay(c, d) == [f \in DOMAIN c \cup DOMAIN d |-> IF f \in DOMAIN d THEN d[f] ELSE c[f]]
Without(c, S) == [f \in DOMAIN c \ S |-> c[f]]
Only(c, S) == [f \in DOMAIN c \cap S |-> c[f]]
Factored(d) == [f \in DOMAIN d |-> Fac(decl[f].fac, d[f])]
Pairs(c) == {<<f, c[f]>> : f \in DOMAIN c}
Empty == [x \in {} |-> 0]

\* the verdict on content c, of which the fields S have just been given, with unknown names U
BadT(c, S) == {f \in S \cap DOMAIN c : ~Accepts(decl[f].t, c[f])}
BadI(c, S) == {<<f, i>> \in {<<f, i>> : f \in S \cap DOMAIN c, i \in {"even", "small", "three"}} : i \in decl[f].i /\ ~Holds(i, c[f])}
BadG(c) == {g \in glob : ~GHolds(g, c)}
Missing(c) == Mand \ DOMAIN c
Tally(ps) == {<<i, Cardinality({p \in ps : p[2] = i})>> : i \in {p[2] : p \in ps}}
FieldKinds(c, S, U) == (IF U # {} THEN {"attr"} ELSE {}) \cup (IF BadT(c, S) # {} THEN {"type"} ELSE {})
                       \cup (IF BadI(c, S) # {} \/ Missing(c) # {} THEN {"inv"} ELSE {})
Verdict(c, S, U) ==
    IF FieldKinds(c, S, U) # {} THEN <<"bad", FieldKinds(c, S, U), Tally(BadI(c, S)), Missing(c), BadT(c, S)>>
    ELSE IF BadG(c) # {} THEN <<"bad", {"inv"}, {<<g, 1>> : g \in BadG(c)}, {}, {}>>
    ELSE <<"ok">>

Live  == {i \in 1..Len(heap) : heap[i].live}
LiveE == {i \in 1..Len(evs) : evs[i].live}
C(i)  == heap[i].c
Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r]
Log(e) == h' = Append(h, e)
Room == Len(heap) < MaxHeap
Skip == Log(Ev("skip", 0, <<>>, "", "ok", 0)) /\ UNCHANGED <<decl, glob, heap, evs>>
Keep(op, s, a, k, o, r) == Log(Ev(op, s, a, k, o, r)) /\ UNCHANGED <<decl, glob, heap, evs>>
NewR(op, s, a, k, c) == /\ heap' = Append(heap, [c |-> c, live |-> TRUE])
                        /\ Log(Ev(op, s, a, k, "new", Pairs(c)))
                        /\ UNCHANGED <<decl, glob, evs>>
\* c with the fields S just given
Make(op, s, a, k, c, S, U) ==
    LET v == Verdict(c, S, U)
    IN IF v[1] = "bad" THEN Keep(op, s, a, k, "err", v)
       ELSE IF s > 0 /\ Kind = "rec" /\ c = C(s) THEN Keep(op, s, a, k, "same", s)
       ELSE NewR(op, s, a, k, c)

\* ----------------------------------------------------------------- random arguments
GoodFor(f) == {x \in Atoms : LET y == Fac(decl[f].fac, x) IN Accepts(decl[f].t, y) /\ \A i \in decl[f].i : Holds(i, y)}
Value(f) == IF Mode = "sim"
            THEN {IF f \in Fields /\ GoodFor(f) # {} /\ RandomElement(1..8) > 1 THEN RandomElement(GoodFor(f)) ELSE RandomElement(Atoms)}
            ELSE Atoms
One(S) == CHOOSE x \in S : TRUE
Chance(n) == RandomElement(1..n) > 1
SomeFields(S) == {f \in S : IF f = 9 THEN ~Chance(14)
                            ELSE IF f \in Mand /\ f \notin HasIni THEN Chance(10) ELSE Chance(3)}
RndArgs(S) == [f \in S |-> One(Value(f))]
\* named arguments: a function from some names to atoms
Args(all) == IF Mode = "sim" THEN {RndArgs(S) : S \in {SomeFields(Fields \cup {9})}}
             ELSE {[f \in S |-> v] : S \in {{}, {1}, Fields, {9}, {1, 9}}, v \in Atoms}
FieldArg(c) == IF Mode = "sim" THEN {IF ~Chance(12) THEN 9 ELSE IF DOMAIN c # {} /\ Chance(4) THEN RandomElement(DOMAIN c) ELSE RandomElement(Fields)}
               ELSE Fields \cup {9}
Known(d) == Only(d, Fields)
Unknown(d) == DOMAIN d \ Fields

\* ----------------------------------------------------------------- operations
Initials(d) == [f \in HasIni \ DOMAIN d |-> decl[f].ini]
Build(d) == IF Kind = "rec" THEN Factored(Overlay(Initials(d), Known(d)))
            ELSE Overlay(Initials(d), Factored(Known(d)))
New == \E d \in Args(TRUE) : \E k \in Pick({"ctor", "create", "ignore", "createmap"}) :
         Make("new", 0, Pairs(d), k, Build(d), Fields, IF k = "ignore" THEN {} ELSE Unknown(d))
\* existing values are not given to the factories again; absent fields with an initial value get it back in a class
Onto(s, d) == LET c == Overlay(C(s), Factored(Known(d))) IN IF Kind = "cls" THEN Overlay(Initials(c), c) ELSE c
SetKw == \E s \in Pick(Live) : \E d \in Args(FALSE) : \E k \in Pick(IF Kind = "cls" THEN {"kw", "mixed"} ELSE {"kw", "update", "two", "plus"}) :
           IF k = "mixed" /\ DOMAIN d = {} THEN Skip
           ELSE Make("setkw", s, Pairs(d), k, Onto(s, d), DOMAIN d, Unknown(d))
SetOne == \E s \in Pick(Live) : \E f \in FieldArg(C(s)) : \E x \in Value(f) :
           LET d == [g \in {f} |-> x] IN Make("setone", s, <<f, x>>, "", Onto(s, d), {f}, Unknown(d))
\* the field set to the very object it has: nothing happens where there is no factory
Transform == \E s \in Pick(Live) : \E f \in FieldArg(C(s)) : \E x \in Value(f) : \E k \in Pick({"const", "fun", "two"}) :
           LET d == [g \in {f} |-> x]
           IN IF f \notin DOMAIN C(s) /\ (k # "const" \/ Kind = "cls") THEN Skip
              ELSE IF f \in DOMAIN C(s) /\ C(s)[f] = x THEN Keep("transform", s, <<f, x>>, k, "same", s)
              ELSE Make("transform", s, <<f, x>>, k, Onto(s, d), {f}, Unknown(d))
Remove == \E s \in Pick(Live) : \E f \in FieldArg(C(s)) : \E k \in Pick({"remove", "discard", "transform"}) :
           IF Kind = "cls" /\ (k = "discard" \/ (k = "transform" /\ f \notin DOMAIN C(s))) THEN Skip
           ELSE IF f \notin DOMAIN C(s)
           THEN (IF k = "remove" THEN Keep("remove", s, <<f>>, k, "err", <<IF Kind = "rec" THEN "KeyError" ELSE "AttributeError">>)
                 ELSE Keep("remove", s, <<f>>, k, "same", s))
           ELSE LET c == Without(C(s), {f})
                    c2 == IF Kind = "cls" THEN Overlay(Initials(c), c) ELSE c
                IN Make("remove", s, <<f>>, k, c2, Fields, {})
Get == \E s \in Pick(Live) : \E f \in FieldArg(C(s)) : \E k \in Pick({"attr", "item", "get", "in"}) :
           IF Kind = "cls" /\ k # "attr" THEN Skip
           ELSE IF k = "in" THEN Keep("get", s, <<f>>, k, "val", IF f \in DOMAIN C(s) THEN 1 ELSE 0)
           ELSE IF f \in DOMAIN C(s) THEN Keep("get", s, <<f>>, k, "val", C(s)[f])
           ELSE IF k = "get" THEN Keep("get", s, <<f>>, k, "val", -1)
           ELSE Keep("get", s, <<f>>, k, "err", <<IF k = "attr" THEN "AttributeError" ELSE "KeyError">>)
Assign == \E s \in Pick(Live) : \E f \in FieldArg(C(s)) : \E k \in Pick({"set", "del"}) :
           Keep("assign", s, <<f>>, k, "err", <<"AttributeError">>)
SetNone == \E s \in Pick(Live) : \E k \in Pick({"set", "update", "transform"}) :
           IF Kind = "cls" /\ k = "update" THEN Skip
           ELSE IF Kind = "cls" /\ k = "set" THEN NewR("setnone", s, <<>>, k, C(s))
           ELSE Keep("setnone", s, <<>>, k, "same", s)
Serialize == \E s \in Pick(Live) : Keep("serialize", s, <<>>, "", "val", Pairs(C(s)))
\* unpickling and copying give the same instance again, create(serialize()) too when no factory changes what it made
Idempotent(s) == \A f \in DOMAIN C(s) : Fac(decl[f].fac, C(s)[f]) = C(s)[f]
RoundTrip == \E s \in Pick(Live) : \E k \in Pick({"p0", "p1", "p2", "p3", "p4", "p5", "copy", "deepcopy", "serialize", "same"}) :
           IF k = "same" THEN Keep("rt", s, <<>>, k, "same", s)
           ELSE IF Kind = "rec" /\ HasIni \ DOMAIN C(s) # {} THEN Skip
           ELSE IF k = "serialize" /\ ~Idempotent(s) THEN Skip
           ELSE NewR("rt", s, <<>>, k, C(s))
Rebuild == \E s \in Pick(Live) : \E k \in Pick({"ctor", "sets", "evolver"}) :
           IF ~Idempotent(s) \/ HasIni \ DOMAIN C(s) # {} THEN Skip ELSE NewR("rebuild", s, <<>>, k, C(s))
Drop == IF Cardinality(Live) <= 1 THEN Skip
        ELSE \E s \in Pick(Live) : /\ heap' = [heap EXCEPT ![s].live = FALSE]
                                   /\ Log(Ev("drop", s, <<>>, "", "ok", 0))
                                   /\ UNCHANGED <<decl, glob, evs>>

\* ----------------------------------------------------------------- evolvers
\* c: what it shows; fs: fields whose factory has yet to run (classes only); bad: invariants violated so far (records only)
ENew == IF Len(evs) >= 5 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ evs' = Append(evs, [c |-> C(s), base |-> s, dirty |-> 0, fs |-> {}, bad |-> {}, live |-> TRUE])
             /\ Log(Ev("enew", s, <<>>, "", "newev", <<Pairs(C(s)), 0>>))
             /\ UNCHANGED <<decl, glob, heap>>
EvState(op, e, a, k, c, dirty, fs) ==
    /\ evs' = [evs EXCEPT ![e].c = c, ![e].dirty = dirty, ![e].fs = fs]
    /\ Log(Ev(op, e, a, k, "ev", <<Pairs(c), dirty>>))
    /\ UNCHANGED <<decl, glob, heap>>
Put(c, f, x) == Overlay(c, [g \in {f} |-> x])
ESet == \E e \in Pick(LiveE) : \E f \in FieldArg(evs[e].c) : \E x \in Value(f) : \E k \in Pick({"m", "i", "attr"}) :
    LET c == evs[e].c IN
    IF Kind = "cls"
    THEN (IF f \in DOMAIN c /\ c[f] = x THEN EvState("eset", e, <<f, x>>, k, c, evs[e].dirty, evs[e].fs)
          ELSE EvState("eset", e, <<f, x>>, k, Put(c, f, x), 1, evs[e].fs \cup {f}))
    ELSE IF f \notin Fields THEN Keep("eset", e, <<f, x>>, k, "err", <<"bad", {"attr"}, {}, {}, {}>>)
    ELSE LET y == Fac(decl[f].fac, x)
             d == Put(c, f, y)
         IN IF BadT(d, {f}) # {} THEN Keep("eset", e, <<f, x>>, k, "err", <<"bad", {"type"}, {}, {}, {f}>>)
            ELSE IF BadI(d, {f}) # {} \/ evs[e].bad # {}
            THEN IF \E p \in evs[e].bad : p[1] = f THEN Skip
                 ELSE /\ evs' = [evs EXCEPT ![e].bad = @ \cup BadI(d, {f}), ![e].c = d]
                      /\ Log(Ev("eset", e, <<f, x>>, k, "ok", 0))
                      /\ UNCHANGED <<decl, glob, heap>>
            ELSE EvState("eset", e, <<f, x>>, k, d, IF f \in DOMAIN c /\ c[f] = y THEN evs[e].dirty ELSE 1, {})
ERemove == \E e \in Pick(LiveE) : \E f \in FieldArg(evs[e].c) : \E k \in Pick({"m", "i"}) :
    IF evs[e].bad # {} THEN Skip
    ELSE IF f \notin DOMAIN evs[e].c
    THEN Keep("eremove", e, <<f>>, k, "err", <<IF Kind = "rec" THEN "KeyError" ELSE "AttributeError">>)
    ELSE EvState("eremove", e, <<f>>, k, Without(evs[e].c, {f}), 1, evs[e].fs \ {f})
EPersist == \E e \in Pick(LiveE) :
    IF evs[e].dirty = 0 /\ evs[e].bad = {} /\ evs[e].base > 0 /\ heap[evs[e].base].live
    THEN Keep("epersist", e, <<>>, "", "same", evs[e].base)
    ELSE LET c == evs[e].c
             kc == Known(c)
             full == IF Kind = "cls" THEN Overlay(Initials(kc), Overlay(kc, Factored(Only(kc, evs[e].fs)))) ELSE kc
             v == IF Kind = "rec" /\ evs[e].bad # {} THEN <<"bad", {"inv"}, Tally(evs[e].bad), Missing(c), {}>>
                  ELSE Verdict(full, Fields, Unknown(c))
         IN IF v[1] = "bad"
            THEN /\ evs' = [evs EXCEPT ![e].live = (Kind = "cls")]
                 /\ Log(Ev("epersist", e, <<>>, "", "err", v))
                 /\ UNCHANGED <<decl, glob, heap>>
            ELSE /\ heap' = Append(heap, [c |-> full, live |-> TRUE])
                 /\ evs' = [evs EXCEPT ![e].dirty = IF Kind = "cls" THEN @ ELSE 0, ![e].base = 0]
                 /\ Log(Ev("epersist", e, <<>>, "", "new", Pairs(full)))
                 /\ UNCHANGED <<decl, glob>>

\* ----------------------------------------------------------------- behaviours
Init == \E d \in [Fields -> {Options[i] : i \in Opts}], g \in Globs :
          /\ decl = d /\ glob = g
          /\ heap = <<>> /\ evs = <<>>
          /\ h = <<Ev("decl", 0, <<[f \in Fields |-> d[f]], g>>, Kind, "ok", 0)>>

Creating == {"new", "setkw", "setone", "transform", "remove", "setnone", "rt", "rebuild", "epersist"}
OnEvolver == {"eset", "eremove", "epersist"}
Do(op) ==
    IF op \in Creating /\ ~Room THEN Skip
    ELSE IF Live = {} THEN New
    ELSE IF op \in OnEvolver /\ LiveE = {} THEN ENew
    ELSE CASE op = "new" -> New
           [] op = "setkw" -> SetKw
           [] op = "setone" -> SetOne
           [] op = "transform" -> Transform
           [] op = "remove" -> Remove
           [] op = "get" -> Get
           [] op = "assign" -> Assign
           [] op = "setnone" -> SetNone
           [] op = "serialize" -> Serialize
           [] op = "rt" -> RoundTrip
           [] op = "rebuild" -> Rebuild
           [] op = "drop" -> Drop
           [] op = "enew" -> ENew
           [] op = "eset" -> ESet
           [] op = "eremove" -> ERemove
           [] op = "epersist" -> EPersist

Upd == <<"new", "new", "setkw", "setkw", "setkw", "setone", "setone", "setone", "transform", "transform", "remove", "remove">>
Read == <<"get", "assign", "setnone", "serialize", "rt", "drop">>
Evo == <<"enew", "eset", "eset", "eset", "eset", "eremove", "epersist", "epersist", "epersist">>
OpsAll == Upd \o Upd \o Read \o Evo
OpsEq == Upd \o Evo \o <<"rebuild", "rebuild", "rebuild", "rebuild">>
OpsRT == Upd \o Evo \o <<"rt", "rt", "rt", "rt", "rt", "serialize">>
OpsSame == Upd \o <<"setnone", "setnone", "setone", "setone", "transform", "remove">> \o Evo
OpsBfs == <<"new", "setkw", "setone", "remove">>
OpsBfsEv == <<"enew", "eset", "eremove", "epersist">>

Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

\* the property: every instance honours its declaration
Conform == heap # <<>> => LET c == C(Len(heap)) IN
             /\ DOMAIN c \subseteq Fields /\ Mand \subseteq DOMAIN c
             /\ \A f \in DOMAIN c : Accepts(decl[f].t, c[f]) /\ \A i \in decl[f].i : Holds(i, c[f])
             /\ \A g \in glob : GHolds(g, c)
Persistence == [][\A i \in 1..Len(heap) : heap'[i].c = heap[i].c]_vars
Isolation == [][Cardinality({e \in 1..Len(evs) : evs'[e].c # evs[e].c}) <= 1]_vars

Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
