-------------------------------- MODULE Life --------------------------------
(* Who keeps the elements of vectors alive.                                   *)
(*                                                                            *)
(* vals : every vector: content (a sequence of element numbers), whether the  *)
(*        user still holds it, whether it shares structure with another one   *)
(* evs  : evolvers: what they show, the vector they started from              *)
(* its  : iterators: the vector they run over                                 *)
(* link : element -> the vector it refers to (0: none), which makes cycles    *)
(* leak : a shared vector has become part of a garbage cycle (from then on    *)
(*        only "nothing needed is gone" is required)                          *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, OpSeq, InitSizes, Grow, MaxLen

VARIABLES vals, evs, its, link, leak, next, h
vars == <<vals, evs, its, link, leak, next, h>>

Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Rng(q) == {q[i] : i \in 1..Len(q)}
Live == {i \in 1..Len(vals) : vals[i].live}
LiveE == {i \in 1..Len(evs) : evs[i].live}
LiveI == {i \in 1..Len(its) : its[i].live}

Pos(a, n) == IF Mode = "bfs" THEN {a, n} ELSE a..n
\* ----------------------------------------------------------------- what is needed
Tokens(vs, V) == UNION {Rng(vs[i].c) : i \in V}
RECURSIVE Close(_, _, _)
\* the vectors V and everything they lead to, through the links of their elements
Close(vs, lk, V) == IF DOMAIN lk = {} THEN V ELSE LET W == V \cup ({lk[t] : t \in Tokens(vs, V) \cap DOMAIN lk} \ {0})
                    IN IF W = V THEN V ELSE Close(vs, lk, W)
Roots(vs, is) == {i \in 1..Len(vs) : vs[i].live} \cup {is[i].s : i \in {j \in 1..Len(is) : is[j].live}}
\* an evolver may, but need not, hold on to the vector it started from (or last produced)
Bases(es) == {es[i].base : i \in {j \in 1..Len(es) : es[j].live}}
\* ... and what it has shown since then
Seen(es) == UNION {es[i].seen : i \in {j \in 1..Len(es) : es[j].live}}
FreeTokens(es) == UNION {Rng(es[i].c) : i \in {j \in 1..Len(es) : es[j].live}}
Needed(vs, ft, lk, roots) ==
    LET V == Close(vs, lk, roots \cup ({lk[t] : t \in ft \cap DOMAIN lk} \ {0}))
    IN <<Tokens(vs, V) \cup ft, V>>
Garbage(vs, lk, V) == {i \in 1..Len(vs) : i \notin V /\ i \in Close(vs, lk, {lk[t] : t \in Rng(vs[i].c) \cap DOMAIN lk} \ {0})}

\* ----------------------------------------------------------------- events
\* every event says which elements must be alive afterwards, and whether no others may be
Log(op, s, a, k, o, r, vs, es, is, lk, full) ==
    LET n == Needed(vs, FreeTokens(es), lk, Roots(vs, is))
        b == Needed(vs, FreeTokens(es) \cup Seen(es), lk, Roots(vs, is) \cup Bases(es))
        g == Garbage(vs, lk, n[2])
        bad == leak \/ \E i \in g : vs[i].sh
    IN /\ leak' = bad
       /\ h' = Append(h, [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r,
                          must |-> n[1], may |-> b[1] \ n[1], exact |-> IF bad THEN 0 ELSE IF g = {} \/ full THEN 1 ELSE 0])
       /\ vals' = vs /\ evs' = es /\ its' = is /\ link' = lk
Skip == Log("skip", 0, <<>>, "", "ok", 0, vals, evs, its, link, FALSE) /\ UNCHANGED next
Fresh(m) == [i \in 1..m |-> next + i - 1]
NewV(op, s, a, k, c, sh, m) ==
    /\ Log(op, s, a, k, "new", c,
           Append(IF s > 0 /\ sh THEN [vals EXCEPT ![s].sh = TRUE] ELSE vals, [c |-> c, live |-> TRUE, sh |-> sh]), evs, its, link, FALSE)
    /\ next' = next + m
Same(op, s, a, k, o, r, m) == Log(op, s, a, k, o, r, vals, evs, its, link, FALSE) /\ next' = next + m

New == \E m \in Pick(Grow) : \E k \in Pick({"list", "gen", "append", "tuple"}) : NewV("new", 0, <<next, m>>, k, Fresh(m), FALSE, m)
C(i) == vals[i].c
Fit(s, m) == Len(C(s)) + m <= MaxLen
AppendV == \E s \in Pick(Live) : IF ~Fit(s, 1) THEN Skip ELSE NewV("append", s, <<next>>, "", Append(C(s), next), TRUE, 1)
Extend == \E s \in Pick(Live) : \E m \in Pick(Grow) : \E k \in Pick({"list", "gen", "tuple", "plus"}) :
            IF ~Fit(s, m) \/ m = 0 THEN Skip ELSE NewV("extend", s, <<next, m>>, k, C(s) \o Fresh(m), TRUE, m)
\* the iterable fails after m elements
Fail == \E s \in Pick(Live) : \E m \in Pick(Grow) : \E k \in Pick({"extend", "new", "plus"}) :
            Same("fail", s, <<next, m>>, k, "err", "BoomE", m)
SetV == \E s \in Pick(Live) : IF C(s) = <<>> THEN Skip
            ELSE \E i \in Pick(Pos(1, Len(C(s)))) : NewV("set", s, <<i - 1, next>>, "", [C(s) EXCEPT ![i] = next], TRUE, 1)
SetBad == \E s \in Pick(Live) : \E d \in Pick({1, 40}) : Same("setbad", s, <<Len(C(s)) + d, next>>, "", "err", "IndexError", 1)
Del == \E s \in Pick(Live) : IF C(s) = <<>> THEN Skip
            ELSE \E i \in Pick(Pos(1, Len(C(s)))) : \E j \in Pick(Pos(i, Len(C(s)))) :
                 NewV("delete", s, <<i - 1, j>>, "", SubSeq(C(s), 1, i - 1) \o SubSeq(C(s), j + 1, Len(C(s))), FALSE, 0)
DelBad == \E s \in Pick(Live) : Same("delbad", s, <<>>, "", "err", "IndexError", 0)
Remove == \E s \in Pick(Live) : IF C(s) = <<>> THEN Skip
            ELSE \E i \in Pick(Pos(1, Len(C(s)))) :
                 LET j == CHOOSE j \in 1..Len(C(s)) : C(s)[j] = C(s)[i] /\ \A l \in 1..(j - 1) : C(s)[l] # C(s)[i]
                 IN NewV("removet", s, <<C(s)[i]>>, "", SubSeq(C(s), 1, j - 1) \o SubSeq(C(s), j + 1, Len(C(s))), FALSE, 0)
RemoveBad == \E s \in Pick(Live) : Same("removebad", s, <<next>>, "", "err", "ValueError", 1)
Mul == \E s \in Pick(Live) : \E k \in Pick({"l", "r"}) : IF ~Fit(s, Len(C(s))) THEN Skip ELSE NewV("mul", s, <<2>>, k, C(s) \o C(s), TRUE, 0)
SliceV == \E s \in Pick(Live) : \E i \in Pick(0..Len(C(s))) : \E j \in Pick(0..Len(C(s))) :
            IF i = 0 /\ j = Len(C(s)) THEN Skip
            ELSE NewV("slice", s, <<i, j>>, "", IF j <= i THEN <<>> ELSE SubSeq(C(s), i + 1, j), TRUE, 0)
Again == \E s \in Pick(Live) : \E u \in Pick(Live) :
            IF ~Fit(s, Len(C(u))) \/ C(u) = <<>> THEN Skip ELSE NewV("extendv", s, <<u>>, "vextend", C(s) \o C(u), TRUE, 0)
Read == \E s \in Pick(Live) : \E k \in Pick({"hash", "repr", "tolist", "index", "count", "cmp", "list", "reversed", "pickle", "badget", "badidx"}) :
            Same("read", s, <<>>, k, "ok", 0, 0)
Drop == IF Cardinality(Live) = 0 THEN Skip
        ELSE \E s \in Pick(Live) : Log("drop", s, <<>>, "", "ok", 0, [vals EXCEPT ![s].live = FALSE], evs, its, link, FALSE) /\ UNCHANGED next
\* element t (of some vector the user holds) now refers to a vector
Link == IF Live = {} \/ Tokens(vals, Live) = {} THEN Skip
        ELSE \E s \in Pick(Live) : IF C(s) = <<>> THEN Skip ELSE \E i \in Pick(Pos(1, Len(C(s)))) : \E u \in Pick(Live) :
             LET t == C(s)[i]
             IN /\ Log("link", s, <<i - 1, u>>, "", "ok", 0, vals, evs, its,
                       [x \in DOMAIN link \cup {t} |-> IF x = t THEN u ELSE link[x]], FALSE)
                /\ UNCHANGED next
Gc == Log("gc", 0, <<>>, "", "ok", 0, vals, evs, its, link, TRUE) /\ UNCHANGED next

\* ----------------------------------------------------------------- evolvers and iterators
Ev1(e, c, op, a, k) == Log(op, e, a, k, "ev", <<c, 2>>, vals, [evs EXCEPT ![e].c = c, ![e].seen = @ \cup (Rng(evs[e].c) \ Rng(C(evs[e].base)))], its, link, FALSE)
ENew == IF Cardinality(LiveE) >= 3 THEN Skip
        ELSE \E s \in Pick(Live) :
             /\ Log("enew", s, <<>>, "", "newev", <<C(s), 0>>, [vals EXCEPT ![s].sh = TRUE],
                    Append(evs, [c |-> C(s), base |-> s, seen |-> {}, live |-> TRUE]), its, link, FALSE)
             /\ UNCHANGED next
ESet == \E e \in Pick(LiveE) : IF evs[e].c = <<>> THEN Skip
        ELSE \E i \in Pick(Pos(1, Len(evs[e].c))) : \E k \in Pick({"m", "i"}) :
             Ev1(e, [evs[e].c EXCEPT ![i] = next], "eset", <<i - 1, next>>, k) /\ next' = next + 1
ESetBad == \E e \in Pick(LiveE) : Same("esetbad", e, <<Len(evs[e].c) + 3, next>>, "", "err", "IndexError", 1)
EAppend == \E e \in Pick(LiveE) : IF Len(evs[e].c) >= MaxLen THEN Skip ELSE Ev1(e, Append(evs[e].c, next), "eappend", <<next>>, "") /\ next' = next + 1
EExtend == \E e \in Pick(LiveE) : \E m \in Pick(Grow) : \E k \in Pick({"list", "gen", "tuple"}) :
             IF Len(evs[e].c) + m > MaxLen THEN Skip ELSE Ev1(e, evs[e].c \o Fresh(m), "eextend", <<next, m>>, k) /\ next' = next + m
\* the evolver is given up after its iterable failed
EFail == \E e \in Pick(LiveE) : \E m \in Pick(Grow) :
             Log("efail", e, <<next, m>>, "", "ok", 0, vals, [evs EXCEPT ![e].live = FALSE], its, link, FALSE) /\ next' = next + m
EDel == \E e \in Pick(LiveE) : IF evs[e].c = <<>> THEN Skip
        ELSE \E i \in Pick(Pos(1, Len(evs[e].c))) : \E k \in Pick({"m", "i"}) :
             LET c == evs[e].c
             IN Ev1(e, SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c)), "edel", <<i - 1>>, k) /\ UNCHANGED next
EPersist == \E e \in Pick(LiveE) :
        LET n == Len(vals) + 1
            same == evs[e].c = C(evs[e].base)
        IN IF same THEN Skip
           ELSE /\ Log("epersist", e, <<>>, "", "new", evs[e].c,
                       Append(vals, [c |-> evs[e].c, live |-> TRUE, sh |-> TRUE]), [evs EXCEPT ![e].base = n, ![e].seen = {}], its, link, FALSE)
                /\ UNCHANGED next
EDrop == \E e \in Pick(LiveE) : Log("edrop", e, <<>>, "", "ok", 0, vals, [evs EXCEPT ![e].live = FALSE], its, link, FALSE) /\ UNCHANGED next
Iter == IF Cardinality(LiveI) >= 3 THEN Skip
        ELSE \E s \in Pick(Live) : \E k \in Pick({"", "rev"}) :
             Log("iter", s, <<>>, k, "newit", 0, vals, evs, Append(its, [s |-> s, live |-> TRUE]), link, FALSE) /\ UNCHANGED next
\* an unfinished iterator keeps its vector
Step == \E i \in Pick(LiveI) : \E m \in Pick({1, 3}) : Log("advance", i, <<m>>, "", "ok", 0, vals, evs, its, link, FALSE) /\ UNCHANGED next
IDrop == \E i \in Pick(LiveI) : Log("idrop", i, <<>>, "", "ok", 0, vals, evs, [its EXCEPT ![i].live = FALSE], link, FALSE) /\ UNCHANGED next

Init == \E n \in InitSizes :
          /\ vals = <<[c |-> [i \in 1..n |-> i], live |-> TRUE, sh |-> FALSE]>>
          /\ evs = <<>> /\ its = <<>> /\ link = [x \in {} |-> 0] /\ leak = FALSE /\ next = n + 1
          /\ h = <<[op |-> "new", s |-> 0, a |-> <<1, n>>, k |-> "list", o |-> "new", r |-> [i \in 1..n |-> i], must |-> 1..n, may |-> {}, exact |-> 1]>>

Do(op) ==
    IF op \in {"new", "gc"} \/ Live = {} THEN (IF op = "gc" THEN Gc ELSE New)
    ELSE IF op \in {"eset", "esetbad", "eappend", "eextend", "efail", "edel", "epersist", "edrop"} /\ LiveE = {} THEN ENew
    ELSE IF op \in {"step", "idrop"} /\ LiveI = {} THEN Iter
    ELSE CASE op = "append" -> AppendV [] op = "extend" -> Extend [] op = "fail" -> Fail [] op = "set" -> SetV
           [] op = "setbad" -> SetBad [] op = "del" -> Del [] op = "delbad" -> DelBad [] op = "remove" -> Remove
           [] op = "removebad" -> RemoveBad [] op = "mul" -> Mul [] op = "slice" -> SliceV [] op = "again" -> Again
           [] op = "read" -> Read [] op = "drop" -> Drop [] op = "link" -> Link
           [] op = "enew" -> ENew [] op = "eset" -> ESet [] op = "esetbad" -> ESetBad [] op = "eappend" -> EAppend
           [] op = "eextend" -> EExtend [] op = "efail" -> EFail [] op = "edel" -> EDel [] op = "epersist" -> EPersist
           [] op = "edrop" -> EDrop [] op = "iter" -> Iter [] op = "step" -> Step [] op = "idrop" -> IDrop
Val == <<"new", "append", "append", "extend", "extend", "set", "set", "del", "remove", "mul", "slice", "again", "read", "read">>
Bad == <<"fail", "fail", "setbad", "delbad", "removebad">>
Evo == <<"enew", "eset", "eset", "esetbad", "eappend", "eappend", "eextend", "efail", "edel", "epersist", "epersist", "edrop">>
Itr == <<"iter", "step", "step", "idrop">>
OpsAll == Val \o Bad \o Evo \o Itr \o <<"drop", "drop", "drop", "drop", "drop", "drop", "drop", "drop", "gc">>
OpsEvo == Evo \o <<"eset", "eset", "eset", "epersist", "drop", "drop", "append", "set", "edrop">>
OpsCyc == <<"new", "new", "new", "new", "append", "set", "link", "link", "link", "link", "drop", "drop", "drop", "drop", "gc", "gc", "read", "iter", "idrop", "enew", "eset", "edrop">>
OpsBfs == <<"append", "set", "del", "enew", "eset", "eappend", "epersist", "edrop", "drop">>
Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

\* everything a held vector, evolver or iterator shows is among what must be alive
Safe == h = <<>> \/ LET m == h[Len(h)].must IN
          /\ \A i \in Live : Rng(C(i)) \subseteq m
          /\ \A e \in LiveE : Rng(evs[e].c) \subseteq m
          /\ \A i \in LiveI : Rng(C(its[i].s)) \subseteq m
\* when nothing is held, nothing is needed
Nothing == (Live = {} /\ LiveE = {} /\ LiveI = {}) => h[Len(h)].must = {}
Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
