-------------------------------- MODULE Tree --------------------------------
(* Nested values: transform (paths and commands) and freeze/thaw.             *)
(*                                                                            *)
(* A tree is <<"a", n>>  a number          <<"m", slots>>  a persistent map   *)
(*           <<"v", seq>> a vector         <<"r", slots>>  a record           *)
(*           <<"s", set>> a set            <<"c", slots>>  a class instance   *)
(*           <<"t", seq>> a tuple          <<"x">>         an empty slot      *)
(*           <<"b", n>>  a number equal to <<"a", n>> but of another type (1.0) *)
(*           <<"o", n>>  some other object: None, '', 'xy', a frozenset, ...    *)
(* and the mutable <<"d", slots>> dict, <<"D", slots>> defaultdict,           *)
(* <<"l", seq>> list, <<"S", set>> set.                                       *)
(* Keys are numbers: 1..3 strings, 100+i the integer i.  Maps have slots for   *)
(* the keys 1, 2, 3, 100, 107; records and classes for 1, 2, 3, of which 3 is   *)
(* mandatory and has to be a number.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, OpSeq, MaxHeap, TDepth

VARIABLES heap, h
vars == <<heap, h>>

MapKeys == <<1, 2, 3, 100, 107>>
RecKeys == <<1, 2, 3>>
KeysOf(t) == IF t[1] \in {"m", "d", "D"} THEN MapKeys ELSE RecKeys
NIL == <<"x">>
EmptyMap == <<"m", <<NIL, NIL, NIL, NIL, NIL>>>>
Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
One(S) == CHOOSE x \in S : TRUE
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
SlotOf(t, k) == LET ks == KeysOf(t) IN IF Has(ks, k) THEN CHOOSE i \in 1..Len(ks) : ks[i] = k ELSE 0

RECURSIVE Size(_), SizeSeq(_)
SizeSeq(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + SizeSeq(Tail(q))
Size(t) == CASE t[1] = "x" -> 0
             [] t[1] \in {"a", "b", "o", "s", "S"} -> 1
             [] OTHER -> 1 + SizeSeq(t[2])

\* ----------------------------------------------------------------- transform
\* a matcher is <<"key", k>> or <<name>>
Hits(m, k, v) == CASE m[1] \in {"ny", "anykw"} -> TRUE
                   [] m[1] = "none" -> FALSE
                   [] m[1] = "rex" -> k \in {1, 2}
                   [] m[1] = "int" -> k >= 10
                   [] m[1] = "low" -> k >= 10 /\ k - 100 < 1
                   [] m[1] = "leaf" -> v[1] = "a"
                   [] m[1] = "even" -> v[1] = "a" /\ (v[1] = "a" => v[2] % 2 = 0)
                   [] m[1] = "vec" -> v[1] = "v"

IsAtom(t) == t[1] \in {"a", "b", "o"}
\* results: <<"ok", tree, changed>>, <<"err">> an exception, <<"?">> not specified
Command(cmd, t) ==
    CASE cmd[1] \in {"const", "fn"} -> <<"ok", cmd[2], ~(IsAtom(t) /\ cmd[2][1] = t[1] /\ (IF IsAtom(t) /\ cmd[2][1] = t[1] THEN t[2] = cmd[2][2] ELSE FALSE))>>
      [] cmd[1] = "id" -> <<"ok", t, FALSE>>
      [] cmd[1] = "flip" -> IF t[1] \in {"a", "b"} THEN <<"ok", <<IF t[1] = "a" THEN "b" ELSE "a", t[2]>>, TRUE>> ELSE <<"ok", t, FALSE>>
      [] cmd[1] = "box" -> <<"ok", <<"v", <<t>>>>, TRUE>>
      [] cmd[1] \in {"inc", "dec"} -> IF t[1] = "a" THEN <<"ok", <<"a", t[2] + (IF cmd[1] = "inc" THEN 1 ELSE -1)>>, TRUE>>
                                      ELSE IF t[1] \in {"b", "o"} THEN <<"?">> ELSE <<"err">>
      [] cmd[1] = "boom" -> <<"err">>
      [] cmd[1] = "discard" -> <<"?">>

Worst(rs) == IF \E i \in 1..Len(rs) : rs[i][1] = "?" THEN <<"?">>
             ELSE IF \E i \in 1..Len(rs) : rs[i][1] = "err" THEN <<"err">> ELSE <<"ok">>
Legal(t, s, v) == ~(t[1] \in {"r", "c"} /\ s = 3 /\ v[1] # "a")
SetAt(q, i, x) == IF i = Len(q) + 1 THEN Append(q, x) ELSE [q EXCEPT ![i] = x]
RECURSIVE DropAll(_, _, _)
DropAll(q, P, i) == IF i > Len(q) THEN <<>> ELSE (IF i \in P THEN <<>> ELSE <<q[i]>>) \o DropAll(q, P, i + 1)

RECURSIVE Apply(_, _, _)
\* the positions P (all present) of t with the rest of the path applied
Spread(t, P, rest, cmd) ==
    LET n == Len(t[2])
        rs == [i \in 1..n |-> IF i \in P THEN Apply(t[2][i], rest, cmd) ELSE <<"ok", t[2][i], FALSE>>]
        w == Worst(rs)
    IN IF w[1] # "ok" THEN w
       ELSE IF \E i \in P : ~Legal(t, i, rs[i][2]) THEN <<"err">>
       ELSE <<"ok", <<t[1], [i \in 1..n |-> rs[i][2]]>>, \E i \in P : rs[i][3]>>
Discard(t, P) ==
    IF P = {} THEN <<"ok", t, FALSE>>
    ELSE IF t[1] = "v" THEN <<"ok", <<"v", DropAll(t[2], P, 1)>>, TRUE>>
    ELSE IF t[1] \in {"r", "c"} /\ 3 \in P THEN <<"err">>
    ELSE <<"ok", <<t[1], [i \in 1..Len(t[2]) |-> IF i \in P THEN NIL ELSE t[2][i]]>>, TRUE>>
\* a key that is not there: a map is put there first
Expand(t, s, rest, cmd) ==
    LET r == Apply(EmptyMap, rest, cmd)
    IN IF r[1] # "ok" THEN r
       ELSE IF s = 0 THEN <<"err">>
       ELSE IF ~Legal(t, s, r[2]) THEN <<"err">>
       ELSE <<"ok", <<t[1], SetAt(t[2], s, r[2])>>, TRUE>>
Apply(t, path, cmd) ==
    IF path = <<>> THEN Command(cmd, t)
    ELSE IF t[1] \notin {"m", "v", "r", "c"} THEN <<"?">>
    ELSE
    LET m == Head(path)
        rest == Tail(path)
        last == rest = <<>> /\ cmd[1] = "discard"
        n == Len(t[2])
    IN IF m[1] = "p3" THEN <<"err">>
       ELSE IF m[1] = "key"
       THEN LET k == m[2] IN
            CASE t[1] = "v" /\ k < 10 -> <<"err">>
              [] t[1] = "v" /\ k >= 10 ->
                   LET i == IF k - 100 < 0 THEN k - 100 + n + 1 ELSE k - 100 + 1
                   IN IF i \in 1..n THEN (IF last THEN Discard(t, {i}) ELSE Spread(t, {i}, rest, cmd))
                      ELSE IF last THEN <<"err">>
                      ELSE IF cmd[1] = "discard" THEN <<"ok", t, FALSE>>
                      ELSE Expand(t, IF i = n + 1 /\ k - 100 >= 0 THEN i ELSE 0, rest, cmd)
              [] OTHER ->
                   LET s == SlotOf(t, k)
                   IN IF s > 0 /\ (IF s > 0 THEN t[2][s][1] # "x" ELSE FALSE)
                      THEN (IF last THEN Discard(t, {s}) ELSE Spread(t, {s}, rest, cmd))
                      ELSE IF t[1] = "c" THEN <<"err">>
                      ELSE IF cmd[1] = "discard" THEN <<"ok", t, FALSE>>
                      ELSE IF s = 0 /\ t[1] = "m" THEN <<"?">>
                      ELSE Expand(t, s, rest, cmd)
       ELSE IF t[1] = "c" THEN <<"?">>
       ELSE LET P == {i \in 1..n : t[2][i][1] # "x" /\ Hits(m, IF t[1] = "v" THEN 100 + i - 1 ELSE KeysOf(t)[i], t[2][i])}
            IN IF last THEN Discard(t, P) ELSE Spread(t, P, rest, cmd)

RECURSIVE ApplyAll(_, _, _)
ApplyAll(t, cs, ch) ==
    IF cs = <<>> THEN <<"ok", t, ch>>
    ELSE LET r == Apply(t, Head(cs)[1], Head(cs)[2])
         IN IF r[1] # "ok" THEN r ELSE ApplyAll(r[2], Tail(cs), ch \/ r[3])

\* ----------------------------------------------------------------- freeze and thaw
RECURSIVE Freeze(_, _), Thaw(_, _)
Freeze(t, strict) ==
    CASE t[1] \in {"d", "D"} \/ (strict /\ t[1] = "m") -> <<"m", [i \in 1..Len(t[2]) |-> Freeze(t[2][i], strict)]>>
      [] t[1] = "l" \/ (strict /\ t[1] = "v") -> <<"v", [i \in 1..Len(t[2]) |-> Freeze(t[2][i], strict)]>>
      [] t[1] = "t" -> <<"t", [i \in 1..Len(t[2]) |-> Freeze(t[2][i], strict)]>>
      [] t[1] = "S" -> <<"s", t[2]>>
      [] OTHER -> t
Thaw(t, strict) ==
    CASE t[1] = "m" \/ (strict /\ t[1] = "d") -> <<"d", [i \in 1..Len(t[2]) |-> Thaw(t[2][i], strict)]>>
      [] t[1] = "v" \/ (strict /\ t[1] = "l") -> <<"l", [i \in 1..Len(t[2]) |-> Thaw(t[2][i], strict)]>>
      [] t[1] = "t" -> <<"t", [i \in 1..Len(t[2]) |-> Thaw(t[2][i], strict)]>>
      [] t[1] = "s" -> <<"S", t[2]>>
      [] OTHER -> t
RECURSIVE Kinds(_)
Kinds(t) == {t[1]} \cup (IF t[1] \in {"a", "b", "o", "x", "s", "S"} THEN {} ELSE UNION {Kinds(t[2][i]) : i \in 1..Len(t[2])})
Persistent(t) == Kinds(t) \cap {"d", "D", "l", "S"} = {}
Plain(t) == Kinds(t) \cap {"m", "v", "s"} = {}

\* ----------------------------------------------------------------- nested lookup
Strings == {1, 2}
\* <<"ok", tree>>, or <<"err", what>> when a step finds nothing
Step(t, k) ==
    CASE t[1] \in {"m", "d", "r"} ->
           LET s == SlotOf(t, k) IN
           IF s = 0 THEN <<"err", "KeyError">> ELSE IF t[2][s][1] = "x" THEN <<"err", "KeyError">> ELSE <<"ok", t[2][s]>>
      [] t[1] \in {"v", "l", "t"} ->
           IF k < 10 THEN <<"err", "TypeError">>
           ELSE LET n == Len(t[2])
                    i == IF k - 100 < 0 THEN k - 100 + n + 1 ELSE k - 100 + 1
                IN IF i \in 1..n THEN <<"ok", t[2][i]>> ELSE <<"err", "IndexError">>
      [] t[1] = "o" /\ t[2] \in Strings /\ k >= 10 -> <<"?">>
      [] OTHER -> <<"err", "TypeError">>
RECURSIVE GetIn(_, _)
GetIn(t, ks) == IF ks = <<>> THEN <<"ok", t>>
                ELSE LET r == Step(t, Head(ks)) IN IF r[1] # "ok" THEN r ELSE GetIn(r[2], Tail(ks))

\* ----------------------------------------------------------------- random trees
R(S) == RandomElement(S)
IntA(z) == <<"a", R(0..9)>>
Atom(z) == CASE R(1..8) = 1 -> <<"b", R(0..9)>>
             [] R(1..8) = 1 -> <<"o", R({0, 0, 0, 1, 2, 3, 4})>>
             [] OTHER -> <<"a", R(0..9)>>
Sets == {{}, {1}, {2, 3}, {1, 4, 5}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 32, 64, 96}}
Long == [i \in 1..33 |-> <<"a", i % 10>>]
RECURSIVE Rnd(_, _, _)
\* kinds of containers, and whether an empty slot is possible
Sub(d, ks) == IF d = 0 THEN Atom(d) ELSE One({Rnd(d, ks, FALSE)})
Slot(d, ks) == IF R(1..5) <= 2 THEN NIL ELSE Sub(d, ks)
Rnd(d, ks, top) ==
    IF ~top /\ R(1..10) <= (IF d >= 2 THEN 2 ELSE 5) THEN Atom(d)
    ELSE LET k == One({R(ks)}) IN
         CASE k \in {"m", "d", "D"} -> <<k, <<Slot(d - 1, ks), Slot(d - 1, ks), Slot(d - 1, ks), Slot(d - 1, ks), Slot(d - 1, ks)>>>>
           [] k \in {"r", "c"} -> <<k, <<Slot(d - 1, ks), Slot(d - 1, ks), IntA(d)>>>>
           [] k \in {"v", "l", "t"} ->
                <<k, CASE R(1..6) = 1 -> <<>>
                       [] R(1..6) = 1 -> <<Sub(d - 1, ks)>>
                       [] R(1..8) = 1 -> [i \in 1..33 |-> <<"a", i % 10>>]
                       [] R(1..2) = 1 -> <<Sub(d - 1, ks), Sub(d - 1, ks)>>
                       [] OTHER -> <<Sub(d - 1, ks), Sub(d - 1, ks), Sub(d - 1, ks)>>>>
           [] k \in {"s", "S"} -> <<k, R(Sets)>>
TopT == {"m", "v", "r", "c"}
AllP == {"m", "m", "v", "r", "c", "t", "s"}
Mixed == {"m", "v", "s", "t", "d", "D", "l", "S"}
Matcher(z) == CASE R(1..10) <= 6 -> <<"key", R({1, 2, 3, 100, 101, 102, 99, 107, 133})>>
             [] OTHER -> <<R({"ny", "ny", "ny", "rex", "int", "low", "leaf", "even", "vec", "anykw", "none", "p3"})>>
\* paths are drawn along the tree most of the time, so that they reach something
PosIn(t) == IF t[1] \in {"m", "v", "r", "c"} THEN {i \in 1..Len(t[2]) : t[2][i][1] # "x"} ELSE {}
RECURSIVE RPath(_, _)
RPath(t, n) ==
    IF n = 0 THEN <<>>
    ELSE IF PosIn(t) = {} THEN (IF R(1..4) = 1 THEN <<One({Matcher(t)})>> ELSE <<>>)
    ELSE LET i == One({R(PosIn(t))}) IN
         <<CASE R(1..10) <= 5 -> <<"key", IF t[1] = "v" THEN (IF R(1..4) = 1 THEN 100 + i - 1 - Len(t[2]) ELSE 100 + i - 1) ELSE KeysOf(t)[i]>>
             [] t[1] = "c" /\ R(1..10) <= 8 -> <<"key", KeysOf(t)[i]>>
             [] OTHER -> One({Matcher(t)})>> \o RPath(t[2][i], n - 1)
Cmd(z) == CASE R(1..4) = 1 -> <<"discard">>
         [] R(1..3) = 1 -> <<R({"const", "fn"}), Atom(z)>>
         [] R(1..4) = 1 -> <<R({"const", "fn"}), One({Rnd(1, AllP, TRUE)})>>
         [] OTHER -> <<R({"inc", "dec", "id", "flip", "box", "boom"})>>

Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r]
Log(e) == h' = Append(h, e)
Skip == Log(Ev("skip", 0, <<>>, "", "ok", 0)) /\ UNCHANGED heap
Room == Len(heap) < MaxHeap
Keep(op, s, a, k, o, r) == Log(Ev(op, s, a, k, o, r)) /\ UNCHANGED heap
New(op, s, a, k, t) == heap' = Append(heap, t) /\ Log(Ev(op, s, a, k, "new", t))

\* ----------------------------------------------------------------- operations
SmallTrees == {<<"m", <<<<"a", 1>>, NIL, <<"a", 2>>, NIL, NIL>>>>, <<"v", <<<<"a", 1>>, <<"a", 4>>>>>>,
               <<"r", <<NIL, <<"v", <<<<"a", 1>>>>>>, <<"a", 2>>>>>>, <<"c", <<EmptyMap, NIL, <<"a", 2>>>>>>,
               <<"m", <<<<"v", <<<<"a", 0>>, <<"a", 1>>>>>>, <<"r", <<NIL, NIL, <<"a", 1>>>>>>, NIL, <<"a", 1>>, NIL>>>>}
SmallMatch == {<<"key", 1>>, <<"key", 3>>, <<"key", 100>>, <<"key", 102>>, <<"ny">>, <<"rex">>, <<"leaf">>}
SmallPaths == {<<>>} \cup {<<m>> : m \in SmallMatch} \cup {<<m, n>> : m \in SmallMatch, n \in SmallMatch}
SmallCmds == {<<"discard">>, <<"const", <<"a", 1>>>>, <<"fn", EmptyMap>>, <<"inc">>, <<"id">>, <<"flip">>, <<"box">>}
Make == \E t \in (IF Mode = "sim" THEN {Rnd(TDepth, AllP, TRUE)} ELSE SmallTrees) :
          IF t[1] \notin TopT THEN Skip ELSE New("mk", 0, <<t>>, "", t)
Pair(t, n) == <<One({RPath(t, n)}), One({Cmd(t)})>>
Commands(t) == CASE R(1..2) = 1 -> <<Pair(t, R(2..4))>>
                 [] R(1..2) = 1 -> <<Pair(t, R(1..3)), Pair(t, R(1..3))>>
                 [] OTHER -> <<Pair(t, R(1..3)), Pair(t, R(2..4)), Pair(t, R(1..3))>>
\* mostly something that does not fail
RECURSIVE Choice(_, _)
Choice(t, n) == LET cs == One({Commands(t)}) IN
                IF n = 0 \/ ApplyAll(t, cs, FALSE)[1] = "ok" THEN cs ELSE One({Choice(t, n - 1)})
Transform ==
    \E s \in (IF Mode = "sim" /\ RandomElement(1..2) = 1 THEN {Len(heap)} ELSE Pick(1..Len(heap))) :
    \E cs \in (IF Mode = "sim" THEN {Choice(heap[s], 3)} ELSE {<< <<p, c>> >> : p \in SmallPaths, c \in SmallCmds}) :
    \E r \in {ApplyAll(heap[s], cs, FALSE)} :
      IF r[1] = "?" THEN Skip
      ELSE IF r[1] = "err" THEN Keep("transform", s, cs, "", "err", "any")
      ELSE IF ~r[3] THEN Keep("transform", s, cs, "", "same", s)
      ELSE IF Size(r[2]) > 120 THEN Skip
      ELSE IF r[2][1] \in TopT THEN New("transform", s, cs, "", r[2])
      ELSE Keep("transform", s, cs, "", "val", r[2])
FreezeT == \E t \in {Rnd(TDepth, Mixed, FALSE)} : \E k \in Pick({"strict", "default", "lax"}) :
             Keep("freeze", 0, <<t>>, k, "val", Freeze(t, k # "lax"))
ThawT == \E t \in {Rnd(TDepth, Mixed, FALSE)} : \E k \in Pick({"strict", "default", "lax"}) :
             Keep("thaw", 0, <<t>>, k, "val", Thaw(t, k # "lax"))
Both == \E t \in {Rnd(TDepth, Mixed, FALSE)} : Keep("thawfreeze", 0, <<t, Freeze(t, TRUE)>>, "", "val", Thaw(Freeze(t, TRUE), TRUE))
Mutant == \E t \in {Rnd(1, Mixed, FALSE)} : \E u \in {Rnd(2, Mixed, FALSE)} : \E w \in {Rnd(2, Mixed, FALSE)} :
             Keep("mutant", 0, <<t, u, w>>, "", "val", <<Freeze(t, TRUE), Freeze(u, TRUE), Freeze(w, TRUE)>>)
\* lookup along a path that mostly follows the tree
Branches == {"m", "v", "r", "c", "t", "s", "d", "l", "S"}
SubOf(t) == IF t[1] \in {"a", "b", "o", "s", "S"} THEN {} ELSE {i \in 1..Len(t[2]) : t[2][i][1] # "x"}
RECURSIVE KPath(_, _)
KPath(t, n) ==
    IF n = 0 THEN <<>>
    ELSE IF SubOf(t) = {} \/ R(1..8) = 1 THEN (IF R(1..3) = 1 THEN <<R({1, 2, 3, 100, 101, 99, 98, 107})>> ELSE <<>>)
    ELSE LET i == One({R(SubOf(t))}) IN
         <<IF t[1] \in {"v", "l", "t"} THEN (IF R(1..4) = 1 THEN 100 + i - 1 - Len(t[2]) ELSE 100 + i - 1) ELSE KeysOf(t)[i]>>
         \o KPath(t[2][i], n - 1)
Lookup == \E t \in {Rnd(TDepth, Branches, TRUE)} : \E ks \in {KPath(t, R(0..4))} : \E k \in Pick({"plain", "default", "strict", "both"}) :
             LET r == GetIn(t, ks) IN
             IF r[1] = "ok" THEN Keep("getin", 0, <<t, ks>>, k, "val", r[2])
             ELSE IF r[1] = "?" THEN Skip
             ELSE IF k \in {"strict", "both"} THEN Keep("getin", 0, <<t, ks>>, k, "err", r[2])
             ELSE Keep("getin", 0, <<t, ks>>, k, "val", IF k = "plain" THEN <<"o", 0>> ELSE <<"dflt">>)

Init == heap = <<>> /\ h = <<>>
Do(op) == IF op \in {"mk", "transform"} /\ ~Room THEN Skip
          ELSE CASE op = "mk" -> Make
                 [] op = "transform" -> IF heap = <<>> THEN Make ELSE Transform
                 [] op = "freeze" -> FreezeT
                 [] op = "thaw" -> ThawT
                 [] op = "both" -> Both
                 [] op = "mutant" -> Mutant
                 [] op = "getin" -> Lookup
OpsTr == <<"mk", "transform", "transform", "transform", "transform", "transform">>
OpsFr == <<"freeze", "freeze", "thaw", "thaw", "both", "both", "mutant">>
OpsGet == <<"getin">>
OpsBfs == <<"transform">>
Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) < Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

\* ----------------------------------------------------------------- what has to hold of the model itself
\* freezing leaves nothing mutable, thawing nothing persistent, and they undo each other
Inverse == h = <<>> \/ LET e == h[Len(h)] IN
    CASE e.op = "freeze" /\ e.k # "lax" -> Persistent(e.r) /\ Freeze(e.r, TRUE) = e.r
      [] e.op = "thaw" /\ e.k # "lax" /\ "D" \notin Kinds(e.a[1]) -> Plain(e.r) /\ Thaw(e.r, TRUE) = e.r
      [] e.op = "thawfreeze" -> Plain(e.r) /\ Freeze(e.r, TRUE) = e.a[2]
      [] OTHER -> TRUE
\* the number field of a record or class is always there
RECURSIVE Sound(_)
Sound(t) == /\ t[1] \in {"r", "c"} => t[2][3][1] = "a"
            /\ t[1] \in {"m", "v", "r", "c", "t"} => \A i \in 1..Len(t[2]) : Sound(t[2][i])
AllSound == heap = <<>> \/ Sound(heap[Len(heap)])
Persistence == [][\A i \in 1..Len(heap) : heap'[i] = heap[i]]_vars

Done == Len(h) = Depth
Emit == Done => PrintT(ToJson(h))
==============================================================================
