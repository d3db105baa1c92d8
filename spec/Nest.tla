-------------------------------- MODULE Nest --------------------------------
(* Nested declarations: records and classes whose fields are records, classes *)
(* and checked collections, created from plain data and serialized to it.     *)
(*                                                                            *)
(* A type is <<"int">>, <<"str">>,                                            *)
(*   <<"rec", fields>>, <<"cls", fields>>   three fields <<decl, T, mand, init>>, decl one of *)
(*        "none"  no such field            "field" field(type=T)              *)
(*        "any"   field(), a number or text "conv" field(type=int) with a factory and a serializer *)
(*        "pack"  field(type=a checked vector of numbers), its factory also reads text, its serializer writes it *)
(*        "seq", "oseq", "set", "oset", "map", "omap"  pvector_field, pset_field, pmap_field (o: optional) *)
(*        "iseq", "oiseq", "iset"  pvector_field, pset_field of numbers with an invariant for the items (below 100, *)
(*                error "item") and one for the field (at most 4 of them, error "many"), initially holding init *)
(*        "imap", "oimap"  pmap_field from numbers to numbers with an invariant (values below 100, error "many") *)
(*   <<"vec", T>>, <<"set", T>>, <<"map", T>>  checked collections (maps from numbers) *)
(*        of <<"zint">>: numbers, with a __serializer__ that writes text      *)
(*   <<"kmap", T>>  a checked map whose keys are records; its data is <<"k", slots>>, where a fourth slot *)
(*        stands for undeclared keys in what describes the keys               *)
(* Plain data is <<"i", n>>, <<"s", n>> (text), <<"n">> (None), <<"l", seq>>, <<"t", seq>> (a set), *)
(*   <<"m", slots>> a dict with the keys 1, 2, 3, <<"d", slots>> a dict with the fields a, b, c and one *)
(*   more key that no record declares; empty slots are <<"x">>.               *)
(* A value is written as the plain data that describes it.                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, OpSeq, TDepth, Roots

VARIABLES T, heap, h
vars == <<T, heap, h>>

NIL == <<"x">>
One(S) == CHOOSE x \in S : TRUE
Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Map3(F(_)) == <<F(1), F(2), F(3)>>

\* ----------------------------------------------------------------- declarations
Inv == {"iseq", "oiseq", "iset", "imap", "oimap"}
Coll == {"seq", "oseq", "set", "oset", "map", "omap"} \cup Inv
Opt(f) == f[1] \in {"oseq", "oset", "omap", "oiseq", "oimap"}
\* the type a field's value is checked against
FT(f) == CASE f[1] \in {"seq", "oseq"} -> <<"vec", f[2]>>
           [] f[1] \in {"set", "oset"} -> <<"set", f[2]>>
           [] f[1] \in {"map", "omap"} -> <<"map", f[2]>>
           [] f[1] = "field" -> f[2]
           [] f[1] \in {"iseq", "oiseq"} -> <<"ivec">>
           [] f[1] \in {"imap", "oimap"} -> <<"imap">>
           [] OTHER -> <<f[1]>>
IsRec(t) == t[1] \in {"rec", "cls"}
Empty(f) == CASE f[1] \in {"seq", "oseq"} -> <<"l", <<>>>>
              [] f[1] \in {"set", "oset"} -> <<"t", <<>>>>
              [] f[1] \in {"map", "omap"} -> <<"m", <<NIL, NIL, NIL>>>>
InitialOf(f) == IF f[1] \in {"imap", "oimap"} THEN <<"m", <<NIL, NIL, NIL>>>>
                ELSE IF f[1] \in Inv THEN <<IF f[1] = "iset" THEN "t" ELSE "l", IF f[4] = 0 THEN <<>> ELSE <<<<"i", f[4]>>>>>>
                ELSE IF f[1] \in Coll THEN Empty(f)
                ELSE IF f[4] = 0 THEN NIL
                ELSE IF FT(f) = <<"str">> THEN <<"s", f[4]>> ELSE <<"i", f[4]>>
\* absent is allowed, or filled in
MayMiss(f) == f[1] \in Coll \/ f[4] > 0 \/ ~f[3]

\* ----------------------------------------------------------------- creation
RECURSIVE Norm(_, _), NormSeq(_, _)
NormSeq(t, q) == IF q = <<>> THEN <<>> ELSE <<Norm(t, Head(q))>> \o NormSeq(t, Tail(q))
\* the value plain data (conforming, but for undeclared keys) describes
Norm(t, d) ==
    CASE d[1] = "n" -> d
      [] t[1] = "conv" -> <<"i", d[2]>>
      [] t[1] = "pack" -> <<"l", [i \in 1..Len(d[2]) |-> <<"i", d[2][i][2]>>]>>
      [] t[1] \in {"int", "str", "any", "zint", "ivec", "iset", "imap"} -> d
      [] t[1] = "vec" -> <<"l", NormSeq(t[2], d[2])>>
      [] t[1] = "set" -> d
      [] t[1] = "map" -> LET f(i) == IF d[2][i] = NIL THEN NIL ELSE Norm(t[2], d[2][i]) IN <<"m", Map3(f)>>
      [] t[1] = "kmap" -> LET f(i) == IF d[2][i] = NIL THEN NIL ELSE Norm(t[2], d[2][i]) IN <<"k", Append(Map3(f), NIL)>>
      [] OTHER -> LET g(i) == LET f == t[2][i] IN
                               IF f[1] = "none" THEN NIL
                               ELSE IF d[2][i] = NIL THEN InitialOf(f) ELSE Norm(FT(f), d[2][i])
                  IN <<"d", Append(Map3(g), NIL)>>
RECURSIVE Ser(_, _), SerSeq(_, _)
SerSeq(t, q) == IF q = <<>> THEN <<>> ELSE <<Ser(t, Head(q))>> \o SerSeq(t, Tail(q))
\* what serialize() gives
Ser(t, v) ==
    CASE v[1] = "n" -> v
      [] t[1] \in {"conv", "zint"} -> <<"s", v[2]>>
      [] t[1] = "pack" -> <<"l", [i \in 1..Len(v[2]) |-> <<"s", v[2][i][2]>>]>>
      [] t[1] = "set" -> <<"t", SerSeq(t[2], v[2])>>
      [] t[1] = "vec" -> <<"l", SerSeq(t[2], v[2])>>
      [] t[1] = "map" -> LET f(i) == IF v[2][i] = NIL THEN NIL ELSE Ser(t[2], v[2][i]) IN <<"m", Map3(f)>>
      [] t[1] = "kmap" -> LET f(i) == IF v[2][i] = NIL THEN NIL ELSE Ser(t[2], v[2][i]) IN <<"k", Append(Map3(f), NIL)>>
      [] IsRec(t) -> LET g(i) == IF v[2][i] = NIL THEN NIL ELSE Ser(FT(t[2][i]), v[2][i]) IN <<"d", Append(Map3(g), NIL)>>
      [] OTHER -> v

\* ----------------------------------------------------------------- changes at one place
\* all ways to change data d of type t at one place: <<path, new data>>; a path is made of field numbers, 10 + index,
\* 100 + key, 200 + key (a record), or -1 (inside a set).  Kinds: "extra" an undeclared key, "type" a leaf of a wrong type, "missing" a
\* mandatory field left out, "leaf" another leaf of the right type
RECURSIVE Muts(_, _, _), MutSeq(_, _, _, _), MutMap(_, _, _, _), MutRec(_, _, _, _)
Wrap(ms, p, F(_)) == [i \in 1..Len(ms) |-> <<<<p>> \o ms[i][1], F(ms[i][2]), ms[i][3]>>]
MutSeq(t, d, k, i) ==
    IF i > Len(d[2]) THEN <<>>
    ELSE LET f(x) == <<d[1], [d[2] EXCEPT ![i] = x]>>
         IN Wrap(Muts(t, d[2][i], k), IF d[1] = "t" THEN -1 ELSE 9 + i, f) \o MutSeq(t, d, k, i + 1)
MutMap(t, d, k, i) ==
    IF i > 3 THEN <<>>
    ELSE IF d[2][i] = NIL THEN MutMap(t, d, k, i + 1)
    ELSE LET f(x) == <<d[1], [d[2] EXCEPT ![i] = x]>>
         IN Wrap(Muts(t, d[2][i], k), (IF d[1] = "k" THEN 200 ELSE 100) + i, f) \o MutMap(t, d, k, i + 1)
MutRec(t, d, k, i) ==
    IF i > 3 THEN (IF k = "extra" THEN <<<<<<>>, <<"d", [d[2] EXCEPT ![4] = <<"i", 9>>]>>, 4>>>> ELSE <<>>)
    ELSE LET fd == t[2][i]
             f(x) == <<d[1], [d[2] EXCEPT ![i] = x]>>
         IN (IF fd[1] = "none" \/ d[2][i] = NIL THEN <<>>
             ELSE Wrap(Muts(FT(fd), d[2][i], k), i, f)
                  \o (IF k = "none" /\ fd[1] \in Coll /\ ~Opt(fd) THEN <<<<<<>>, f(<<"n">>), 0>>>> ELSE <<>>)
                  \o (IF k = "missing" /\ ~MayMiss(fd) THEN <<<<<<>>, f(NIL), i>>>> ELSE <<>>))
            \o MutRec(t, d, k, i + 1)
Muts(t, d, k) ==
    CASE d[1] = "n" -> <<>>
      [] t[1] \in {"int", "zint"} -> IF k = "type" THEN <<<<<<>>, <<"s", 5>>, 0>>>> ELSE IF k = "leaf" THEN <<<<<<>>, <<"i", (d[2] + 40) % 99>>, 0>>>> ELSE <<>>
      [] t[1] = "str" -> IF k = "type" THEN <<<<<<>>, <<"i", 5>>, 0>>>> ELSE IF k = "leaf" THEN <<<<<<>>, <<"s", d[2] + 40>>, 0>>>> ELSE <<>>
      [] t[1] = "conv" -> IF k = "type" THEN <<<<<<>>, <<"n">>, 0>>>> ELSE IF k = "leaf" THEN <<<<<<>>, <<"s", d[2] + 40>>, 0>>>> ELSE <<>>
      [] t[1] = "pack" -> IF k = "type" THEN <<<<<<>>, <<"n">>, 0>>>> ELSE IF k = "leaf" THEN <<<<<<>>, <<"l", <<<<"i", 40>>>>>>, 0>>>> ELSE <<>>
      [] t[1] \in {"ivec", "iset"} ->
           IF k = "inv" THEN <<<<<<>>, <<d[1], [i \in 1..5 |-> <<"i", 60 + i>>]>>, "many">>>> \o MutSeq(<<"iint">>, d, k, 1)
           ELSE MutSeq(<<"int">>, d, k, 1)
      [] t[1] = "imap" -> IF k = "inv" THEN MutMap(<<"mint">>, d, k, 1) ELSE MutMap(<<"int">>, d, k, 1)
      [] t[1] = "mint" -> <<<<<<>>, <<"i", 150>>, "many">>>>
      [] t[1] = "iint" -> <<<<<<>>, <<"i", 150>>, "item">>>>
      [] t[1] = "any" -> IF k = "leaf" THEN <<<<<<>>, <<"i", d[2] + 41>>, 0>>>> ELSE <<>>
      [] t[1] = "vec" -> MutSeq(t[2], d, k, 1)
      [] t[1] = "set" -> MutSeq(t[2], d, k, 1)
      [] t[1] = "map" -> MutMap(t[2], d, k, 1)
      [] t[1] = "kmap" -> MutMap(t[2], d, k, 1)
                          \o (IF k = "extra" /\ \E i \in 1..3 : d[2][i] # NIL THEN <<<<<<>>, <<"k", [d[2] EXCEPT ![4] = <<"i", 9>>]>>, 4>>>> ELSE <<>>)
      [] OTHER -> MutRec(t, d, k, 1)
\* undeclared keys at every place
RECURSIVE Extras(_, _, _)
Extras(t, d, some) ==
    LET g(x) == Extras(x, d, some) IN
    CASE d[1] = "n" -> d
      [] t[1] = "vec" -> <<"l", [i \in 1..Len(d[2]) |-> Extras(t[2], d[2][i], some)]>>
      [] t[1] = "map" -> LET f(i) == IF d[2][i] = NIL THEN NIL ELSE Extras(t[2], d[2][i], some) IN <<"m", Map3(f)>>
      [] t[1] = "kmap" -> LET f(i) == IF d[2][i] = NIL THEN NIL ELSE Extras(t[2], d[2][i], some) IN <<"k", Append(Map3(f), <<"i", 9>>)>>
      [] IsRec(t) -> LET e(i) == IF d[2][i] = NIL THEN NIL ELSE Extras(FT(t[2][i]), d[2][i], some)
                     IN <<"d", Append(Map3(e), <<"i", 9>>)>>
      [] OTHER -> d

\* ----------------------------------------------------------------- generation
RECURSIVE GenT(_), GenD(_), GenSeq(_, _)
Leaf(z) == IF RandomElement({0, 1}) = 0 THEN <<"int">> ELSE <<"str">>
GenF(d) ==
    LET k == One({RandomElement({"none", "field", "field", "any", "conv", "pack", "seq", "oseq", "set", "oset", "map", "omap", "iseq", "oiseq", "iset", "imap", "oimap"})})
        m == One({RandomElement(BOOLEAN)})
        n == One({RandomElement({0, 0, 7})})
        t == One({IF k \in {"set", "oset"} THEN Leaf(d) ELSE GenT(d)})
    IN CASE k = "none" -> <<k, <<"int">>, FALSE, 0>>
         [] k = "field" -> <<k, t, m, IF t[1] \in {"int", "str"} THEN n ELSE 0>>
         [] k = "any" -> <<k, <<"int">>, m, n>>
         [] k = "conv" -> <<k, <<"int">>, m, n>>
         [] k = "pack" -> <<k, <<"int">>, m, 0>>
         [] k \in Inv -> <<k, <<"int">>, TRUE, n>>
         [] OTHER -> <<k, t, TRUE, 0>>
GenT(d) ==
    LET c == IF d = 0 THEN "leaf" ELSE One({RandomElement({"rec", "cls", "vec", "map", "kmap", "set", "leaf"})})
    IN CASE c = "leaf" -> Leaf(d)
         [] c \in {"rec", "cls"} -> <<c, <<One({GenF(d - 1)}), One({GenF(d - 1)}), One({GenF(d - 1)})>>>>
         [] c = "kmap" -> <<c, One({GenT(d - 1)})>>
         [] c \in {"vec", "map"} -> IF RandomElement(1..6) = 1 THEN <<c, <<"zint">>>> ELSE <<c, One({GenT(d - 1)})>>
         [] OTHER -> IF RandomElement(1..4) = 1 THEN <<c, <<"zint">>>> ELSE <<c, One({Leaf(d)})>>
N(z) == RandomElement(1..30)
GenSeq(t, n) == IF n = 0 THEN <<>> ELSE Append(GenSeq(t, n - 1), One({GenD(t)}))
\* distinct leaves, so that a set has as many elements
GenSet(t, n) == LET a == One({N(0)})
                    z == IF t[1] \in {"int", "zint"} THEN "i" ELSE "s" IN IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<<<z, a>>>> ELSE <<<<z, a>>, <<z, a + 35>>>>
GenD(t) ==
    CASE t[1] \in {"int", "zint"} -> <<"i", N(t)>>
      [] t[1] = "pack" -> <<"l", GenSeq(<<IF RandomElement({0, 1}) = 0 THEN "int" ELSE "str">>, RandomElement(0..3))>>
      [] t[1] = "str" -> <<"s", N(t)>>
      [] t[1] = "conv" -> IF RandomElement({0, 1}) = 0 THEN <<"i", N(t)>> ELSE <<"s", N(t)>>
      [] t[1] = "any" -> IF RandomElement({0, 1}) = 0 THEN <<"i", N(t)>> ELSE <<"s", N(t)>>
      [] t[1] = "ivec" -> <<"l", GenSeq(<<"int">>, RandomElement(0..3))>>
      [] t[1] = "iset" -> <<"t", GenSet(<<"int">>, RandomElement(0..2))>>
      [] t[1] = "vec" -> <<"l", GenSeq(t[2], RandomElement(0..3))>>
      [] t[1] = "set" -> <<"t", GenSet(t[2], RandomElement(0..2))>>
      [] t[1] = "imap" -> LET f(i) == IF RandomElement({0, 1}) = 0 THEN NIL ELSE <<"i", N(i)>> IN <<"m", <<f(1), f(2), f(3)>>>>
      [] t[1] = "map" -> LET f(i) == IF RandomElement({0, 1}) = 0 THEN NIL ELSE One({GenD(t[2])}) IN <<"m", <<f(1), f(2), f(3)>>>>
      [] t[1] = "kmap" -> LET f(i) == IF RandomElement({0, 1}) = 0 THEN NIL ELSE One({GenD(t[2])}) IN <<"k", <<f(1), f(2), f(3), NIL>>>>
      [] OTHER -> LET g(i) == LET f == t[2][i] IN
                              IF f[1] = "none" THEN NIL
                              ELSE IF MayMiss(f) /\ RandomElement(1..3) = 1 THEN NIL
                              ELSE IF Opt(f) /\ RandomElement(1..3) = 1 THEN <<"n">>
                              ELSE One({GenD(FT(f))})
                  IN <<"d", <<g(1), g(2), g(3), NIL>>>>

\* ----------------------------------------------------------------- all small declarations
RECURSIVE CanD(_, _)
\* full data for a type
CanD(t, n) ==
    CASE t[1] = "str" -> <<"s", n>>
      [] t[1] \in {"int", "any", "zint"} -> <<"i", n>>
      [] t[1] = "pack" -> <<"l", <<<<"s", n>>, <<"i", n + 1>>>>>>
      [] t[1] \in {"ivec", "iset"} -> <<IF t[1] = "ivec" THEN "l" ELSE "t", <<<<"i", n>>, <<"i", n + 1>>>>>>
      [] t[1] = "conv" -> <<"s", n>>
      [] t[1] = "vec" -> <<"l", <<CanD(t[2], n), CanD(t[2], n + 1)>>>>
      [] t[1] = "set" -> <<"t", <<CanD(t[2], n), CanD(t[2], n + 1)>>>>
      [] t[1] = "imap" -> <<"m", <<<<"i", n>>, NIL, <<"i", n + 1>>>>>>
      [] t[1] = "map" -> <<"m", <<CanD(t[2], n), NIL, CanD(t[2], n + 1)>>>>
      [] t[1] = "kmap" -> <<"k", <<CanD(t[2], n), NIL, CanD(t[2], n + 1), NIL>>>>
      [] OTHER -> LET g(i) == IF t[2][i][1] = "none" THEN NIL ELSE CanD(FT(t[2][i]), n + i) IN <<"d", Append(Map3(g), NIL)>>
Leaves == {<<"int">>, <<"str">>}
NoF == <<"none", <<"int">>, FALSE, 0>>
Decls(S) == {<<"field", t, m, 0>> : t \in S, m \in BOOLEAN} \cup {<<k, t, TRUE, 0>> : k \in {"seq", "oseq", "map", "omap"}, t \in S}
Invs == {<<k, <<"int">>, TRUE, n>> : k \in Inv, n \in {0, 7}}
T1 == {<<c, <<<<"field", <<"int">>, TRUE, 0>>, <<"conv", <<"int">>, TRUE, 0>>, <<"pack", <<"int">>, TRUE, 0>>>>>> : c \in {"rec", "cls"}}
         \cup {<<"vec", <<"int">>>>, <<"vec", <<"zint">>>>, <<"set", <<"str">>>>, <<"set", <<"zint">>>>, <<"map", <<"str">>>>, <<"map", <<"zint">>>>}
Recs(S, first) == {<<c, <<first, f, NoF>>>> : c \in {"rec", "cls"}, f \in Decls(S) \cup (IF S = T1 THEN Invs ELSE {})}
Colls(S) == {<<c, t>> : c \in {"vec", "map", "kmap"}, t \in S}
T2 == Recs(T1, <<"any", <<"int">>, TRUE, 0>>) \cup Colls(T1)
T3 == Recs(T2, <<"set", <<"int">>, TRUE, 0>>) \cup Colls(T2)
AllT == IF TDepth = 1 THEN T1 ELSE IF TDepth = 2 THEN T2 ELSE T3

\* ----------------------------------------------------------------- events
Log(op, s, a, k, o, r) == h' = Append(h, [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r])
Keep == UNCHANGED <<T, heap>>
Skip == Log("skip", 0, <<>>, "", "ok", 0) /\ Keep
New(op, s, a, k, v) == Log(op, s, a, k, "new", v) /\ heap' = Append(heap, v) /\ UNCHANGED T
Err(op, s, a, k, e) == Log(op, s, a, k, "err", e) /\ Keep
ErrOf(kind, m) == IF kind = "extra" THEN <<"AttributeError", 0>> ELSE IF kind = "type" THEN <<"TypeError", 0>> ELSE IF kind = "none" THEN <<"NoneError", 0>>
                  ELSE IF kind = "inv" THEN <<"InvariantError", m[3]>> ELSE <<"InvariantException", m[3]>>
Data == IF Mode = "sim" THEN {One({GenD(T)})} ELSE {CanD(T, 3)}
\* the constructor of a collection does not create its elements
CtorOk == IsRec(T) \/ (T[1] # "kmap" /\ T[2] \in Leaves \cup {<<"zint">>})
How == IF CtorOk THEN {"create", "ignore", "ctor"} ELSE {"create", "ignore"}

Create == \E d \in Data : \E k \in Pick(How) : New("create", 0, <<d>>, k, Norm(T, d))
CreateX == \E d \in Data : LET x == Extras(T, d, 0) IN New("createx", 0, <<x>>, "ignore", Norm(T, x))
CreateBad ==
    \E d \in Data : \E kind \in Pick({"extra", "type", "missing", "none", "inv"}) :
        LET ms == Muts(T, d, kind)
        IN IF ms = <<>> THEN Skip
           ELSE \E i \in Pick(1..Len(ms)) : \E k \in Pick(How) :
                  LET m == ms[i]
                  IN IF kind = "extra" /\ k = "ignore" THEN New("createx", 0, <<m[2]>>, k, Norm(T, m[2]))
                     ELSE Err(IF kind = "extra" THEN "createx" ELSE "create", 0, <<m[2]>>, k, ErrOf(kind, m))
Inst == \E s \in Pick(1..Len(heap)) : \E k \in Pick({"create", "ignore"}) : Log("inst", s, <<>>, k, "same", s) /\ Keep
\* a dict cannot be the key of a dict, so a map with records for keys is not serialized
RECURSIVE HasK(_)
HasK(t) == CASE t[1] = "kmap" -> TRUE
             [] t[1] \in {"vec", "set", "map"} -> HasK(t[2])
             [] IsRec(t) -> \E i \in 1..3 : t[2][i][1] # "none" /\ HasK(FT(t[2][i]))
             [] OTHER -> FALSE
\* nothing reads back what a collection's serializer writes
RECURSIVE HasZ(_)
HasZ(t) == CASE t[1] \in {"vec", "set", "map", "kmap"} -> HasZ(t[2])
             [] IsRec(t) -> \E i \in 1..3 : t[2][i][1] # "none" /\ HasZ(FT(t[2][i]))
             [] OTHER -> t[1] = "zint"
Serialize == IF HasK(T) THEN Skip ELSE \E s \in Pick(1..Len(heap)) : Log("ser", s, <<>>, "", "val", Ser(T, heap[s])) /\ Keep
RoundTrip == IF HasK(T) \/ HasZ(T) THEN Skip ELSE \E s \in Pick(1..Len(heap)) : \E k \in Pick({"create", "ignore"}) : New("rt", s, <<>>, k, heap[s])
\* one field of the outermost record set from plain data
SetField ==
    IF ~IsRec(T) THEN Skip
    ELSE \E s \in Pick(1..Len(heap)) : \E i \in Pick(1..3) : \E k \in Pick({"pos", "kw", "ev", "tr"}) :
           LET f == T[2][i] IN
           IF f[1] = "none" THEN Err("setf", s, <<i, <<"i", 1>>>>, k, <<"AttributeError", 0>>)
           ELSE \E d \in (IF Mode = "sim" THEN {One({GenD(FT(f))})} ELSE {CanD(FT(f), 20)}) :
                \E kind \in Pick({"good", "good", "extra", "type", "missing", "none", "inv"}) :
                  LET ms == IF kind = "good" THEN <<>> ELSE Muts(FT(f), d, kind)
                      set(x) == <<"d", [heap[s][2] EXCEPT ![i] = Norm(FT(f), x)]>>
                  IN IF kind = "good" THEN New("setf", s, <<i, d>>, k, set(d))
                     ELSE IF ms = <<>> THEN Skip
                     ELSE \E j \in Pick(1..Len(ms)) : Err("setf", s, <<i, ms[j][2]>>, k, ErrOf(kind, ms[j]))
\* a leaf changed where it is, through its path
Deep == \E s \in Pick(1..Len(heap)) : \E kind \in Pick({"leaf", "leaf", "type", "inv"}) :
          LET ms == Muts(T, heap[s], kind)
          IN IF ms = <<>> THEN Skip
             ELSE \E i \in Pick(1..Len(ms)) :
                    LET m == ms[i]
                        at(q) == LET RECURSIVE Get(_, _, _)
                                     Get(t, d, p) == IF p = <<>> THEN <<t, d>>
                                                     ELSE LET x == Head(p) IN
                                                          CASE t[1] = "ivec" -> Get(<<"int">>, d[2][x - 9], Tail(p))
                                                            [] t[1] = "imap" -> Get(<<"int">>, d[2][x - 100], Tail(p))
                                                            [] x > 200 -> Get(t[2], d[2][x - 200], Tail(p))
                                                            [] x > 100 -> Get(t[2], d[2][x - 100], Tail(p))
                                                            [] x >= 10 -> Get(t[2], d[2][x - 9], Tail(p))
                                                            [] OTHER -> Get(FT(t[2][x]), d[2][x], Tail(p))
                                 IN Get(T, q, m[1])
                    IN IF \E j \in 1..Len(m[1]) : m[1][j] = -1 THEN Skip
                       ELSE IF m[1] = <<>> THEN Skip
                       ELSE IF kind = "leaf" THEN New("deep", s, <<m[1], at(m[2])[2]>>, "", Norm(T, m[2]))
                       ELSE Err("deep", s, <<m[1], at(m[2])[2]>>, "", ErrOf(kind, m))

\* TLC computes the initial states once, so the declaration is chosen by the first step
Init == T = <<"int">> /\ heap = <<>> /\ h = <<>>
Start == \E t \in (IF Mode = "sim" THEN {<<RandomElement(Roots), 0>>} ELSE {t \in AllT : t[1] \in Roots}) :
         \E u \in {IF Mode # "sim" THEN t
                   ELSE IF t[1] \in {"rec", "cls"} THEN <<t[1], <<One({GenF(TDepth - 1)}), One({GenF(TDepth - 1)}), One({GenF(TDepth - 1)})>>>>
                   ELSE <<t[1], One({GenT(TDepth - 1)})>>} :
         \E d \in (IF Mode = "sim" THEN {One({GenD(u)})} ELSE {CanD(u, 3)}) :
             /\ T' = u
             /\ heap' = <<Norm(u, d)>>
             /\ h' = <<[op |-> "schema", s |-> 0, a |-> u, k |-> "", o |-> "ok", r |-> 0],
                       [op |-> "create", s |-> 0, a |-> <<d>>, k |-> "create", o |-> "new", r |-> Norm(u, d)]>>
Do(op) == CASE op = "create" -> Create [] op = "createx" -> CreateX [] op = "bad" -> CreateBad [] op = "inst" -> Inst
            [] op = "ser" -> Serialize [] op = "rt" -> RoundTrip [] op = "setf" -> SetField [] op = "deep" -> Deep
OpsAll == <<"create", "createx", "createx", "bad", "bad", "bad", "inst", "ser", "rt", "rt", "setf", "setf", "setf", "deep", "deep">>
Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ IF h = <<>> THEN Start
           ELSE \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

\* ----------------------------------------------------------------- properties of the specification
\* what is serialized describes the value, and undeclared keys never do
RoundTrips == \A i \in 1..Len(heap) : /\ Norm(T, heap[i]) = heap[i]
                                      /\ HasZ(T) \/ /\ Norm(T, Ser(T, heap[i])) = heap[i]
                                                    /\ Norm(T, Extras(T, Ser(T, heap[i]), 0)) = heap[i]
\* every value has what is mandatory and nothing undeclared
RECURSIVE Conforms(_, _)
Conforms(t, v) ==
    CASE v[1] = "n" -> TRUE
      [] t[1] \in {"int", "conv", "zint"} -> v[1] = "i"
      [] t[1] = "imap" -> \A i \in 1..3 : v[2][i] = NIL \/ (v[2][i][1] = "i" /\ v[2][i][2] < 100)
      [] t[1] \in {"ivec", "iset"} -> Len(v[2]) < 5 /\ \A i \in 1..Len(v[2]) : v[2][i][1] = "i" /\ v[2][i][2] < 100
      [] t[1] = "pack" -> \A i \in 1..Len(v[2]) : v[2][i][1] = "i"
      [] t[1] = "str" -> v[1] = "s"
      [] t[1] = "any" -> v[1] \in {"i", "s"}
      [] t[1] \in {"vec", "set"} -> \A i \in 1..Len(v[2]) : Conforms(t[2], v[2][i])
      [] t[1] \in {"map", "kmap"} -> \A i \in 1..3 : v[2][i] = NIL \/ Conforms(t[2], v[2][i])
      [] OTHER -> /\ v[2][4] = NIL
                  /\ \A i \in 1..3 : LET f == t[2][i] IN
                       IF v[2][i] = NIL THEN f[1] = "none" \/ (f[1] \notin Coll /\ ~f[3])
                       ELSE f[1] # "none" /\ (v[2][i][1] = "n" => Opt(f)) /\ Conforms(FT(f), v[2][i])
AllConform == \A i \in 1..Len(heap) : Conforms(T, heap[i])
Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
