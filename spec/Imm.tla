-------------------------------- MODULE Imm ---------------------------------
(* Classes made by immutable(): a fixed list of members, some of them frozen. *)
(* An instance is a tuple with one number per member.  An optional rule of    *)
(* the class (member 1 must be at least one) stands for a validating __new__. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS Mode, Depth, OpSeq, MaxHeap, MaxMembers

VARIABLES n, frozen, rule, heap, h
vars == <<n, frozen, rule, heap, h>>

Members == 1..n
Unknown == {8, 9}          \* 9 also ends in an underscore
Pick(S) == IF Mode = "sim" THEN {RandomElement(S)} ELSE S
Nums == IF Mode = "sim" THEN 0..5 ELSE 0..1
Ok(t) == rule = 1 /\ n > 0 => t[1] >= 1
Live == 1..Len(heap)
Ev(op, s, a, k, o, r) == [op |-> op, s |-> s, a |-> a, k |-> k, o |-> o, r |-> r]
Log(e) == h' = Append(h, e)
Keep(op, s, a, k, o, r) == Log(Ev(op, s, a, k, o, r)) /\ UNCHANGED <<n, frozen, rule, heap>>
NewI(op, s, a, k, t) == IF Ok(t) THEN heap' = Append(heap, t) /\ Log(Ev(op, s, a, k, "new", t)) /\ UNCHANGED <<n, frozen, rule>>
                        ELSE Keep(op, s, a, k, "err", "ValueError")
Skip == Keep("skip", 0, <<>>, "", "ok", 0)

Tuples == IF Mode = "sim" THEN {[i \in Members |-> RandomElement(Nums)]} ELSE [Members -> Nums]
New == \E t \in Tuples : \E k \in Pick({"pos", "kw", "mixed", "make"}) :
         IF k = "make" /\ rule = 1 THEN Skip
         ELSE NewI("new", 0, t, k, t)
\* too many, too few or unknown arguments
NewBad == \E k \in Pick({"more", "fewer", "unknown", "twice"}) :
         IF n = 0 /\ k \in {"fewer", "twice"} THEN Skip ELSE Keep("newbad", 0, <<>>, k, "err", "TypeError")
Names == IF Mode = "sim" THEN {{m \in Members \cup Unknown : RandomElement(1..8) <= (IF m \in Unknown THEN 1 ELSE IF m \in frozen THEN 1 ELSE 4)}}
         ELSE SUBSET (Members \cup {8})
Set == \E s \in Pick(Live) : \E S \in Names : \E x \in Pick(Nums) :
         LET t == heap[s]
             new == [i \in Members |-> IF i \in S THEN (x + i) % 6 ELSE t[i]]
             a == {<<m, (x + m) % 6>> : m \in S}
         IN IF S = {} THEN Keep("set", s, a, "", "same", s)
            ELSE IF S \cap Unknown # {} \/ S \cap frozen # {} THEN Keep("set", s, a, "", "err", "AttributeError")
            ELSE NewI("set", s, a, "", new)
Assign == \E s \in Pick(Live) : \E m \in Pick(Members \cup {8}) : \E k \in Pick({"set", "del"}) :
         Keep("assign", s, <<m>>, k, "err", "AttributeError")
Item == \E s \in Pick(Live) : \E k \in Pick({"set", "del"}) : Keep("item", s, <<>>, k, "err", "TypeError")
Get == \E s \in Pick(Live) : IF n = 0 THEN Skip ELSE \E m \in Pick(Members) : \E k \in Pick({"attr", "item", "back"}) :
         Keep("get", s, <<m>>, k, "val", heap[s][m])
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > n THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i + 1)
\* equality, ordering and hash are those of the tuple, against instances and plain tuples
Cmp == \E s \in Pick(Live) : \E u \in Pick(Live) : \E k \in Pick({"inst", "tuple"}) :
         Keep("cmp", s, <<u>>, k, "val", IF heap[s] = heap[u] THEN 0 ELSE IF Less(heap[s], heap[u], 1) THEN -1 ELSE 1)
Repr == \E s \in Pick(Live) : Keep("repr", s, <<>>, "", "val", heap[s])
Copy == \E s \in Pick(Live) : \E k \in Pick({"copy", "deepcopy"}) : NewI("copy", s, <<>>, k, heap[s])

Init == /\ n \in 0..MaxMembers
        /\ frozen \in SUBSET Members
        /\ rule \in {0, 1}
        /\ heap = <<>>
        /\ h = <<Ev("decl", 0, <<n, frozen, rule>>, "", "ok", 0)>>
Do(op) == IF op \in {"new", "set", "copy"} /\ Len(heap) >= MaxHeap THEN Skip
          ELSE IF heap = <<>> THEN New
          ELSE CASE op = "new" -> New
                 [] op = "newbad" -> NewBad
                 [] op = "set" -> Set
                 [] op = "assign" -> Assign
                 [] op = "item" -> Item
                 [] op = "get" -> Get
                 [] op = "cmp" -> Cmp
                 [] op = "repr" -> Repr
                 [] op = "copy" -> Copy
OpsAll == <<"new", "newbad", "set", "set", "set", "set", "assign", "item", "get", "cmp", "cmp", "repr", "copy">>
OpsBfs == <<"set", "assign", "cmp">>
Range(q) == {q[i] : i \in 1..Len(q)}
Next == /\ Len(h) <= Depth
        /\ \E op \in (IF Mode = "sim" THEN {OpSeq[RandomElement(1..Len(OpSeq))]} ELSE Range(OpSeq)) : Do(op)
Spec == Init /\ [][Next]_vars

Persistence == [][\A i \in 1..Len(heap) : heap'[i] = heap[i]]_vars
\* what a frozen member holds is what some constructor call gave it
FrozenKept == [][\A f \in frozen : Len(heap') > Len(heap) /\ h'[Len(h')].op = "set" => heap'[Len(heap')][f] = heap[h'[Len(h')].s][f]]_vars
RuleHolds == \A i \in 1..Len(heap) : Ok(heap[i])
Done == Len(h) = Depth + 1
Emit == Done => PrintT(ToJson(h))
==============================================================================
