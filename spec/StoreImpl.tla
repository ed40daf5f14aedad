----------------------------- MODULE StoreImpl -----------------------------
(***************************************************************************)
(* The indexed dataset as it is built: two slabs with last-freed-first     *)
(* reuse of slots, per-resource sets of quad slots for each role, and the  *)
(* role sets of the dataset; the two B-trees are the sets of occupied      *)
(* slots, searched by value.  The state is one record so that each call is *)
(* one operator made of the same steps as the code.                        *)
(***************************************************************************)
EXTENDS Store

VACANT == <<>>

EmptyImpl == [ quads |-> <<>>, qfree |-> <<>>,      \* slab of <<s,p,o,g>> resource slots
               res |-> <<>>, rfree |-> <<>>,        \* slab of [v, r] , r = <<S,P,O,G>> slot sets
               roles |-> <<{}, {}, {}, {}>>,        \* subjects, predicates, objects, named graphs
               dflt |-> {} ]                        \* quad slots of the default graph

Occupied(slab) == {i \in 1..Len(slab) : slab[i] # VACANT}
VacantKey(slab, free) == IF free = <<>> THEN Len(slab) + 1 ELSE Head(free)
SlabPut(slab, i, x) == IF i = Len(slab) + 1 THEN Append(slab, x) ELSE [slab EXCEPT ![i] = x]
PopFree(free) == IF free = <<>> THEN <<>> ELSE Tail(free)

(* Value of a quad slot; 0 stands for the default graph. *)
QuadAt(st, i) ==
  LET q == st.quads[i] IN
  << st.res[q[1]].v, st.res[q[2]].v, st.res[q[3]].v, IF q[4] = 0 THEN DEFAULT ELSE st.res[q[4]].v >>

Abs(st) == {QuadAt(st, i) : i \in Occupied(st.quads)}

(* Slot of a resource or quad, 0 if there is none: a B-tree lookup. *)
ResSlot(st, v) ==
  IF \E i \in Occupied(st.res) : st.res[i].v = v
  THEN CHOOSE i \in Occupied(st.res) : st.res[i].v = v ELSE 0
QuadSlot(st, q) ==
  IF \E i \in Occupied(st.quads) : QuadAt(st, i) = q
  THEN CHOOSE i \in Occupied(st.quads) : QuadAt(st, i) = q ELSE 0

(* insert: one step per component, k being the role. *)
UseResource(st, v, k, i) ==
  LET j == ResSlot(st, v)
      n == VacantKey(st.res, st.rfree)
      fresh == [v |-> v, r |-> [m \in 1..4 |-> IF m = k THEN {i} ELSE {}]] IN
  IF j # 0
  THEN [st |-> [st EXCEPT !.res[j].r[k] = @ \cup {i}], slot |-> j]
  ELSE [st |-> [st EXCEPT !.res = SlabPut(@, n, fresh), !.rfree = PopFree(@)], slot |-> n]

ImplInsert(st, q) ==
  IF QuadSlot(st, q) # 0 THEN [st |-> st, ret |-> FALSE]
  ELSE
  LET i == VacantKey(st.quads, st.qfree)
      a == UseResource(st, q[1], 1, i)
      b == UseResource(a.st, q[2], 2, i)
      c == UseResource(b.st, q[3], 3, i)
      d == IF q[4] = DEFAULT THEN [st |-> [c.st EXCEPT !.dflt = @ \cup {i}], slot |-> 0]
           ELSE UseResource(c.st, q[4], 4, i)
      e == [d.st EXCEPT !.roles = << @[1] \cup {a.slot}, @[2] \cup {b.slot}, @[3] \cup {c.slot},
                                     IF d.slot = 0 THEN @[4] ELSE @[4] \cup {d.slot} >>,
                        !.quads = SlabPut(@, i, <<a.slot, b.slot, c.slot, d.slot>>),
                        !.qfree = PopFree(@)]
  IN [st |-> e, ret |-> TRUE]

(* remove_by_index. *)
DropUse(st, j, k, i) ==
  LET s1 == [st EXCEPT !.res[j].r[k] = @ \ {i}]
      s2 == IF s1.res[j].r[k] = {} THEN [s1 EXCEPT !.roles[k] = @ \ {j}] ELSE s1 IN
  IF \A m \in 1..4 : s2.res[j].r[m] = {}
  THEN [s2 EXCEPT !.res[j] = VACANT, !.rfree = <<j>> \o @]
  ELSE s2

RemoveAt(st, i) ==
  LET q == st.quads[i]
      s0 == [st EXCEPT !.quads[i] = VACANT, !.qfree = <<i>> \o @]
      s1 == DropUse(s0, q[1], 1, i)
      s2 == DropUse(s1, q[2], 2, i)
      s3 == DropUse(s2, q[3], 3, i) IN
  IF q[4] = 0 THEN [s3 EXCEPT !.dflt = @ \ {i}] ELSE DropUse(s3, q[4], 4, i)

ImplRemove(st, q) ==
  LET i == QuadSlot(st, q) IN
  IF i = 0 THEN [st |-> st, ret |-> FALSE] ELSE [st |-> RemoveAt(st, i), ret |-> TRUE]

RECURSIVE RemoveAll(_, _)
RemoveAll(st, I) ==
  IF I = {} THEN st
  ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j IN RemoveAll(RemoveAt(st, i), I \ {i})

ImplRemoveGraph(st, g) ==
  LET j == IF g = DEFAULT THEN 0 ELSE ResSlot(st, g)
      absent == g # DEFAULT /\ (j = 0 \/ j \notin st.roles[4])
      I == IF g = DEFAULT THEN st.dflt ELSE IF absent THEN {} ELSE st.res[j].r[4] IN
  [ st |-> RemoveAll(st, I),
    ret |-> IF absent THEN <<>> ELSE <<{ToTriple(QuadAt(st, i)) : i \in I}>> ]

(* Search: candidate slots of each constraint, merged by an increasing      *)
(* cursor.  A constraint is "no slot", "every slot", a comparison between   *)
(* components, or a finite set of slots.                                    *)
Cands(st, c, k) ==
  IF c = DEFAULT THEN st.dflt
  ELSE LET j == ResSlot(st, c) IN IF j = 0 THEN {} ELSE st.res[j].r[k]

NextOf(I, i) == IF \E j \in I : j >= i THEN CHOOSE j \in I : j >= i /\ \A m \in I : m >= i => j <= m ELSE 0

(* One step of a non-subject constraint at slot i: i if satisfied, else the *)
(* next slot to try (0: none).                                              *)
Step(st, c, k, i) ==
  CASE c = ANY -> i
    [] c < ANY -> IF st.quads[i][k] = st.quads[i][-1 - c] THEN i ELSE i + 1
    [] OTHER -> NextOf(Cands(st, c, k), i)

RECURSIVE Search(_, _, _)
Search(st, pat, i0) ==
  IF i0 > Len(st.quads) THEN <<>>
  ELSE LET i == IF pat[1] = ANY THEN i0 ELSE NextOf(Cands(st, pat[1], 1), i0) IN
  IF i = 0 THEN <<>>
  ELSE IF st.quads[i] = VACANT THEN Search(st, pat, i + 1)
  ELSE LET p == Step(st, pat[2], 2, i) IN
       IF p # i THEN (IF p = 0 THEN <<>> ELSE Search(st, pat, p))
       ELSE LET o == Step(st, pat[3], 3, i) IN
            IF o # i THEN (IF o = 0 THEN <<>> ELSE Search(st, pat, o))
            ELSE LET g == Step(st, pat[4], 4, i) IN
                 IF g # i THEN (IF g = 0 THEN <<>> ELSE Search(st, pat, g))
                 ELSE <<i>> \o Search(st, pat, i + 1)

(* Extraction: the slots are found as by Search, and removed one by one.    *)
RECURSIVE RemoveSeq(_, _)
RemoveSeq(st, sq) == IF sq = <<>> THEN st ELSE RemoveSeq(RemoveAt(st, Head(sq)), Tail(sq))
ImplExtract(st, pat, k) ==
  LET found == Search(st, pat, 1)
      taken == SubSeq(found, 1, Min(k, Len(found))) IN
  [ st |-> RemoveSeq(st, taken), ret |-> [n \in 1..Len(taken) |-> QuadAt(st, taken[n])] ]

(* Consistency of the indexes with the slabs. *)
IndexesExact(st) ==
  LET QS == Occupied(st.quads) IN
  /\ \A i, j \in QS : QuadAt(st, i) = QuadAt(st, j) => i = j
  /\ \A i, j \in Occupied(st.res) : st.res[i].v = st.res[j].v => i = j
  /\ \A j \in Occupied(st.res) : \A k \in 1..4 : st.res[j].r[k] = {i \in QS : st.quads[i][k] = j}
  /\ \A k \in 1..4 : st.roles[k] = {j \in Occupied(st.res) : st.res[j].r[k] # {}}
  /\ \A j \in Occupied(st.res) : \E k \in 1..4 : st.res[j].r[k] # {}
  /\ st.dflt = {i \in QS : st.quads[i][4] = 0}
  /\ {st.res[j].v : j \in Occupied(st.res)} = Resources(Abs(st))
  /\ Rng(st.qfree) = 1..Len(st.quads) \ QS /\ Len(st.qfree) = Cardinality(1..Len(st.quads) \ QS)
=============================================================================
