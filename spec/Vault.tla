------------------------------- MODULE Vault -------------------------------
(***************************************************************************)
(* The database in memory: a tree of groups and entries, and every         *)
(* operation of the library on it: traversal, lookup, search, addition,    *)
(* removal, their mutable forms, and saving and opening again.             *)
(*                                                                         *)
(* A group is [k, id, w, v, p, es, gs] and an entry [k, id, w, v, p]: k    *)
(* names its content, id is its identifier (0 is the nil identifier, and   *)
(* identifiers may occur more than once), w is the word that a search can  *)
(* find in it, v changes with every edit, p is the parent link. The        *)
(* history of each entry holds an entry with another identifier, which no  *)
(* lookup may find. Places in the tree are paths: sequences of child       *)
(* numbers, and a path with a number for an entry.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Groups,    \* number of groups of the starting trees
          Entries,   \* at most this many entries in them
          Ids,       \* identifiers
          MaxOps,    \* operations
          OpsUsed,   \* names of operations
          Shapes,    \* of the starting trees of a simulation
          Big,       \* number of groups or entries in the large ones
          Random     \* TRUE: simulation

Absent == 9
LookIds == Ids \cup {Absent}
Queries == {"all", "a", "b", "none"}
Finds(w, q) == CASE w = "none" -> FALSE [] q = "all" -> TRUE [] OTHER -> w = q

Range(f) == {f[x] : x \in DOMAIN f}
SetToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Select(s, F(_)) == SelectSeq(s, F)
SE == INSTANCE SequencesExt
Flat(s) == SE!FlattenSeq(s)
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Least(S) == CHOOSE n \in S : \A m \in S : n <= m

-----------------------------------------------------------------------------
(* Trees *)

RECURSIVE At(_, _), Put(_, _, _), Paths(_)
At(g, path) == IF path = <<>> THEN g ELSE At(g.gs[Head(path)], Tail(path))
Put(g, path, x) == IF path = <<>> THEN x ELSE [g EXCEPT !.gs[Head(path)] = Put(@, Tail(path), x)]
Paths(g) == {<<>>} \cup UNION {{<<i>> \o q : q \in Paths(g.gs[i])} : i \in 1..Len(g.gs)}

\* Breadth first: a level, and below it the children of the level in order.
RECURSIVE Levels(_, _)
Levels(t, level) ==
  IF level = <<>> THEN <<>>
  ELSE level \o Levels(t, Flat(Map(level, LAMBDA q : [i \in 1..Len(At(t, q).gs) |-> Append(q, i)])))
Order(t) == Levels(t, << <<>> >>)
\* The entries in the order in which the traversal meets them, as <<path, number>>.
EntryOrder(t) == Flat(Map(Order(t), LAMBDA q : [i \in 1..Len(At(t, q).es) |-> <<q, i>>]))
EAt(t, x) == At(t, x[1]).es[x[2]]
PutE(t, x, e) == Put(t, x[1], [At(t, x[1]) EXCEPT !.es[x[2]] = e])

FirstIn(s, F(_)) == LET I == {i \in 1..Len(s) : F(s[i])} IN IF I = {} THEN <<>> ELSE <<s[Least(I)]>>
LookE(t, id) == FirstIn(EntryOrder(t), LAMBDA x : EAt(t, x).id = id)
LookG(t, id) == FirstIn(Order(t), LAMBDA q : At(t, q).id = id)
SearchE(t, q) == Select(EntryOrder(t), LAMBDA x : Finds(EAt(t, x).w, q))
SearchG(t, q) == Select(Order(t), LAMBDA x : Finds(At(t, x).w, q))

\* New content for several groups or entries: n + 1 for the first, n + 2 for the next.
RECURSIVE TouchG(_, _, _), TouchE(_, _, _)
TouchG(t, xs, n) == IF xs = <<>> THEN t ELSE TouchG(Put(t, Head(xs), [At(t, Head(xs)) EXCEPT !.v = n + 1]), Tail(xs), n + 1)
TouchE(t, xs, n) == IF xs = <<>> THEN t ELSE TouchE(PutE(t, Head(xs), [EAt(t, Head(xs)) EXCEPT !.v = n + 1]), Tail(xs), n + 1)

NewE(n, id, w) == [k |-> n, id |-> id, w |-> w, v |-> 0, p |-> 0]
NewG(n, id, w) == [k |-> n, id |-> id, w |-> w, v |-> 0, p |-> 0, es |-> <<>>, gs |-> <<>>]

\* One new entry in each group, with numbers in traversal order.
RECURSIVE AddAll(_, _, _, _)
AddAll(t, ps, n, id) ==
  IF ps = <<>> THEN t
  ELSE AddAll(Put(t, Head(ps), [At(t, Head(ps)) EXCEPT !.es = Append(@, NewE(n + 1, id, "a"))]), Tail(ps), n + 1, id)
DropAll(t, id) ==
  LET RECURSIVE D(_)
      D(g) == LET I == {i \in 1..Len(g.es) : g.es[i].id = id}
              IN [g EXCEPT !.es = IF I = {} THEN g.es ELSE Remove(g.es, Least(I)), !.gs = Map(g.gs, D)]
  IN D(t)

\* Opening sets the parent links.
RECURSIVE Linked(_, _)
Linked(g, p) == [g EXCEPT !.p = p, !.es = Map(g.es, LAMBDA e : [e EXCEPT !.p = g.id]), !.gs = Map(g.gs, LAMBDA c : Linked(c, g.id))]

DirectE(g, id) == {i \in 1..Len(g.es) : g.es[i].id = id}
DirectG(g, id) == {i \in 1..Len(g.gs) : g.gs[i].id = id}

-----------------------------------------------------------------------------
(* Operations. n is a number not used before; the result is what the call
   returns: a sequence of paths, or the removed child. *)

Op(name, path, id, to, q) == [op |-> name, path |-> path, id |-> id, to |-> to, q |-> q]

Without(t, o) == \* the tree after the removal that is the first part of a move
  LET g == At(t, o.path)
      I == IF o.op = "moveE" THEN DirectE(g, o.id) ELSE DirectG(g, o.id)
  IN IF I = {} THEN t
     ELSE Put(t, o.path, IF o.op = "moveE" THEN [g EXCEPT !.es = Remove(@, Least(I))] ELSE [g EXCEPT !.gs = Remove(@, Least(I))])

Apply(t, o, n) ==
  LET g == At(t, o.path)
      R(tree, res) == [t |-> tree, res |-> res]
  IN CASE o.op = "addE" -> R(Put(t, o.path, [g EXCEPT !.es = Append(@, NewE(n + 1, o.id, o.q))]), <<>>)
       [] o.op = "addG" -> R(Put(t, o.path, [g EXCEPT !.gs = Append(@, NewG(n + 1, o.id, o.q))]), <<>>)
       [] o.op = "rmE" -> LET I == DirectE(g, o.id) IN
            IF I = {} THEN R(t, <<>>) ELSE R(Put(t, o.path, [g EXCEPT !.es = Remove(@, Least(I))]), <<g.es[Least(I)]>>)
       [] o.op = "rmG" -> LET I == DirectG(g, o.id) IN
            IF I = {} THEN R(t, <<>>) ELSE R(Put(t, o.path, [g EXCEPT !.gs = Remove(@, Least(I))]), <<g.gs[Least(I)]>>)
       [] o.op = "moveE" -> LET I == DirectE(g, o.id) u == Without(t, o) IN
            IF I = {} THEN R(t, <<>>) ELSE R(Put(u, o.to, [At(u, o.to) EXCEPT !.es = Append(@, g.es[Least(I)])]), <<g.es[Least(I)]>>)
       [] o.op = "moveG" -> LET I == DirectG(g, o.id) u == Without(t, o) IN
            IF I = {} THEN R(t, <<>>) ELSE R(Put(u, o.to, [At(u, o.to) EXCEPT !.gs = Append(@, g.gs[Least(I)])]), <<g.gs[Least(I)]>>)
       [] o.op = "copyG" -> R(Put(t, o.to, [At(t, o.to) EXCEPT !.gs = Append(@, g)]), <<>>)
       [] o.op = "iter" -> R(t, Order(t))
       [] o.op = "subIter" -> R(t, Map(Order(g), LAMBDA x : o.path \o x))
       [] o.op = "iterMut" -> R(TouchG(t, Order(t), n), Order(t))
       [] o.op = "iterMutSome" -> LET xs == SubSeq(Order(t), 1, o.id) IN R(TouchG(t, xs, n), xs)
       [] o.op = "subIterMut" -> LET xs == Map(Order(g), LAMBDA x : o.path \o x) IN R(TouchG(t, xs, n), xs)
       [] o.op = "iterAdd" -> R(AddAll(t, Order(t), n, o.id), Order(t))
       [] o.op = "iterRm" -> R(DropAll(t, o.id), Order(t))
       [] o.op = "getE" -> R(t, LookE(t, o.id))
       [] o.op = "getG" -> R(t, LookG(t, o.id))
       [] o.op = "getEm" -> R(TouchE(t, LookE(t, o.id), n), LookE(t, o.id))
       [] o.op = "getGm" -> R(TouchG(t, LookG(t, o.id), n), LookG(t, o.id))
       [] o.op = "findE" -> R(t, SearchE(t, o.q))
       [] o.op = "findG" -> R(t, SearchG(t, o.q))
       [] o.op = "findEm" -> R(TouchE(t, SearchE(t, o.q), n), SearchE(t, o.q))
       [] o.op = "findGm" -> R(TouchG(t, SearchG(t, o.q), n), SearchG(t, o.q))
       [] o.op = "saveOpen" -> R(Linked(t, 0), <<>>)

\* The numbers that an operation uses up.
Used(t) == 1 + Cardinality(Paths(t)) + Len(EntryOrder(t))

Z == <<>>
OpSet(t) ==
  LET P == Paths(t)
      Of(names, S) == IF names \cap OpsUsed = {} THEN {} ELSE S
  IN Of({"addE"}, {Op("addE", p, id, Z, w) : p \in P, id \in Ids, w \in {"a", "none"}})
     \cup Of({"addG"}, {Op("addG", p, id, Z, "b") : p \in P, id \in Ids})
     \cup Of({"rmE"}, {Op("rmE", p, id, Z, "") : p \in P, id \in LookIds})
     \cup Of({"rmG"}, {Op("rmG", p, id, Z, "") : p \in P, id \in LookIds})
     \cup Of({"moveE"}, {Op("moveE", p, id, q, "") : p \in P, id \in Ids, q \in P})
     \cup Of({"moveG"}, UNION {{Op("moveG", p, id, q, "") : q \in Paths(Without(t, Op("moveG", p, id, Z, "")))} : p \in P, id \in Ids})
     \cup Of({"copyG"}, {Op("copyG", p, 0, q, "") : p \in P, q \in P})
     \cup Of({"subIter"}, {Op(name, p, 0, Z, "") : p \in P, name \in {"subIter", "subIterMut"}})
     \cup Of({"iterMutSome"}, {Op("iterMutSome", Z, i, Z, "") : i \in 0..(Cardinality(P) - 1)})
     \cup Of({"iterAdd"}, {Op(name, Z, id, Z, "") : id \in Ids, name \in {"iterAdd", "iterRm"}})
     \cup UNION {Of({name}, {Op(name, Z, 0, Z, "")}) : name \in {"iter", "iterMut", "saveOpen"}}
     \cup UNION {Of({name}, {Op(name, Z, id, Z, "") : id \in LookIds}) : name \in {"getE", "getG", "getEm", "getGm"}}
     \cup UNION {Of({name}, {Op(name, Z, 0, Z, q) : q \in Queries}) : name \in {"findE", "findG", "findEm", "findGm"}}

-----------------------------------------------------------------------------
(* Starting trees: every shape, every distribution of entries over it, every
   assignment of identifiers. *)

RECURSIVE Shape(_), Forest(_)
Shape(n) == {[gs |-> f] : f \in Forest(n - 1)}
Forest(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<t>> \o f : t \in Shape(k), f \in Forest(n - k)} : k \in 1..n}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Word(n) == IF n % 2 = 0 THEN "a" ELSE "b"
RECURSIVE Grown(_, _, _, _, _, _)
Grown(shape, path, cnt, gid, eid, num) ==
  [k |-> num[path], id |-> gid[path], w |-> Word(num[path]), v |-> 0, p |-> 0,
   es |-> [i \in 1..cnt[path] |-> [k |-> 100 * num[path] + i, id |-> eid[<<path, i>>],
                                   w |-> IF (num[path] + i) % 3 = 0 THEN "none" ELSE Word(num[path] + i), v |-> 0, p |-> 0]],
   gs |-> [i \in 1..Len(shape.gs) |-> Grown(shape.gs[i], Append(path, i), cnt, gid, eid, num)]]

\* Large trees: one level, one line, and both.
IdOf(i) == i % Cardinality(Ids)
EntryNo(i) == NewE(2000 + i, IdOf(i), IF i % 3 = 0 THEN "none" ELSE Word(i))
Leaf(i) == NewG(1 + i, IdOf(i + 1), Word(i))
RECURSIVE Line(_, _)
Line(i, m) == IF i = m THEN Leaf(i)
              ELSE [Leaf(i) EXCEPT !.es = <<EntryNo(i)>>, !.gs = IF i % 4 = 0 THEN <<Leaf(2 * m + i), Line(i + 1, m)>> ELSE <<Line(i + 1, m)>>]
Large(shape) ==
  CASE shape = "one" -> NewG(1, 1, "a")
    [] shape = "entries" -> [Leaf(0) EXCEPT !.es = [i \in 1..Big |-> EntryNo(i)], !.gs = <<Leaf(1)>>]
    [] shape = "groups" -> [Leaf(0) EXCEPT !.gs = [i \in 1..Big |-> Leaf(i)], !.es = <<EntryNo(1)>>]
    [] shape = "line" -> Line(0, IF Big > 400 THEN 180 ELSE Big \div 2)
    [] shape = "comb" -> [Leaf(0) EXCEPT !.gs = [i \in 1..(Big \div 5) |->
                            [Leaf(i) EXCEPT !.es = <<EntryNo(i), EntryNo(Big + i)>>, !.gs = <<Leaf(Big + i), [Leaf(2 * Big + i) EXCEPT !.es = <<EntryNo(2 * Big + i)>>]>>]]]

VARIABLES tree, start, hist, n
vars == <<tree, start, hist, n>>

InitAll == \E size \in Groups : \E shape \in Shape(size) :
             LET P == Paths(shape)
                 seq == SetToSeq(P)
                 num == [p \in P |-> CHOOSE i \in 1..Cardinality(P) : seq[i] = p]
             IN \E cnt \in {f \in [P -> 0..Entries] : SumOver(f, P) <= Entries} :
                  \E gid \in [P -> Ids] :
                    \E eid \in [{<<p, i>> : p \in P, i \in 1..Entries} \cap {<<p, i>> : p \in P, i \in 1..Entries} -> Ids] :
                      /\ \A p \in P, i \in 1..Entries : i > cnt[p] => eid[<<p, i>>] = Least(Ids)
                      /\ tree = Grown(shape, <<>>, cnt, gid, eid, num)
Init == /\ IF Random THEN \E s \in Shapes : tree = Large(s) ELSE InitAll
        /\ start = tree /\ hist = <<>> /\ n = 10000

Do(o) == LET r == Apply(tree, o, n)
         IN /\ tree' = r.t
            /\ hist' = Append(hist, [o |-> o, res |-> r.res, n |-> n, t |-> r.t])
            /\ n' = n + Used(tree)
            /\ UNCHANGED start

Step == ~Random /\ Len(hist) < MaxOps /\ \E o \in OpSet(tree) : Do(o)
\* Large trees are thinned out, small ones grow.
Size == Cardinality(Paths(tree)) + Len(EntryOrder(tree))
PickOp == LET names == IF Size < 6 THEN {"addE", "addG", "addG", "copyG"} \cap OpsUsed
                       ELSE IF Size > 24 /\ Size > 2 * Big THEN {"rmG", "rmE"}
                       ELSE OpsUsed
              IN RandomElement(names)
Walk == /\ Random /\ Len(hist) < MaxOps
        /\ \E name \in {PickOp} :
             \E p \in {IF Big > 0 /\ RandomElement(1..3) > 1 THEN <<>> ELSE RandomElement(Paths(tree))}, id \in {RandomElement(LookIds)}, q \in {RandomElement(Queries)} :
               \E d \in {RandomElement(Range(Map(At(tree, p).es, LAMBDA e : e.id)) \cup Range(Map(At(tree, p).gs, LAMBDA g : g.id)) \cup {id})} :
               CASE name = "addE" -> Do(Op(name, p, IF id = Absent THEN 1 ELSE id, Z, IF q = "all" THEN "a" ELSE q))
                 [] name = "addG" -> Do(Op(name, p, IF id = Absent THEN 1 ELSE id, Z, IF q \in {"all", "none"} THEN "b" ELSE q))
                 [] name \in {"rmE", "rmG"} -> Do(Op(name, p, d, Z, ""))
                 [] name \in {"moveE", "moveG"} ->
                      \E to \in {RandomElement(Paths(Without(tree, Op(name, p, d, Z, ""))))} : Do(Op(name, p, d, to, ""))
                 [] name = "copyG" -> IF Size > 12 THEN Do(Op("iter", Z, 0, Z, "")) ELSE
                      \E to \in {RandomElement(Paths(tree))} : Do(Op(name, p, 0, to, ""))
                 [] name \in {"subIter", "subIterMut"} -> Do(Op(name, p, 0, Z, ""))
                 [] name = "iterMutSome" -> \E i \in {RandomElement(0..Cardinality(Paths(tree)))} : Do(Op(name, Z, i, Z, ""))
                 [] name = "iterAdd" -> IF Size > 12 THEN Do(Op("iterRm", Z, id, Z, "")) ELSE Do(Op(name, Z, IF id = Absent THEN 1 ELSE id, Z, ""))
                 [] name \in {"findE", "findG", "findEm", "findGm"} -> Do(Op(name, Z, 0, Z, q))
                 [] name \in {"iter", "iterMut", "saveOpen"} -> Do(Op(name, Z, 0, Z, ""))
                 [] OTHER -> Do(Op(name, Z, id, Z, ""))
Next == Step \/ Walk
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the operations mean, said another way *)

Before(a, b) == \/ Len(a) < Len(b)
                \/ Len(a) = Len(b) /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* Each group once, by level, and within a level in stored order.
OrderOk == LET s == Order(tree)
           IN /\ Range(s) = Paths(tree) /\ Len(s) = Cardinality(Paths(tree))
              /\ \A i, j \in 1..Len(s) : i < j => Before(s[i], s[j])
EntriesOnce == LET s == EntryOrder(tree)
               IN \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
LookOk == \A id \in LookIds :
            /\ LookE(tree, id) = <<>> <=> \A x \in Range(EntryOrder(tree)) : EAt(tree, x).id # id
            /\ LookG(tree, id) = <<>> <=> \A p \in Paths(tree) : At(tree, p).id # id
            /\ LookG(tree, id) # <<>> => /\ At(tree, LookG(tree, id)[1]).id = id
                                         /\ \A p \in Paths(tree) : Before(p, LookG(tree, id)[1]) => At(tree, p).id # id

Last == hist[Len(hist)]
LastOp == Last.o.op
\* Edits through a reference change the objects that were returned and no others.
SameShape(a, b) == Paths(a) = Paths(b) /\ \A p \in Paths(a) : Len(At(a, p).es) = Len(At(b, p).es)
Bare(g) == [g EXCEPT !.es = <<>>, !.gs = <<>>]
Prior == IF Len(hist) = 1 THEN start ELSE hist[Len(hist) - 1].t
EditOk == (hist # <<>> /\ LastOp \in {"iter", "subIter", "iterMut", "iterMutSome", "subIterMut", "getE", "getG", "getEm", "getGm", "findE", "findG", "findEm", "findGm"}) =>
            /\ SameShape(Prior, tree)
            /\ \A p \in Paths(tree) : Bare(At(tree, p)) # Bare(At(Prior, p)) => p \in Range(Last.res)
            /\ \A x \in Range(EntryOrder(tree)) : EAt(tree, x) # EAt(Prior, x) => x \in Range(Last.res)
\* Additions and removals keep the other children of the group and their order,
\* and every other group as it was.
ChildOk == (hist # <<>> /\ LastOp \in {"addE", "rmE", "addG", "rmG"}) =>
            LET p == Last.o.path a == At(Prior, p) b == At(tree, p)
            IN /\ Put(Prior, p, b) = tree
               /\ LastOp = "addE" => SubSeq(b.es, 1, Len(a.es)) = a.es /\ b.gs = a.gs
               /\ LastOp = "addG" => SubSeq(b.gs, 1, Len(a.gs)) = a.gs /\ b.es = a.es
               /\ LastOp = "rmE" => a.gs = b.gs /\ Len(a.es) = Len(b.es) + Len(Last.res)
               /\ LastOp = "rmG" => a.es = b.es /\ Len(a.gs) = Len(b.gs) + Len(Last.res)
\* The links that opening leaves.
LinkOk == (hist # <<>> /\ LastOp = "saveOpen") =>
            /\ tree.p = 0
            /\ \A q \in Paths(tree) : /\ \A i \in 1..Len(At(tree, q).es) : At(tree, q).es[i].p = At(tree, q).id
                                      /\ \A i \in 1..Len(At(tree, q).gs) : At(tree, q).gs[i].p = At(tree, q).id

Emit == Len(hist) = MaxOps => PrintT(ToJson([start |-> start, hist |-> hist]))
=============================================================================
