------------------------------ MODULE WStackMap ------------------------------
(* A tree of layered mappings (C25). A layer holds for each key its own      *)
(* entry: a value (> 0), NoEntry or Hidden (deleted here); what it shows is   *)
(* its own entry or else what its parent shows.                              *)
(*                                                                           *)
(* Mode "gen": every reachable combination of layers with one history that   *)
(* leads to it; the transitions are printed and replayed on the code.        *)
(* Mode "trace": histories recorded from the code, all the methods of a      *)
(* mutable mapping included, are judged.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.WIZ_JOBS)
NoEntry == 0
Hidden == -1
Missing == 0        \* nothing is shown

VARIABLES j,        \* index of the job
          m,        \* m[l][k] = entry of layer l for key k
          hist,     \* operations so far (gen)
          i,        \* events judged so far (trace)
          bad       \* the last event was not as it should be (trace)
vars == <<j, m, hist, i, bad>>

J == Jobs[j]
Layers == 1..Len(J.par)         \* par[l] = parent of l, 0 at the bottom
Keys == 1..J.keys

RECURSIVE Show(_, _, _)
Show(mm, l, k) ==
  IF l = 0 THEN Missing
  ELSE IF mm[l][k] = Hidden THEN Missing
  ELSE IF mm[l][k] # NoEntry THEN mm[l][k]
  ELSE Show(mm, J.par[l], k)
View(mm, l) == [k \in Keys |-> Show(mm, l, k)]
Shown(mm, l) == {k \in Keys : Show(mm, l, k) # Missing}

Put(mm, l, k, v) == [mm EXCEPT ![l][k] = v]
Drop(mm, l, k) == [mm EXCEPT ![l][k] = Hidden]
DropAll(mm, l) == [mm EXCEPT ![l] = [k \in Keys |-> IF Show(mm, l, k) # Missing THEN Hidden ELSE @[k]]]

RECURSIVE PutAll(_, _, _)
PutAll(mm, l, kvs) == IF kvs = <<>> THEN mm ELSE PutAll(Put(mm, l, kvs[1][1], kvs[1][2]), l, Tail(kvs))

(* -------------------------------- mode "gen" ------------------------------- *)
Set(l, k, v) ==
  /\ m' = Put(m, l, k, v)
  /\ hist' = Append(hist, <<"set", l, k, v, "ok">>)
Del(l, k) ==
  /\ m' = IF Show(m, l, k) = Missing THEN m ELSE Drop(m, l, k)
  /\ hist' = Append(hist, <<"del", l, k, 0, IF Show(m, l, k) = Missing THEN "KeyError" ELSE "ok">>)

Emit == PrintT(ToJson([j |-> j, h |-> hist', v |-> [l \in Layers |-> View(m', l)]]))

GenNext ==
  /\ J.mode = "gen"
  /\ \E l \in Layers, k \in Keys :
       \/ \E v \in 1..J.vals : Set(l, k, v)
       \/ Del(l, k)
  /\ Emit
  /\ UNCHANGED <<j, i, bad>>

(* An operation on a layer changes what that layer and the ones above it     *)
(* show, for that key, and nothing else.                                     *)
RECURSIVE Above(_, _)
Above(l, base) == l # 0 /\ (l = base \/ Above(J.par[l], base))
Isolation ==
  [][J.mode = "gen" =>
       LET op == hist'[Len(hist')]
       IN \A l \in Layers, k \in Keys :
            (~Above(l, op[2]) \/ k # op[3]) => Show(m', l, k) = Show(m, l, k)]_vars

(* The last successful operation of a layer on a key decides what the layer  *)
(* shows for it, and without one it shows what its parent does.              *)
OwnOps(l, k) == {n \in 1..Len(hist) : hist[n][2] = l /\ hist[n][3] = k /\ hist[n][5] = "ok"}
LastWins ==
  J.mode = "gen" =>
    \A l \in Layers, k \in Keys :
      Show(m, l, k) =
        IF OwnOps(l, k) = {} THEN Show(m, J.par[l], k)
        ELSE LET op == hist[CHOOSE n \in OwnOps(l, k) : \A o \in OwnOps(l, k) : o <= n]
             IN IF op[1] = "set" THEN op[4] ELSE Missing

(* ------------------------------- mode "trace" ------------------------------ *)
(* Event: o (method), l, k, v (arguments, 0 if there is none), kvs (pairs of  *)
(* update or of a comparison), r (status: "ok" or the exception), rv (value  *)
(* returned, 0: None or nothing), rs (keys, pairs or values returned).       *)
SeqSet(s) == {s[n] : n \in 1..Len(s)}
Distinct(s) == Len(s) = Cardinality(SeqSet(s))

Judged(e) ==          \* [ok, m]: as it should be, layers afterwards
  LET l == e.l
      k == e.k
      shown == Shown(m, l)
      has == k \in shown
      old == Show(m, l, k)
      OkIf(x) == [ok |-> x, m |-> m]
      To(x, mm) == [ok |-> x, m |-> mm]
      done == e.r = "ok"
      failed == e.r = "KeyError"
      Pairs == {<<a, Show(m, l, a)>> : a \in shown}
      (* what update() leaves and what an equality compares with *)
      given == [a \in Keys |-> LET N == {n \in 1..Len(e.kvs) : e.kvs[n][1] = a}
                               IN IF N = {} THEN Missing ELSE e.kvs[CHOOSE n \in N : \A o \in N : o <= n][2]]
  IN CASE e.o = "set" -> To(done, Put(m, l, k, e.v))
       [] e.o = "del" -> IF has THEN To(done, Drop(m, l, k)) ELSE OkIf(failed)
       [] e.o = "item" -> OkIf(IF has THEN done /\ e.rv = old ELSE failed)
       [] e.o = "get" -> OkIf(done /\ e.rv = old)
       [] e.o = "getd" -> OkIf(done /\ e.rv = IF has THEN old ELSE e.v)
       [] e.o = "in" -> OkIf(done /\ e.rv = IF has THEN 1 ELSE 0)
       [] e.o = "len" -> OkIf(done /\ e.rv = Cardinality(shown))
       [] e.o = "bool" -> OkIf(done /\ e.rv = IF shown = {} THEN 0 ELSE 1)
       [] e.o \in {"iter", "keys"} -> OkIf(done /\ Distinct(e.rs) /\ SeqSet(e.rs) = shown)
       [] e.o = "items" -> OkIf(done /\ Distinct(e.rs) /\ SeqSet(e.rs) = Pairs)
       [] e.o = "values" ->
            OkIf(done /\ Len(e.rs) = Cardinality(shown)
                 /\ \A v \in SeqSet(e.rs) \cup {p[2] : p \in Pairs} :
                      Cardinality({n \in 1..Len(e.rs) : e.rs[n] = v}) = Cardinality({p \in Pairs : p[2] = v}))
       [] e.o = "eq" -> OkIf(done /\ e.rv = IF \A a \in Keys : given[a] = Show(m, l, a) THEN 1 ELSE 0)
       [] e.o = "pop" -> IF has THEN To(done /\ e.rv = old, Drop(m, l, k)) ELSE OkIf(failed)
       [] e.o = "popd" -> IF has THEN To(done /\ e.rv = old, Drop(m, l, k)) ELSE OkIf(done /\ e.rv = e.v)
       [] e.o = "popitem" ->
            IF shown = {} THEN OkIf(failed)
            ELSE To(done /\ Len(e.rs) = 1 /\ e.rs[1] \in Pairs,
                    IF done /\ Len(e.rs) = 1 /\ e.rs[1] \in Pairs THEN Drop(m, l, e.rs[1][1]) ELSE m)
       [] e.o = "setdefault" ->
            IF has THEN OkIf(done /\ e.rv = old) ELSE To(done /\ e.rv = e.v, Put(m, l, k, e.v))
       [] e.o = "update" -> To(done, PutAll(m, l, e.kvs))
       [] e.o = "clear" -> To(done, DropAll(m, l))
       [] OTHER -> OkIf(FALSE)

TraceNext ==
  /\ J.mode = "trace" /\ ~bad /\ i < Len(J.events)
  /\ LET r == Judged(J.events[i + 1])
     IN m' = r.m /\ bad' = ~r.ok /\ i' = i + 1
  /\ UNCHANGED <<j, hist>>

Judge ==
  (J.mode = "trace" /\ (bad \/ i = Len(J.events))) =>
     PrintT(ToJson([id |-> J.id, v |-> IF bad THEN "reject" ELSE "accept", at |-> i,
                    want |-> IF bad THEN <<[l \in Layers |-> View(m, l)]>> ELSE <<>>]))

Init ==
  /\ j \in 1..Len(Jobs)
  /\ m = [l \in Layers |-> [k \in Keys |-> NoEntry]]
  /\ hist = <<>> /\ i = 0 /\ bad = FALSE
Next == GenNext \/ TraceNext
Spec == Init /\ [][Next]_vars
Abstract == <<j, m, i, bad>>        \* VIEW
=============================================================================
