------------------------------ MODULE OrBase ------------------------------
(* Data of openraft: log ids, votes, memberships, logs, and the functions   *)
(* over them that the rest of the specification is written with.            *)
(*                                                                          *)
(*   log id      <<term, node, index>>; None (<<>>) if there is none        *)
(*   vote        <<term, node, c>>, c = 1: committed (node leads)           *)
(*   membership  <<configs, nodes>>: configs is a sequence of sequences of  *)
(*               voters (two: a joint config), nodes a sequence of          *)
(*               <<id, address>> in the order of the ids                    *)
(*   log         [pu, es]: purged up to log id pu, es the log ids behind it *)
(*                                                                          *)
(* Std: openraft's feature single-term-leader. A node then votes once in a   *)
(* term, votes for different nodes in one term cannot be compared, and log   *)
(* ids hold the term only (node 0).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Std

None == <<>>

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Range(q) == {q[i] : i \in 1..Len(q)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- log ids ---- *)
Ix(l) == IF l = None THEN -1 ELSE l[3]
LidLt(a, b) ==
  IF b = None THEN FALSE
  ELSE IF a = None THEN TRUE
  ELSE \/ a[1] < b[1]
       \/ a[1] = b[1] /\ a[2] < b[2]
       \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
LidLe(a, b) == a = b \/ LidLt(a, b)
LidMax(a, b) == IF LidLt(a, b) THEN b ELSE a
LeaderId(l) == <<l[1], l[2]>>

(* ---- votes ---- *)
Vote0 == <<0, 0, 0>>
VLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
             \/ a[1] = b[1] /\ a[2] # b[2] /\ (IF Std THEN a[2] = 0 \/ a[3] < b[3] ELSE a[2] < b[2])
VLe(a, b) == a = b \/ VLt(a, b)
(* What the log ids of a leader with vote v begin with. *)
VLeader(v) == <<v[1], IF Std THEN 0 ELSE v[2]>>
Committed(v) == v[3] = 1

(* ---- membership ---- *)
NoMem == << <<>>, <<>> >>
Configs(m) == [i \in 1..Len(m[1]) |-> Range(m[1][i])]
Voters(m) == UNION {Range(m[1][i]) : i \in 1..Len(m[1])}
MemNodes(m) == {m[2][i][1] : i \in 1..Len(m[2])}
Learners(m) == MemNodes(m) \ Voters(m)
AddrOf(m, n) == LET i == CHOOSE i \in 1..Len(m[2]) : m[2][i][1] = n IN m[2][i][2]
Majority(S, c) == 2 * Cardinality(S \cap c) > Cardinality(c)
(* S contains a majority of every config of m. *)
IsQuorum(m, S) ==
  /\ m[1] # <<>>
  /\ \A i \in 1..Len(m[1]) : Majority(S, Range(m[1][i]))
(* Every quorum of a meets every quorum of b. *)
Overlap(a, b) ==
  LET U == Voters(a) \cup Voters(b)
  IN \A S \in SUBSET U : ~(IsQuorum(a, S) /\ IsQuorum(b, U \ S))

(* Sorted sequence of a set of numbers. *)
RECURSIVE SortNums(_)
SortNums(S) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y
       IN <<x>> \o SortNums(S \ {x})

(* ---- logs ---- *)
EmptyLog == [pu |-> None, es |-> <<>>]
LastOf(g) == IF g.es = <<>> THEN g.pu ELSE g.es[Len(g.es)]
(* The log id at index i, None if there is none. *)
At(g, i) ==
  LET k == i - Ix(g.pu)
  IN IF k >= 1 /\ k <= Len(g.es) THEN g.es[k]
     ELSE IF k = 0 THEN g.pu ELSE None
CutFrom(g, i) ==
  LET k == i - Ix(g.pu) - 1
  IN IF k >= Len(g.es) THEN g
     ELSE [g EXCEPT !.es = IF k <= 0 THEN <<>> ELSE SubSeq(g.es, 1, k)]
PurgeTo(g, l) ==
  LET k == Ix(l) - Ix(g.pu)
  IN [g EXCEPT !.pu = l,
               !.es = IF k >= Len(g.es) THEN <<>> ELSE IF k <= 0 THEN g.es ELSE SubSeq(g.es, k + 1, Len(g.es))]
(* Append log ids ls; anything in the way is overwritten. *)
AppendTo(g, ls) ==
  LET c == IF Ix(LastOf(g)) < ls[1][3] THEN g ELSE CutFrom(g, ls[1][3])
  IN [c EXCEPT !.es = c.es \o ls]

(* ---- what a node keeps on disk: a log with a vote and a committed log id ---- *)
EmptyDisk == [pu |-> None, es |-> <<>>, v |-> Vote0, sc |-> None]
Exec(d, op) ==
  CASE op.k = "a" -> AppendTo(d, op.x)
    [] op.k = "t" -> CutFrom(d, op.x[1][3])
    [] op.k = "p" -> PurgeTo(d, op.x[1])
    [] op.k = "v" -> [d EXCEPT !.v = op.x[1]]
    [] op.k = "c" -> [d EXCEPT !.sc = op.x[1]]
RECURSIVE ExecAll(_, _)
ExecAll(d, ops) == IF ops = <<>> THEN d ELSE ExecAll(Exec(d, Head(ops)), Tail(ops))

(* ---- membership change requests: [k, i, nd, r] as in the API ---- *)
(* Nodes of a membership as a function id -> address, and back. *)
FnOf(nd) == [n \in {nd[j][1] : j \in 1..Len(nd)} |-> (LET j == CHOOSE j \in 1..Len(nd) : nd[j][1] = n IN nd[j][2])]
NodeSeq(f) == LET q == SortNums(DOMAIN f) IN TLCEval([i \in 1..Len(q) |-> <<q[i], f[q[i]]>>])
MkMem(cfgs, f) == << TLCEval([i \in 1..Len(cfgs) |-> SortNums(cfgs[i])]), NodeSeq(f) >>
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
LastCfg(m) == IF m[1] = <<>> THEN {} ELSE Range(m[1][Len(m[1])])
UnionOf(q) == UNION {q[i] : i \in 1..Len(q)}

(* The next config on the way from m to the voters `goal`: through a joint   *)
(* config unless goal is one of the configs in force.                        *)
NextCoherent(m, goal, f, retain) ==
  LET cfgs == Configs(m)
      new == IF \E i \in 1..Len(cfgs) : cfgs[i] = goal THEN <<goal>>
             ELSE IF cfgs = <<>> THEN <<goal>>
             ELSE <<cfgs[Len(cfgs)], goal>>
      removed == Voters(m) \ UnionOf(new)
      f2 == IF retain = 1 THEN f ELSE Restrict(f, DOMAIN f \ removed)
  IN <<new, f2>>

(* The outcome of request c on membership m: <<"ok", membership>> or         *)
(* <<"empty">> or <<"nolearner">>.                                           *)
Change(m, c) ==
  LET f == FnOf(m[2])
      ids == Range(c.i)
      nf == FnOf(c.nd)
      last == LastCfg(m)
      raw ==
        CASE c.k = "addvi" -> NextCoherent(m, last \cup ids, f, c.r)
          [] c.k = "addv" -> NextCoherent(m, last \cup DOMAIN nf, f @@ nf, c.r)
          [] c.k = "rmv" -> NextCoherent(m, last \ ids, f, c.r)
          [] c.k = "rplv" -> NextCoherent(m, ids, f, c.r)
          [] c.k = "addn" -> <<Configs(m), f @@ nf>>
          [] c.k = "setn" -> <<Configs(m), nf @@ f>>
          [] c.k = "rmn" -> <<Configs(m), Restrict(f, DOMAIN f \ ids)>>
          [] c.k = "rpln" -> <<Configs(m), nf>>
  IN IF \E i \in 1..Len(raw[1]) : raw[1][i] = {} THEN <<"empty">>
     ELSE IF ~(UnionOf(raw[1]) \subseteq DOMAIN raw[2]) THEN <<"nolearner">>
     ELSE <<"ok", MkMem(raw[1], raw[2])>>
=============================================================================
