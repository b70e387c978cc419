----------------------------- MODULE OrStoreMC -----------------------------
(* A store that does what OrStore asks for, with one write-ahead log: a crash *)
(* leaves a first part of it that has all that was synced. The rules must     *)
(* accept it in every history, and must not when one thing is left out (Bug). *)
EXTENDS OrStore, SequencesExt
CONSTANTS MaxTerm, MaxIndex, MaxOps, MaxCrash, OnDisk, Bug

(* s: the state of OrStore; wal, synced: the disk; sm: the state machine;     *)
(* todo: what is left to do of an operation; bld: a snapshot being built.     *)
VARIABLES s, bad, wal, synced, sm, todo, ops, bld, crashes
vars == <<s, bad, wal, synced, sm, todo, ops, bld, crashes>>

Entry(t, i) == [id |-> <<t, 1, i>>, k |-> "n", x |-> 1 + (i % 2), y |-> 10 * t + i, m |-> <<<<>>, <<>>>>]
Id(f, i) == IF i \in DOMAIN f THEN f[i].id ELSE None
Seqs(f, S) == [k \in 1..Cardinality(DOMAIN f \cap S) |-> f[CHOOSE i \in DOMAIN f \cap S : Cardinality({j \in DOMAIN f \cap S : j < i}) = k - 1]]
Snap(m) == [last |-> m.ap, mem |-> NoMem, ap |-> m.ap, dmem |-> NoMem, kv |-> SetToSeq(Kv(m.h, Ix(m.ap)))]
NoSm == [ap |-> None, h |-> Empty]

(* -- the disk -------------------------------------------------------------- *)
App(d, r) ==
  CASE r.r = "vote" -> [d EXCEPT !.v = r.v]
    [] r.r = "put" -> [d EXCEPT !.log = (r.e.id[3] :> r.e) @@ @]
    [] r.r = "cut" -> [d EXCEPT !.log = Res(@, 0..(r.i - 1))]
    [] r.r = "del" -> [d EXCEPT !.log = Res(@, DOMAIN @ \ (0..r.i))]
    [] r.r = "pu" -> [d EXCEPT !.pu = r.id]
    [] r.r = "sn" -> [d EXCEPT !.sn = <<r.m>>]
    [] r.r = "sm" -> [d EXCEPT !.m = r.m]
    [] r.r = "smh" -> [d EXCEPT !.m.h = r.m.h]
    [] OTHER -> d
Disk(w) == FoldLeft(App, [v |-> None, log |-> Empty, pu |-> None, sn |-> <<>>, m |-> NoSm], w)
SmOf(d) == IF OnDisk THEN d.m ELSE IF d.sn = <<>> THEN NoSm ELSE d.sn[1]
Dump(e, w, m) ==
  LET d == Disk(w) IN
  [e |-> e, v |-> d.v, pu |-> d.pu, cm |-> None, log |-> Seqs(d.log, 0..9), ap |-> m.ap, mem |-> NoMem,
   (* what reads of the state machine show: not only up to the last applied *)
   kv |-> <<SetToSeq(Kv(m.h, 99))>>, last |-> LastOf(d.log, d.pu), sn |-> IF d.sn = <<>> THEN <<>> ELSE <<Snap(d.sn[1])>>]

Init ==
  /\ wal = <<>> /\ synced = 0 /\ sm = NoSm /\ todo = <<>> /\ ops = 0 /\ bld = <<>> /\ crashes = 0 /\ bad = {}
  /\ s = LET s0 == InitState([prof |-> "mc", seed |-> 0, res |-> "val", disk |-> IF OnDisk THEN 1 ELSE 0]) IN Step(s0, Dump("st", <<>>, NoSm))

(* -- operations: what is recorded, and the writes, one by one -------------- *)
Sync(n) == IF Bug = n THEN <<>> ELSE <<[r |-> "sync"]>>
Done(ev, m) == <<[r |-> "done", ev |-> ev, m |-> m]>>
Begin(e, do) ==
  /\ bad' = Bad(s, e) /\ s' = Step(s, e) /\ todo' = do
  /\ UNCHANGED <<wal, synced, sm, bld, crashes>>
D == Disk(wal)
LastId == LastOf(D.log, D.pu)
Ge(t, x) == IF x = None THEN TRUE ELSE t >= x[1]
Ev == [e |-> "d"]
Vote == \E t \in 1..MaxTerm, n \in 1..2 :
  /\ Ge(t - 1, D.v)
  /\ Begin([e |-> "b", o |-> "vote", v |-> <<t, n, 0>>], <<[r |-> "vote", v |-> <<t, n, 0>>]>> \o Sync("vote_nosync") \o Done(Ev, sm))
Write == \E t \in 1..MaxTerm, n \in 1..2 :
  LET es == [k \in 1..n |-> Entry(t, Ix(LastId) + k)] IN
  /\ Ix(LastId) + n <= MaxIndex /\ Ix(LastId) >= Ix(sm.ap) /\ Ge(t, LastId)
  /\ Begin([e |-> "b", o |-> "append", es |-> es], [k \in 1..n |-> [r |-> "put", e |-> es[k]]] \o Sync("append_nosync") \o Done(Ev, sm))
Cut == \E i \in DOMAIN D.log :
  /\ i > Ix(sm.ap) /\ i > Ix(D.pu)
  /\ Begin([e |-> "b", o |-> "trunc", at |-> D.log[i].id], <<[r |-> "cut", i |-> i]>> \o Sync("trunc_nosync") \o Done(Ev, sm))
Apply == \E i \in DOMAIN D.log :
  /\ i > Ix(sm.ap)
  /\ LET es == Seqs(D.log, (Ix(sm.ap) + 1)..i)
         m == [ap |-> D.log[i].id, h |-> Fn(es) @@ sm.h]
     IN Begin([e |-> "b", o |-> "apply", es |-> es],
              (IF OnDisk THEN <<[r |-> "sm", m |-> m]>> \o Sync("apply_nosync") ELSE <<>>)
              \o Done([e |-> "d", res |-> [k \in 1..Len(es) |-> es[k].y]], m))
Install == \E i \in (Ix(sm.ap) + 1)..MaxIndex, t \in 1..MaxTerm :
  /\ Ix(LastId) <= Ix(sm.ap) /\ Ge(t, LastId) /\ Ge(t, sm.ap)
  /\ LET es == [k \in 1..(i - Ix(sm.ap)) |-> Entry(t, Ix(sm.ap) + k)]
         m == [ap |-> <<t, 1, i>>, h |-> Fn(es) @@ sm.h]
     IN Begin([e |-> "b", o |-> "install", es |-> es, sn |-> Snap(m)],
              (IF ~OnDisk THEN <<>> ELSE IF Bug = "install_split" THEN <<[r |-> "smh", m |-> m], [r |-> "sm", m |-> m]>> ELSE <<[r |-> "sm", m |-> m]>>)
              \o <<[r |-> "sn", m |-> m]>> \o Sync("install_nosync") \o Done(Ev, m))
Purge == \E i \in (Ix(D.pu) + 1)..MaxIndex :
  /\ D.sn # <<>> \/ Ix(LastId) < Ix(sm.ap)
  /\ i <= (IF D.sn = <<>> THEN Ix(sm.ap) ELSE Ix(D.sn[1].ap))
  /\ LET id == sm.h[i].id
         a == <<[r |-> "pu", id |-> id]>>
         b == <<[r |-> "del", i |-> i]>>
     IN Begin([e |-> "b", o |-> "purge", at |-> id], (IF Bug = "purge_first" THEN b \o a ELSE a \o b) \o Done(Ev, sm))
GetBuilder ==
  /\ bld = <<>> /\ bld' = <<sm>> /\ bad' = {} /\ s' = Step(Step(s, [e |-> "gb"]), [e |-> "bb"]) /\ ops' = ops + 1
  /\ UNCHANGED <<wal, synced, sm, todo, crashes>>
Built ==
  /\ bld # <<>> /\ bld' = <<>>
  /\ wal' = IF Bug # "builder_old" /\ D.sn # <<>> /\ Ix(D.sn[1].ap) > Ix(bld[1].ap) THEN wal ELSE Append(wal, [r |-> "sn", m |-> bld[1]])
  /\ LET e == [e |-> "bd", sn |-> Snap(bld[1])] IN bad' = Bad(s, e) /\ s' = Step(s, e)
  /\ UNCHANGED <<synced, sm, todo, ops, crashes>>
Op == todo = <<>> /\ ops < MaxOps /\ ops' = ops + 1 /\ (Vote \/ Write \/ Cut \/ Apply \/ Install \/ Purge)
Go ==
  /\ todo # <<>> /\ todo' = Tail(todo)
  /\ LET r == Head(todo) IN
     /\ wal' = IF r.r \in {"sync", "done"} THEN wal ELSE Append(wal, r)
     /\ synced' = IF r.r = "sync" THEN Len(wal) ELSE synced
     /\ sm' = IF r.r = "done" THEN r.m ELSE sm
     /\ bad' = IF r.r = "done" THEN Bad(s, r.ev) ELSE {}
     /\ s' = IF r.r = "done" THEN Step(s, r.ev) ELSE s
  /\ UNCHANGED <<ops, bld, crashes>>
Crash ==
  /\ crashes < MaxCrash /\ crashes' = crashes + 1
  /\ \E k \in synced..Len(wal) :
       LET w == SubSeq(wal, 1, k)
           m == SmOf(Disk(w))
           e == Dump("st", w, m)
       IN wal' = w /\ synced' = k /\ sm' = m /\ bad' = Bad(s, e) /\ s' = Step(s, e)
  /\ todo' = <<>> /\ bld' = <<>> /\ UNCHANGED ops
Next == bad = {} /\ (Op \/ (todo = <<>> /\ ops < MaxOps /\ GetBuilder) \/ Built \/ Go \/ Crash)
Spec == Init /\ [][Next]_vars

(* No step breaks a rule, and neither do questions asked at any time. *)
NoRuleBroken == bad = {}
Looks == todo = <<>> /\ bad = {} => Bad(s, Dump("rs", wal, sm)) = {}
=============================================================================
