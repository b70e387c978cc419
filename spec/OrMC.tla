------------------------------- MODULE OrMC -------------------------------
(* The protocol as a transition system: from every state, every event that   *)
(* the local rules of OrSpec allow, on a few nodes and within bounds.        *)
(*                                                                           *)
(* The rules of OrSpec are of two kinds.  Local rules say what one node may  *)
(* do with what it has and what it was sent.  Derived rules (Derived) speak  *)
(* of the cluster: what is committed stays, logs match, reads see what was   *)
(* acknowledged.  Here only the local rules restrict the steps, and TLC      *)
(* checks that no step ever breaks a derived rule, and the global invariants *)
(* below, which are written without reference to the rules.  So code whose   *)
(* every step keeps the local rules has the global properties (within the    *)
(* bounds explored); trace validation checks the steps of the code.          *)
(*                                                                           *)
(* A message is not a part of the state: what a leader or candidate has sent *)
(* is a function of what it has (logs of leaders only grow, a candidate's    *)
(* last log id is fixed), so any message may be late, lost, repeated, or     *)
(* overtaken.  An acknowledgement that is late is one that the leader has    *)
(* and did not use yet.                                                      *)
EXTENDS OrSpec

CONSTANTS
  Nodes,      \* 1..n
  MaxTerm,    \* greatest term
  MaxLen,     \* entries of a log
  MaxCrash,   \* crashes
  MaxWal,     \* writes that are not durable yet, per node; 0: every write is durable at once
  InitVoters, \* voters at first
  Changes,    \* membership change requests that may be made
  MaxSnap,    \* snapshots built
  MaxRead,    \* reads
  Led,        \* TRUE: at first, node 1 leads in term 1
  Relaxed     \* rules that do not restrict the steps: {} or, to see that the check bites, some local ones

VARIABLES s, crashes, snaps, reads, viol
vars == <<s, crashes, snaps, reads, viol>>

Derived == {
  <<"P01", "one_leader">>,
  <<"P03", "log_matching">>, <<"P03", "log_id_unique">>, <<"P03", "log_ids_grow">>, <<"P03", "log_contiguous">>,
  <<"P03", "entry_not_from_future">>, <<"P03", "entry_comes_from_leader">>,
  <<"P04", "leader_has_committed">>, <<"P05", "commit_agrees">>, <<"P05", "applies_in_order">>, <<"P05", "applies_committed_log">>,
  <<"P05", "applies_entry_as_proposed">>, <<"P05", "applied_never_truncated">>, <<"P05", "commit_monotone">>,
  <<"P07", "commit_durable">>, <<"P11", "purges_committed">>,
  <<"P10", "snapshot_of_committed_log">>, <<"P10", "sends_committed_snapshot">>, <<"P10", "snapshot_state_is_log_prefix">>,
  <<"P10", "snapshot_membership">>, <<"P12", "read_sees_acked_writes">>, <<"P12", "read_index_covers_acked_writes">>,
  <<"P12", "read_sees_committed_state">>, <<"P13", "acked_is_committed">>, <<"P13", "reply_names_own_entry">>,
  <<"P13", "real_time_order">>, <<"P17", "commit_not_lost">>, <<"P17", "state_machine_restored">>, <<"P17", "membership_restored">>,
  <<"P17", "purged_logs_have_snapshot">> }
(* What a known finding does is left out: the code is known to do it. *)
Excluded == {<<"P03", "KF-1">>, <<"P06", "KF-3">>}

AddrSeq(S) == LET q == SortNums(S) IN TLCEval([i \in 1..Len(q) |-> <<q[i], 100 * q[i]>>])
Mem0 == << <<SortNums(InitVoters)>>, AddrSeq(Nodes) >>
Ent0 == [i |-> <<0, 0, 0>>, k |-> "m", d |-> 0, m |-> Mem0]
Begin == [nodes |-> SortNums(Nodes), seed |-> 0, prof |-> "mc", smper |-> 0, keep |-> 0, lease |-> -10, emin |-> 0]

(* Sets of change requests to choose from (Changes <- ... in the config). *)
NoChanges == {}
ReplaceAny == {[k |-> "rplv", i |-> SortNums(S), nd |-> <<>>, r |-> 1] : S \in (SUBSET Nodes) \ {{}}}
AddOrRemove == UNION {{[k |-> "addvi", i |-> <<x>>, nd |-> <<>>, r |-> 1], [k |-> "rmv", i |-> <<x>>, nd |-> <<>>, r |-> 1]} : x \in Nodes}

(* All writes of n become durable. *)
RECURSIVE FlushAll(_, _)
FlushAll(t, n) == IF t.wal[n] = <<>> THEN t ELSE FlushAll(Step(t, [e |-> "fl", n |-> n, t |-> 1]), n)

(* Every initial voter was initialized with the same membership. *)
RECURSIVE Boot(_, _)
Boot(t, S) ==
  IF S = {} THEN t
  ELSE LET n == CHOOSE n \in S : TRUE
           a == Step(t, [e |-> "ii", n |-> n, o |-> n, m |-> AddrSeq(Nodes), t |-> 1])
           b == Step(a, [e |-> "app", n |-> n, es |-> <<Ent0>>, t |-> 1])
       IN Boot([FlushAll(b, n) EXCEPT !.up[n] = TRUE], S \ {n})

(* Node 1 was elected by all voters. *)
RECURSIVE Vote1(_, _, _)
Vote1(t, S, v) ==
  IF S = {} THEN t
  ELSE LET n == CHOOSE n \in S : TRUE IN Vote1(FlushAll(Step(t, [e |-> "vt", n |-> n, v |-> v, t |-> 1]), n), S \ {n}, v)
RECURSIVE Reply1(_, _)
Reply1(t, S) ==
  IF S = {} THEN t
  ELSE LET n == CHOOSE n \in S : TRUE
       IN Reply1(Step(t, [e |-> "vz", n |-> 1, fr |-> n, v |-> <<1, 1, 0>>, h |-> <<1, 1, 0>>, g |-> 1, t |-> 1]), S \ {n})
Lead1(t) ==
  LET a == Vote1(Vote1(t, {1}, <<1, 1, 0>>), InitVoters \ {1}, <<1, 1, 0>>)
  IN Vote1(Reply1(a, InitVoters \ {1}), {1}, <<1, 1, 1>>)
Booted == Boot([InitState(Begin) EXCEPT !.up = TLCEval([n \in Nodes |-> TRUE])], InitVoters)
Init ==
  /\ s = IF Led THEN Lead1(Booted) ELSE Booted
  /\ crashes = 0 /\ snaps = 0 /\ reads = 0 /\ viol = {}

(* Event e happens; Later(t): what comes with it. *)
Take(e) ==
  LET b == Bad(s, e)
      t == Step(s, e)
  IN /\ b \subseteq Derived \cup Relaxed
     /\ b \cap Excluded = {}
     /\ viol' = viol \cup (b \cap Derived)
     /\ s' = IF MaxWal = 0 /\ e.e # "fl" /\ "n" \in DOMAIN e THEN FlushAll(t, e.n) ELSE t
Room(n) == Len(s.wal[n]) < MaxWal \/ MaxWal = 0
Write(e) == Room(e.n) /\ Take(e) /\ UNCHANGED <<crashes, snaps, reads>>
Other(e) == Take(e) /\ UNCHANGED <<crashes, snaps, reads>>

(* ---- elections ---- *)
Campaign(n) == s.cur[n].v[1] < MaxTerm /\ Write([e |-> "vt", n |-> n, v |-> <<s.cur[n].v[1] + 1, n, 0>>, t |-> 1])
(* A vote request is served: the vote adopted... *)
Adopt(n, v) == v[2] # n /\ Write([e |-> "vt", n |-> n, v |-> v, t |-> 1])
(* ... and, when it is durable, granted. The reply arrives. *)
Grant(n, v) ==
  LET vy == [e |-> "vy", n |-> n, fr |-> v[2], v |-> v, l |-> s.cand[v], g |-> 1, h |-> s.cur[n].v, at |-> 2, t |-> 1]
  IN /\ v[2] # n /\ n \notin Get(s.grant, v, {}) /\ s.cur[n].v = v
     /\ Bad(s, vy) \subseteq Relaxed /\ Other([e |-> "vz", n |-> v[2], fr |-> n, v |-> v, h |-> v, g |-> 1, t |-> 1])
Claim(n) == ~Committed(s.cur[n].v) /\ s.cur[n].v[2] = n /\ Write([e |-> "vt", n |-> n, v |-> <<s.cur[n].v[1], n, 1>>, t |-> 1])
Follow(n, v) == v[2] # n /\ Write([e |-> "vt", n |-> n, v |-> v, t |-> 1])

(* ---- logs ---- *)
Next0(n) == Ix(LastOf(s.cur[n])) + 1
HasOwn(n) == \E i \in 0..MaxLen : LET l == At(s.cur[n], i) IN l # None /\ LeaderId(l) = VLeader(s.cur[n].v)
Mine(n, k, d, m) == [i |-> VLeader(s.cur[n].v) \o <<Next0(n)>>, k |-> k, d |-> d, m |-> m]
Propose(n) ==
  /\ MyLead(s, n) /\ Next0(n) < MaxLen
  /\ \/ ~HasOwn(n)
        /\ Write([e |-> "app", n |-> n, es |-> <<Mine(n, "b", 0, <<>>)>>, t |-> 1])
     \/ LET d == Cardinality(DOMAIN s.pend) + 1
            w == [e |-> "wi", n |-> n, d |-> d, o |-> d, t |-> 1]
        IN HasOwn(n)
           /\ Room(n) /\ UNCHANGED <<crashes, snaps, reads>>
           /\ LET t == Step(s, w)
                  e == [e |-> "app", n |-> n, es |-> <<Mine(n, "n", d, <<>>)>>, t |-> 1]
                  b == Bad(t, e)
              IN /\ b \subseteq Derived \cup Relaxed /\ viol' = viol \cup (b \cap Derived)
                 /\ s' = IF MaxWal = 0 THEN FlushAll(Step(t, e), n) ELSE Step(t, e)
ProposeChange(n) ==
  /\ MyLead(s, n) /\ Next0(n) < MaxLen
  /\ \E c \in Changes :
       LET o == Change(Eff(s, n), c)
           a == Step(s, [e |-> "ci", n |-> n, o |-> 1, c |-> c, t |-> 1])
           e == [e |-> "app", n |-> n, es |-> <<Mine(n, "m", 0, o[2])>>, t |-> 1]
           b == Bad(a, e)
       IN /\ o[1] = "ok" /\ o[2] # Eff(s, n) /\ Room(n) /\ UNCHANGED <<crashes, snaps, reads>>
          /\ b \subseteq Derived \cup Relaxed /\ viol' = viol \cup (b \cap Derived)
          /\ s' = LET t == [Step(a, e) EXCEPT !.chg = <<>>] IN IF MaxWal = 0 THEN FlushAll(t, n) ELSE t
(* A follower takes the next entry of the leader that it follows ... *)
Follower(n) == s.cur[n].v \in s.claim /\ ~MyLead(s, n)
Entry(l) == LET en == s.ent[l] IN [i |-> l, k |-> en.k, d |-> en.d, m |-> en.m]
Append1(n) ==
  /\ Follower(n)
  /\ LET l == LAt(s, s.cur[n].v, Next0(n))
     IN l # None /\ s.ent[l].p = LastOf(s.cur[n]) /\ Write([e |-> "app", n |-> n, es |-> <<Entry(l)>>, t |-> 1])
(* ... or deletes what differs. *)
Truncate(n) ==
  /\ Follower(n)
  /\ \E i \in 0..MaxLen : /\ At(s.cur[n], i) # None /\ i > Ix(s.cur[n].pu) 
                          /\ Write([e |-> "tr", n |-> n, at |-> At(s.cur[n], i), t |-> 1])
(* It acknowledges the log up to index i of the leader, which sees it. *)
Acknowledge(n) ==
  /\ Follower(n)
  /\ LET v == s.cur[n].v IN
     \E i \in 0..MaxLen :
       LET l == LAt(s, v, i)
           ay == [e |-> "ay", n |-> n, fr |-> v[2], v |-> v, h |-> None, k |-> "ok", l |-> l, p |-> None, m |-> None, at |-> 2, t |-> 1]
       IN /\ l # None /\ Get(s.ack[v], n, -1) < i
          /\ Bad(s, ay) \subseteq Relaxed
          /\ Other([e |-> "az", n |-> v[2], fr |-> n, v |-> v, h |-> None, k |-> "ok", l |-> l, m |-> None, xt |-> reads, t |-> 1])
Flush(n) == s.wal[n] # <<>> /\ Other([e |-> "fl", n |-> n, t |-> 1])

(* ---- state machine, snapshots ---- *)
(* A node applies the next entry: a leader what its quorum has, a follower what it was told. *)
Apply(n) ==
  LET i == Ix(s.ap[n]) + 1
      l == At(s.cur[n], i)
  IN /\ l # None /\ i > Ix(s.cur[n].pu)
     /\ IF MyLead(s, n) THEN i <= s.cmax[s.cur[n].v] \/ <<"P07", "commit_by_quorum">> \in Relaxed ELSE Follower(n) /\ GAt(s, i) # None /\ LAt(s, s.cur[n].v, i) = l
     /\ Other([e |-> "ap", n |-> n, es |-> <<Entry(l)>>, t |-> 1])
SnapOf(l) == [last |-> l, clast |-> l, ids |-> SubSeq(s.gids, 1, s.gn[l[3] + 1]),
              ml |-> LastMemUpTo(s.gm, l[3])[1], m |-> LastMemUpTo(s.gm, l[3])[2], ok |-> 1]
Snapshot(n) ==
  /\ snaps < MaxSnap /\ s.ap[n] # None /\ LidLt(s.snap[n], s.ap[n])
  /\ LET a == Step(s, [e |-> "sg", n |-> n, at |-> s.ap[n], t |-> 1])
         e == [e |-> "sb", n |-> n, s |-> SnapOf(s.ap[n]), t |-> 1]
         b == Bad(a, e)
     IN b \subseteq Derived /\ viol' = viol \cup b /\ s' = Step(a, e)
  /\ snaps' = snaps + 1 /\ UNCHANGED <<crashes, reads>>
Purge(n) ==
  \E i \in 0..MaxLen : At(s.cur[n], i) # None /\ i > Ix(s.cur[n].pu) /\ Write([e |-> "pg", n |-> n, at |-> At(s.cur[n], i), t |-> 1])
(* The snapshot of the leader: the follower deletes what is behind its commits when it differs there, installs, purges. *)
CutForSnapshot(n) ==
  /\ Follower(n)
  /\ LET l == s.snap[s.cur[n].v[2]]
         i == Max2(Ix(s.ap[n]), Ix(s.cur[n].pu)) + 1
     IN /\ l # None /\ Ix(s.ap[n]) < Ix(l)
        /\ At(s.cur[n], l[3]) \notin {None, l} /\ At(s.cur[n], i) # None
        /\ Write([e |-> "tr", n |-> n, at |-> At(s.cur[n], i), t |-> 1])
Install(n) ==
  /\ Follower(n)
  /\ LET l == s.snap[s.cur[n].v[2]] IN
     /\ l # None /\ Ix(s.ap[n]) < Ix(l)
     /\ At(s.cur[n], l[3]) \in {None, l}
     /\ Other([e |-> "si", n |-> n, s |-> SnapOf(l), t |-> 1])
AckSnapshot(n) ==
  /\ Follower(n)
  /\ LET v == s.cur[n].v
         l == s.snap[v[2]]
         sy == [e |-> "sy", n |-> n, v |-> v, h |-> v, k |-> "ok", l |-> l, at |-> 2, t |-> 1]
     IN /\ l # None /\ Get(s.ack[v], n, -1) < Ix(l) /\ Bad(s, sy) \subseteq Relaxed
        /\ Other([e |-> "sz", n |-> v[2], fr |-> n, v |-> v, h |-> v, l |-> l, t |-> 1])

(* ---- clients ---- *)
(* A leader answers a write that it has applied. *)
Answer(n) ==
  /\ MyLead(s, n)
  /\ \E i \in 0..Ix(s.ap[n]) :
       LET l == At(s.cur[n], i) IN
       /\ l # None /\ i > s.seen /\ s.ent[l].k = "n" /\ s.pend[s.ent[l].d].n = n
       /\ Other([e |-> "wr", n |-> n, k |-> "ok", l |-> l, d |-> s.ent[l].d, rid |-> s.ent[l].d, pos |-> s.gn[i + 1], ri |-> i, mem |-> 0, t |-> 1])
(* A read: asked for, the leadership confirmed, the read index applied. Reads are numbered; an acknowledgement counts *)
(* for the reads asked for before it was sent (xt of Acknowledge, alive). *)
Read(n) == reads < MaxRead /\ MyLead(s, n) /\ Take([e |-> "ri", n |-> n, o |-> reads + 1, t |-> reads + 1]) /\ reads' = reads + 1 /\ UNCHANGED <<crashes, snaps>>
Heartbeat(n) ==
  /\ MaxRead > 0 /\ Follower(n)
  /\ LET v == s.cur[n].v
         ay == [e |-> "ay", n |-> n, fr |-> v[2], v |-> v, h |-> None, k |-> "ok", l |-> None, p |-> None, m |-> None, at |-> 2, t |-> 1]
     IN Get(s.alive, <<v, n>>, -1) < reads /\ Bad(s, ay) \subseteq Relaxed
        /\ Other([e |-> "az", n |-> v[2], fr |-> n, v |-> v, h |-> None, k |-> "ok", l |-> None, m |-> None, xt |-> reads, t |-> 1])
(* The read index: the last committed one, not less than the leader's first own entry. *)
ReadDone ==
  \E o \in DOMAIN s.rd :
    LET n == s.rd[o].n
        v == s.cur[n].v
        own == {i \in 0..MaxLen : At(s.cur[n], i) # None /\ LeaderId(At(s.cur[n], i)) = VLeader(v)}
    IN /\ MyLead(s, n) /\ own # {}
       /\ LET idx == Max2(CHOOSE i \in own : \A j \in own : i <= j, Min2(s.cmax[v], Ix(s.ap[n])))
          IN /\ Ix(s.ap[n]) >= idx
             /\ Other([e |-> "rr", n |-> n, o |-> o, k |-> "ok", l |-> At(s.cur[n], idx), ap |-> s.ap[n], t |-> 1])

(* ---- crashes ---- *)
Crash(n) ==
  /\ crashes < MaxCrash
  /\ \E k \in 0..Len(s.wal[n]) : Take([e |-> "cr", n |-> n, k |-> k, t |-> 1])
  /\ crashes' = crashes + 1 /\ UNCHANGED <<snaps, reads>>

Next ==
  \E n \in Nodes :
    \/ Campaign(n) \/ Claim(n) \/ Propose(n) \/ ProposeChange(n) \/ Append1(n) \/ Truncate(n) \/ Acknowledge(n) \/ Flush(n)
    \/ \E v \in DOMAIN s.cand : Adopt(n, v) \/ Grant(n, v)
    \/ \E v \in s.claim : Follow(n, v)
    \/ Apply(n) \/ Snapshot(n) \/ Purge(n) \/ CutForSnapshot(n) \/ Install(n) \/ AckSnapshot(n)
    \/ Answer(n) \/ Read(n) \/ Heartbeat(n) \/ Crash(n)
    \/ n = 1 /\ ReadDone
Spec == Init /\ [][Next]_vars

(* ---- what TLC checks ---- *)
NoDerivedBroken == viol = {}
(* At most one leader per vote, and a leader has all that earlier leaders committed. *)
ElectionSafety == \A u, v \in s.claim : VLeader(u) = VLeader(v) => u = v
LeaderCompleteness ==
  \A v \in s.claim : \A i \in 0..(GLen(s) - 1) : VLt(s.gv[i + 1], v) => LAt(s, v, i) = GAt(s, i)
LogMatching ==
  \A a, b \in Nodes : \A i \in 0..MaxLen :
    (At(s.cur[a], i) # None /\ At(s.cur[a], i) = At(s.cur[b], i)) =>
      \A j \in 0..i : At(s.cur[a], j) = None \/ At(s.cur[b], j) = None \/ At(s.cur[a], j) = At(s.cur[b], j)
StateMachineSafety == \A n \in Nodes : IsCommitted(s, s.ap[n]) /\ IsCommitted(s, s.snap[n]) /\ IsCommitted(s, s.cur[n].pu)
(* What is committed would survive the loss of the memory of all nodes and of a minority of the disks. *)
CommittedSurvives ==
  GLen(s) > 0 => LET l == GLast(s) IN
    \E m \in {Eff(s, n) : n \in Nodes} \cup {s.gm[k][2] : k \in 1..Len(s.gm)} :
      IsQuorum(m, {n \in Nodes : Holds(s, n, l) \/ (Ix(l) < GLen(s) /\ Ix(s.snap[n]) >= Ix(l))})
View == <<s.cur, s.dur, s.wal, s.ap, s.snap, s.mem, s.ent, s.cand, s.grant, s.claim, s.ll, s.ack, s.cmax, s.gc, s.gv, s.vlast, s.inst,
          s.seen, s.pend, s.rd, s.alive, s.held, crashes, snaps, reads, viol>>
=============================================================================
