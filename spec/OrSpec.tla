------------------------------ MODULE OrSpec ------------------------------
(* The protocol of openraft, one event at a time.                            *)
(*                                                                           *)
(* The state `s` is what a cluster of nodes, their disks and their clients   *)
(* have in common: every node's log as written and as durable, its vote, its *)
(* state machine and snapshot, who claims to lead, what is committed.  An    *)
(* event `e` is one observable step of one node (a write to its storage, a   *)
(* message sent, served or answered, a reply to a client).                   *)
(*                                                                           *)
(*   Bad(s, e)   the rules that e breaks in s; e is a step of the protocol   *)
(*               iff there is none                                           *)
(*   Step(s, e)  the state behind e                                          *)
(*                                                                           *)
(* The models MC*.tla take every step without bad rules and check that the   *)
(* global properties follow.  OrTrace.tla takes the steps that the real code *)
(* took, as recorded by the harness, and collects the rules they break.      *)
(* A rule is named after the property that it belongs to: <<"P05", "...">>.  *)
EXTENDS OrBase

F(c, p, r) == IF c THEN {} ELSE {<<p, r>>}

Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f

(* ------------------------------------------------------------------------ *)
(* State                                                                    *)

InitState(b) ==
  LET N == Range(b.nodes)
      Z(x) == TLCEval([n \in N |-> x])
  IN [ b     |-> b,
       N     |-> N,
       cur   |-> Z(EmptyDisk),      (* log, vote and saved commit as written *)
       dur   |-> Z(EmptyDisk),      (* ... as durable                        *)
       wal   |-> Z(<<>>),           (* written, not yet durable              *)
       ap    |-> Z(None),           (* state machine: applied up to          *)
       dap   |-> Z(None),           (* ... that survives a crash             *)
       snap  |-> Z(None),           (* last snapshot                         *)
       sgat  |-> Z(None),           (* snapshot being built of               *)
       mem   |-> Z(<<>>),           (* memberships in the log: <<lid, m>>    *)
       had   |-> Z({Vote0}),        (* votes adopted                         *)
       vtT   |-> Z(0),              (* when the present vote was adopted     *)
       vlast |-> Z(None),           (* last log id at that time              *)
       touch |-> Z(-1),             (* last time a leader was followed       *)
       tdis  |-> Z({}),             (* leaders whose lease a transfer ended  *)
       eltg  |-> Z(0),              (* elections asked for by the user       *)
       utg   |-> Z(FALSE),          (* purge asked for, snapshot installed   *)
       up    |-> Z(FALSE),          (* loaded its storage                    *)
       calm  |-> Z(TRUE),           (* nothing happened since it was booted  *)
       inst  |-> Z(FALSE),          (* commits cut off ahead of a snapshot   *)
       kf3   |-> {},                (* requests among those cut off (KF-3)   *)
       flt   |-> Z(-1),             (* when its storage reported an error    *)
       tgT   |-> Z(-1),             (* a leader transfer was asked for       *)
       trx   |-> Z(<<>>),           (* <<vote, log id, time>>: asked to take over *)
       txv   |-> <<>>,              (* committed vote -> transferring since  *)
       mt    |-> Z(<<>>),           (* last metrics                          *)
       ent   |-> <<>>,              (* log id -> [k, d, m, p]                *)
       ids   |-> {},                (* requests proposed                     *)
       cand  |-> <<>>,              (* vote -> last log id of the candidate  *)
       grant |-> <<>>,              (* vote -> nodes that granted it         *)
       claim |-> {},                (* committed votes                       *)
       ll    |-> <<>>,              (* committed vote -> log of the leader   *)
       ack   |-> <<>>,              (* committed vote -> node -> index       *)
       cmax  |-> <<>>,              (* committed vote -> index               *)
       alive |-> <<>>,              (* <<committed vote, node>> -> sent time *)
       tto   |-> {},                (* nodes that were to take over          *)
       ask   |-> <<>>,              (* what a node was when it was looked at *)
       chk   |-> Z({}),             (* segments of snapshots that came since the node is up *)
       sxT   |-> <<>>,              (* ... a snapshot sent                   *)
       gc    |-> <<>>,              (* committed log ids, by index + 1       *)
       gv    |-> <<>>,              (* vote of the leader that committed it  *)
       gn    |-> <<>>,              (* requests among the first i + 1        *)
       gids  |-> <<>>,              (* committed requests, in order          *)
       gm    |-> <<>>,              (* committed memberships: <<lid, m>>     *)
       seen  |-> -1,                (* greatest index shown to a client      *)
       pend  |-> <<>>,              (* request -> [n, o, seen]               *)
       nack  |-> {},                (* requests refused                      *)
       rd    |-> <<>>,              (* read -> [n, t, seen, ml]              *)
       chg   |-> <<>>,              (* change -> [n, c, ml]                  *)
       ini   |-> <<>>,              (* initialize -> [n, m, fresh]           *)
       leak  |-> {},                (* votes shown before they are written   *)
       vmx   |-> Z(-1),             (* greatest index had since the present vote *)
       held  |-> Z({}),             (* once durable here, cut off since      *)
       off   |-> Z({}),             (* switched off: "elect", "hb", "tick"   *)
       sd    |-> Z(0) ]             (* shutdown: 1 asked for, 2 done         *)

(* ------------------------------------------------------------------------ *)
(* Derived                                                                  *)

LastMemUpTo(q, i) ==
  LET S == {k \in 1..Len(q) : Ix(q[k][1]) <= i}
  IN IF S = {} THEN <<None, NoMem>> ELSE q[MaxOf(S)]
(* The membership a node goes by: <<log id, membership>>, the last of its    *)
(* log, or that of what it has purged or got as a snapshot.                  *)
EffMem(s, n) ==
  LET base == LastMemUpTo(s.gm, Max2(Ix(s.cur[n].pu), Ix(s.snap[n])))
      q == s.mem[n]
  IN IF q # <<>> /\ Ix(q[Len(q)][1]) >= Ix(base[1]) THEN q[Len(q)] ELSE base
Eff(s, n) == EffMem(s, n)[2]

GLen(s) == Len(s.gc)
GAt(s, i) == IF i >= 0 /\ i < GLen(s) THEN s.gc[i + 1] ELSE None
GLast(s) == GAt(s, GLen(s) - 1)
IsCommitted(s, l) == l = None \/ GAt(s, l[3]) = l

(* The log of the leader with vote v, beyond what it had purged. *)
LAt(s, v, i) == IF i < s.ll[v].b THEN GAt(s, i)
                ELSE IF i - s.ll[v].b < Len(s.ll[v].es) THEN s.ll[v].es[i - s.ll[v].b + 1] ELSE None
LEnd(s, v) == s.ll[v].b + Len(s.ll[v].es) - 1

(* Node n would still have the log up to l after a crash. *)
Holds(s, n, l) ==
  \/ l = None
  \/ At(s.dur[n], l[3]) = l
  \/ GAt(s, l[3]) = l /\ l[3] <= Max2(Ix(s.snap[n]), Max2(Ix(s.dap[n]), Ix(s.dur[n].pu)))

(* ... or had it when it followed v. *)
Held(s, n, v, l) == Holds(s, n, l) \/ (VLt(v, s.cur[n].v) /\ l \in s.held[n])

(* The greatest index in the present log of leader v that a quorum of its    *)
(* config has acknowledged, and that is of its own term.                     *)
CommitMax(s, v) ==
  LET n == v[2]
      m == Eff(s, n)
      a == s.ack[v]
      ok(i) == IsQuorum(m, {x \in DOMAIN a : a[x] >= i})
      S == {i \in {a[x] : x \in DOMAIN a} : i >= 0 /\ ok(i) /\ LAt(s, v, i) # None /\ LeaderId(LAt(s, v, i)) = VLeader(v)}
  IN IF m[1] = <<>> \/ S = {} THEN -1 ELSE MaxOf(S)
UpCmax(s, v) == [s EXCEPT !.cmax = Put(@, v, Max2(Get(@, v, -1), CommitMax(s, v)))]
Ack(s, v, n, i) ==
  IF i <= Get(s.ack[v], n, -1) THEN s
  ELSE UpCmax([s EXCEPT !.ack[v] = Put(@, n, i)], v)

(* ---- commits ---- *)
(* Node n says that the log up to l is committed.  What is new must come     *)
(* from a leader on that node, whose quorum has acknowledged it.             *)
CommitLeaders(s, n, l) ==
  {v \in s.claim : v[2] = n /\ l[3] <= LEnd(s, v) /\ LAt(s, v, l[3]) = l}
BadCommit(s, n, l) ==
  IF l = None THEN {}
  ELSE IF l[3] < GLen(s) THEN F(GAt(s, l[3]) = l, "P05", "commit_agrees")
  ELSE LET V == CommitLeaders(s, n, l)
       IN IF V = {} THEN {<<"P07", "commit_by_leader">>}
          ELSE F(\E v \in V : l[3] <= s.cmax[v], "P07", "commit_by_quorum")
               \cup F(\E v \in V : IsQuorum(Eff(s, n), {x \in s.N : Holds(s, x, l)}) \/ l[3] <= s.cmax[v], "P07", "commit_durable")
ExtendWith(s, q, v) ==
  LET add(acc, l) ==
        LET en == s.ent[l]
            normal == en.k = "n"
        IN [gc |-> Append(acc.gc, l),
            gn |-> Append(acc.gn, (IF acc.gn = <<>> THEN 0 ELSE acc.gn[Len(acc.gn)]) + (IF normal THEN 1 ELSE 0)),
            gids |-> IF normal THEN Append(acc.gids, en.d) ELSE acc.gids,
            gm |-> IF en.k = "m" THEN Append(acc.gm, <<l, en.m>>) ELSE acc.gm]
      RECURSIVE go(_, _)
      go(acc, i) == IF i > Len(q) THEN acc ELSE go(add(acc, q[i]), i + 1)
      r == go([gc |-> s.gc, gn |-> s.gn, gids |-> s.gids, gm |-> s.gm], 1)
  IN [s EXCEPT !.gc = r.gc, !.gv = @ \o TLCEval([i \in 1..Len(q) |-> v]), !.gn = r.gn, !.gids = r.gids, !.gm = r.gm]
CommitTo(s, n, l) ==
  IF l = None \/ l[3] < GLen(s) THEN s
  ELSE LET V == CommitLeaders(s, n, l)
       IN IF V = {} THEN s
          ELSE LET v == CHOOSE v \in V : \A u \in V : VLe(u, v)
                   q == [k \in 1..(l[3] - GLen(s) + 1) |-> LAt(s, v, GLen(s) + k - 1)]
               IN IF \E k \in 1..Len(q) : q[k] = None THEN s ELSE ExtendWith(s, q, v)

(* ------------------------------------------------------------------------ *)
(* Votes                                                                    *)

(* Everything that leaders before v have committed is in the log of n. *)
HasCommitted(s, n, v) ==
  LET g == s.cur[n]
      C == {i \in Max2(Ix(g.pu), 0)..(GLen(s) - 1) : VLt(s.gv[i + 1], v)}
  IN /\ \A i \in C : At(g, i) = GAt(s, i)
     /\ g.pu = None \/ IsCommitted(s, g.pu)

MyLead(s, n) == s.cur[n].v[2] = n /\ s.cur[n].v \in s.claim
OnlyVoter(m, n) == Voters(m) = {n}

(* No leader holds a lease from node n. *)
Unleased(s, n) == s.cur[n].v \in s.tdis[n] \/ s.touch[n] < 0 \/ ~Committed(s.cur[n].v)
MayCampaign(s, e) ==
  \/ Unleased(s, e.n) \/ OnlyVoter(Eff(s, e.n), e.n) \/ s.cur[e.n].v[2] = e.n
  \/ e.t >= s.touch[e.n] + s.b.lease + s.b.emin

BadVt(s, e) ==
  LET n == e.n
      v == e.v
      own == v[2] = n
      m == Eff(s, n)
      free == Unleased(s, n)
  IN F(VLt(s.cur[n].v, v), "P02", "vote_grows")
     \cup (IF own /\ ~Committed(v) THEN
             F(n \in Voters(m), "P01", "only_voters_campaign")
             \cup F(v[1] > s.cur[n].v[1], "P01", "new_term")
             \cup F(MayCampaign(s, e) \/ s.eltg[n] > 0, "P14", "no_election_within_lease")
             \cup F("elect" \notin s.off[n] \/ s.eltg[n] > 0 \/ s.trx[n] # <<>>, "P21", "no_election_when_off")
             \cup F(~(s.trx[n] # <<>> /\ s.trx[n][1] = s.cur[n].v /\ s.eltg[n] = 0 /\ s.touch[n] >= 0 /\ v[1] > 0
                      /\ e.t < s.touch[n] + s.b.lease + s.b.emin /\ e.t < s.trx[n][3] + s.b.emin
                      /\ Ix(LastOf(s.cur[n])) < Ix(s.trx[n][2])), "P15",
                      IF s.vmx[n] >= Ix(s.trx[n][2]) THEN "KF-4" ELSE "target_has_log_of_leader")
           ELSE IF own THEN
             F(Get(s.cand, <<v[1], v[2], 0>>, <<0>>) # <<0>>, "P01", "claims_own_candidacy")
             \cup F(s.cur[n].v = <<v[1], v[2], 0>>, "P01", "claims_current_vote")
             \cup F(\A u \in s.claim : VLeader(u) = VLeader(v) => u = v, "P01", "one_leader")
             \cup F(IsQuorum(m, Get(s.grant, <<v[1], v[2], 0>>, {})
                                \cup (IF VLe(<<v[1], v[2], 0>>, s.dur[n].v) THEN {n} ELSE {})), "P01", "claim_quorum")
             \cup F(HasCommitted(s, n, v), "P04", "leader_has_committed")
           ELSE IF Committed(v) THEN
             F(v \in s.claim, "P01", "follows_claimed_leader")
           ELSE
             F(v \in DOMAIN s.cand \cup s.leak, "P02", "votes_for_candidate")
             \cup F(free \/ MyLead(s, n) \/ e.t >= s.touch[n] + s.b.lease, "P14", "no_grant_within_lease"))

StepVt(s, e) ==
  LET n == e.n
      v == e.v
      s1 == [s EXCEPT !.cur[n].v = v,
                      !.wal[n] = Append(@, [k |-> "v", x |-> <<v>>]),
                      !.had[n] = @ \cup {v},
                      !.vtT[n] = e.t,
                      !.vlast[n] = LastOf(s.cur[n]),
                      !.vmx[n] = Ix(LastOf(s.cur[n])),
                      !.eltg[n] = IF v[2] = n /\ ~Committed(v) /\ ~MayCampaign(s, e) THEN Max2(@ - 1, 0) ELSE @]
  IN IF v[2] # n THEN s1
     ELSE IF ~Committed(v) THEN [s1 EXCEPT !.cand = Put(@, v, LastOf(s.cur[n]))]
     ELSE LET g == s.cur[n]
              s2 == [s1 EXCEPT !.claim = @ \cup {v},
                               !.ll = Put(@, v, [b |-> Ix(g.pu) + 1, es |-> g.es]),
                               !.ack = Put(@, v, <<>>),
                               !.cmax = Put(@, v, -1)]
          IN UpCmax(s2, v)

(* A vote request. *)
BadVx(s, e) ==
  F(e.v[2] = e.n /\ e.v \in DOMAIN s.cand, "P01", "requests_own_vote")
  \cup F(Get(s.cand, e.v, None) = e.l, "P02", "request_shows_own_log")
  \cup F(VLe(e.v, s.dur[e.n].v), "P02", "candidate_vote_durable")

(* A vote request served. g = 1: granted; h: the vote of the node. *)
BadVy(s, e) ==
  LET n == e.n IN
  IF e.g = 9 THEN {}
  ELSE IF e.g = 1 THEN
    F(e.v \in s.had[n] /\ VLe(e.v, e.h), "P02", "grant_adopts_vote")
    \cup F(VLe(e.v, s.dur[n].v), "P02", "grant_durable")
    \cup F(~(s.cur[n].v # e.v /\ VLt(e.v, s.cur[n].v) /\ e.at > s.vtT[n]), "P02", "no_grant_after_higher_vote")
    \cup F(s.cur[n].v # e.v \/ LidLe(s.vlast[n], e.l), "P02", "grant_needs_log_up_to_date")
  ELSE F(VLe(e.h, s.cur[n].v), "P02", "reply_shows_own_vote")
StepVy(s, e) == s
(* The reply at the candidate. *)
StepVz(s, e) == IF e.g = 1 /\ e.h = e.v THEN [s EXCEPT !.grant = Put(@, e.v, Get(@, e.v, {}) \cup {e.fr})] ELSE s

(* ------------------------------------------------------------------------ *)
(* Logs                                                                     *)

(* An entry x = [i, k, d, m] behind log id p, created by the leader n. *)
BadCreate(s, n, x, p, t) ==
  F(x.i \notin DOMAIN s.ent, "P03", "log_id_unique")
  \cup (IF x.k = "n" THEN
          F(x.d \in DOMAIN s.pend /\ s.pend[x.d].n = n, "P13", "proposes_only_requests")
          \cup F(x.d \notin s.ids, "P13", "proposed_once")
          \cup F(x.d \notin s.nack, "P13", "refused_never_proposed")
          \cup F(Get(s.txv, s.cur[n].v, -1) < 0 \/ t >= s.txv[s.cur[n].v] + 2 * s.b.lease, "P15", "no_writes_while_transferring")
        ELSE IF x.k = "m" THEN
          LET pm == EffMem(s, n)
              C == {o \in DOMAIN s.chg : s.chg[o].n = n}
          IN F(IsCommitted(s, pm[1]) \/ Ix(pm[1]) <= Get(s.cmax, s.cur[n].v, -1), "P08", "one_change_at_a_time")
             \cup F(Overlap(pm[2], x.m), "P08", "quorums_overlap")
             \cup F(Voters(x.m) # {} /\ Voters(x.m) \subseteq MemNodes(x.m), "P08", "config_valid")
             \cup F(\E o \in C : Change(pm[2], s.chg[o].c) = <<"ok", x.m>>, "P09", "change_as_requested")
        ELSE {})

Fresh(s, n) == LastOf(s.cur[n]) = None /\ s.cur[n].v = Vote0

RECURSIVE BadApp(_, _, _, _, _)
BadApp(s, n, es, p, t) ==
  IF es = <<>> THEN {}
  ELSE LET x == Head(es)
           lid == x.i
           en == Get(s.ent, lid, [k |-> "?", d |-> 0, m |-> <<>>, p |-> None])
           mine == MyLead(s, n) /\ LeaderId(lid) = VLeader(s.cur[n].v)
           init == Fresh(s, n) /\ lid = <<0, 0, 0>>
           content == [k |-> x.k, d |-> x.d, m |-> x.m, p |-> p]
       IN F(Ix(lid) = Ix(p) + 1, "P03", "log_contiguous")
          \cup F(LidLt(p, lid), "P03", "log_ids_grow")
          \cup (IF init THEN
                  F(\E o \in DOMAIN s.ini : s.ini[o].n = n /\ s.ini[o].m = x.m, "P16", "initialized_as_asked")
                  \cup F(x.k = "m" /\ n \in MemNodes(x.m), "P16", "initialized_by_member")
                  \cup F(lid \notin DOMAIN s.ent \/ en = content, "P16", "one_initial_config")
                ELSE IF mine THEN BadCreate(s, n, x, p, t)
                ELSE F(~MyLead(s, n), "P03", "leader_appends_own_entries")
                     \cup F(lid \in DOMAIN s.ent, "P03", "entry_comes_from_leader")
                     \cup F(lid \notin DOMAIN s.ent \/ en = content, "P03", "log_matching")
                     \cup F(Committed(s.cur[n].v), "P03", "appends_for_leader_only")
                     \cup F(LidLe(<<lid[1], lid[2], 0>>, <<s.cur[n].v[1], s.cur[n].v[2], 0>>), "P03", "entry_not_from_future"))
          \cup BadApp(s, n, Tail(es), lid, t)

BadAppend(s, e) == BadApp(s, e.n, e.es, LastOf(s.cur[e.n]), e.t)

MemSeq(es) == LET q == SelectSeq(es, LAMBDA x : x.k = "m") IN TLCEval([i \in 1..Len(q) |-> <<q[i].i, q[i].m>>])
Lids(es) == TLCEval([i \in 1..Len(es) |-> es[i].i])

StepAppend(s, e) ==
  LET n == e.n
      es == e.es
      ls == Lids(es)
      p0 == LastOf(s.cur[n])
      new == {i \in 1..Len(es) : es[i].i \notin DOMAIN s.ent}
      add == TLCEval([l \in {es[i].i : i \in new} |->
                LET i == CHOOSE i \in new : es[i].i = l
                IN [k |-> es[i].k, d |-> es[i].d, m |-> es[i].m, p |-> IF i = 1 THEN p0 ELSE es[i - 1].i]])
      mine == MyLead(s, n)
      v == s.cur[n].v
      s1 == [s EXCEPT !.cur[n] = AppendTo(@, ls),
                      !.wal[n] = Append(@, [k |-> "a", x |-> ls]),
                      !.vmx[n] = Max2(@, ls[Len(ls)][3]),
                      !.mem[n] = SelectSeq(@, LAMBDA q : Ix(q[1]) < ls[1][3]) \o MemSeq(es),
                      !.ent = IF add = <<>> THEN @ ELSE add @@ @,
                      !.ids = @ \cup {es[i].d : i \in {i \in new : es[i].k = "n"}},
                      !.ll = IF mine THEN [@ EXCEPT ![v].es = @ \o ls] ELSE @]
  IN IF mine /\ MemSeq(es) # <<>> THEN UpCmax(s1, v) ELSE s1

BadTrunc(s, e) ==
  LET n == e.n
      i == e.at[3]
      lost == {k \in i..(GLen(s) - 1) : At(s.cur[n], k) = GAt(s, k) /\ k > Ix(s.snap[n])}
      v == s.cur[n].v
  IN F(At(s.cur[n], i) = e.at, "P03", "truncates_what_it_has")
     (* Logs go because the log of the leader differs, or a snapshot of it replaces them. *)
     \cup F(v \in s.claim /\ (MyLead(s, n) \/ (LAt(s, v, i) # e.at /\ LAt(s, v, i) # None)
                                           \/ (lost # {} /\ i > Ix(s.ap[n]) /\ \E k \in i..Ix(LastOf(s.cur[n])) : LAt(s, v, k) \notin {None, At(s.cur[n], k)})),
           "P03", "truncates_conflicting_only")
     \cup F(~MyLead(s, n), "P03", "leader_append_only")
     \cup F({k \in lost : k <= Ix(s.ap[n])} = {}, "P05", "applied_never_truncated")
StepTrunc(s, e) ==
  LET n == e.n
      i == e.at[3]
      lost == {k \in i..(GLen(s) - 1) : At(s.cur[n], k) = GAt(s, k) /\ k > Ix(s.snap[n])}
  IN [s EXCEPT !.cur[n] = CutFrom(@, i),
               !.wal[n] = Append(@, [k |-> "t", x |-> <<e.at>>]),
               !.mem[n] = SelectSeq(@, LAMBDA q : Ix(q[1]) < i),
               (* Committed entries went: only ahead of a snapshot that covers them. *)
               !.inst[n] = lost # {},
               !.kf3 = @ \cup {s.ent[GAt(s, k)].d : k \in {k \in lost : s.ent[GAt(s, k)].k = "n"}}]

BadPurge(s, e) ==
  LET n == e.n IN
  F(IsCommitted(s, e.at), "P11", "purges_committed")
  \cup F(Ix(e.at) <= Ix(s.snap[n]) \/ (~s.up[n] /\ Ix(e.at) <= Ix(s.ap[n])), "P11", "purges_behind_snapshot")
  \cup F(Ix(e.at) >= Ix(s.cur[n].pu), "P11", "purge_monotone")
  \cup F(s.utg[n] \/ ~s.up[n] \/ Ix(e.at) + s.b.keep <= Ix(s.snap[n]), "P11", "purge_keeps_logs")
StepPurge(s, e) ==
  LET n == e.n IN
  [s EXCEPT !.cur[n] = PurgeTo(@, e.at),
            !.wal[n] = Append(@, [k |-> "p", x |-> <<e.at>>]),
            !.mem[n] = SelectSeq(@, LAMBDA q : Ix(q[1]) > Ix(e.at))]

(* A write becomes durable. *)
StepFlush(s, e) ==
  LET n == e.n
      op == Head(s.wal[n])
      s1 == [s EXCEPT !.dur[n] = Exec(@, op), !.wal[n] = Tail(@),
                      !.held[n] = IF op.k = "t" THEN @ \cup {l \in Range(s.dur[n].es) : Ix(l) >= op.x[1][3]} ELSE @]
      v == s.cur[n].v
  IN IF op.k = "a" /\ MyLead(s, n) THEN
       LET l == op.x[Len(op.x)] IN IF LAt(s, v, l[3]) = l THEN Ack(s1, v, n, l[3]) ELSE s1
     ELSE s1

BadSc(s, e) == BadCommit(s, e.n, e.c) \cup F(Ix(s.cur[e.n].sc) <= Ix(e.c), "P05", "commit_monotone")
StepSc(s, e) ==
  LET s1 == CommitTo(s, e.n, e.c)
  IN [s1 EXCEPT !.cur[e.n].sc = e.c, !.wal[e.n] = Append(@, [k |-> "c", x |-> <<e.c>>])]

(* ------------------------------------------------------------------------ *)
(* Replication                                                              *)

(* AppendEntries sent: by the leader, a piece of its log. *)
BadAx(s, e) ==
  IF ~(e.v \in s.claim /\ e.v[2] = e.n) THEN {<<"P01", "only_leader_replicates">>}
  ELSE
    F(e.p = None \/ LAt(s, e.v, e.p[3]) = e.p, "P03", "sent_prev_of_leader_log")
    \cup F(\A i \in 1..Len(e.es) :
             LET x == e.es[i] IN
             /\ LAt(s, e.v, x.i[3]) = x.i
             /\ x.i[3] = Ix(e.p) + i
             /\ LET en == s.ent[x.i] IN en.k = x.k /\ en.d = x.d /\ en.m = x.m, "P03", "sent_entries_of_leader_log")
    \cup BadCommit(s, e.n, e.lc)
    \cup F(VLe(e.v, s.dur[e.n].v), "P02", "leader_vote_durable")
StepAx(s, e) == CommitTo(s, e.n, e.lc)

(* AppendEntries answered. *)
BadAy(s, e) ==
  LET n == e.n IN
  IF e.k \in {"err", "big"} THEN {}
  ELSE IF e.k = "hv" THEN
    F(VLt(e.v, e.h), "P02", "rejects_by_higher_vote_only")
    \cup F(VLe(e.h, s.cur[n].v), "P02", "reply_shows_own_vote")
    \cup F(VLe(e.h, s.dur[n].v), "P02", "reject_durable")
  ELSE
    F(~(VLt(e.v, s.cur[n].v) /\ e.at > s.vtT[n]), "P02", "no_append_after_higher_vote")
    \cup F(VLe(e.v, s.dur[n].v), "P06", "ack_vote_durable")
    \cup (IF e.k = "ok" THEN F(Held(s, n, e.v, e.l) /\ Held(s, n, e.v, e.p), "P06", "ack_log_durable")
          ELSE IF e.k = "part" THEN F(Held(s, n, e.v, e.m), "P06", "ack_log_durable")
          ELSE F(e.p # None, "P03", "conflict_needs_prev"))
StepAy(s, e) ==
  IF e.k \in {"ok", "conf", "part"} /\ e.v = s.cur[e.n].v
  THEN [s EXCEPT !.touch[e.n] = Max2(@, e.at)]
  ELSE s

(* The reply at the leader. xt: when it was sent, l: what it acknowledges. *)
StepAz(s, e) ==
  IF e.v \notin s.claim THEN s
  ELSE LET s1 == IF e.k \in {"ok", "conf", "part"} THEN [s EXCEPT !.alive = Put(@, <<e.v, e.fr>>, Max2(Get(@, <<e.v, e.fr>>, -1), e.xt))] ELSE s
       IN IF e.k = "ok" THEN Ack(s1, e.v, e.fr, Ix(e.l))
          ELSE IF e.k = "part" THEN Ack(s1, e.v, e.fr, Ix(e.m)) ELSE s1

(* ------------------------------------------------------------------------ *)
(* State machine                                                            *)

BadApply(s, e) ==
  LET n == e.n
      es == e.es
      last == es[Len(es)].i
      t == CommitTo(s, n, last)
  IN BadCommit(s, n, last)
     \cup F(\A i \in 1..Len(es) : es[i].i[3] = Ix(s.ap[n]) + i, "P05", "applies_in_order")
     \cup F(\A i \in 1..Len(es) : GAt(t, es[i].i[3]) = es[i].i, "P05", "applies_committed_log")
     \cup F(\A i \in 1..Len(es) : es[i].i \in DOMAIN s.ent /\
              (LET en == s.ent[es[i].i] IN en.k = es[i].k /\ en.d = es[i].d /\ en.m = es[i].m), "P05", "applies_entry_as_proposed")
StepApply(s, e) ==
  LET n == e.n
      last == e.es[Len(e.es)].i
      s1 == CommitTo(s, n, last)
  IN [s1 EXCEPT !.ap[n] = last, !.dap[n] = IF s.b.smper = 1 THEN last ELSE @]

(* A snapshot x = [last, clast, ids, ml, m, ok] is the committed log up to last. *)
BadSnap(s, x) ==
  IF x.ok = 0 THEN {<<"P10", "snapshot_intact">>}
  ELSE F(IsCommitted(s, x.last), "P10", "snapshot_of_committed_log")
       \cup F(x.clast = x.last, "P10", "snapshot_meta_matches_data")
       \cup (IF x.last # None /\ IsCommitted(s, x.last) THEN
               LET k == s.gn[x.last[3] + 1]
                   mm == LastMemUpTo(s.gm, x.last[3])
               IN F(x.ids = SubSeq(s.gids, 1, k), "P10", "snapshot_state_is_log_prefix")
                  \cup F(x.ml = mm[1] /\ x.m = mm[2], "P10", "snapshot_membership")
             ELSE F(x.ids = <<>> /\ x.ml = None, "P10", "snapshot_state_is_log_prefix"))

StepSg(s, e) == [s EXCEPT !.sgat[e.n] = e.at]
BadSb(s, e) == BadSnap(s, e.s) \cup F(e.s.last = s.sgat[e.n], "P10", "snapshot_of_applied_state")
StepSb(s, e) == [s EXCEPT !.snap[e.n] = LidMax(@, e.s.last)]

BadSi(s, e) ==
  LET n == e.n IN
  BadSnap(s, e.s)
  \cup F(Ix(s.ap[n]) < Ix(e.s.last), "P10", "install_never_goes_back")
  \cup F(Committed(s.cur[n].v) /\ ~MyLead(s, n), "P10", "install_from_leader")
StepSi(s, e) ==
  LET n == e.n
      l == e.s.last
  IN [s EXCEPT !.ap[n] = l, !.dap[n] = l, !.snap[n] = l, !.utg[n] = TRUE, !.inst[n] = FALSE]

BadSx(s, e) ==
  F(e.v \in s.claim /\ e.v[2] = e.n, "P01", "only_leader_replicates")
  \cup F(IsCommitted(s, e.l), "P10", "sends_committed_snapshot")
BadSy(s, e) ==
  LET n == e.n IN
  IF e.k # "ok" THEN {}
  ELSE IF e.h # e.v THEN F(VLt(e.v, e.h) /\ VLe(e.h, s.cur[n].v), "P02", "rejects_by_higher_vote_only")
  ELSE F(~(VLt(e.v, s.cur[n].v) /\ e.at > s.vtT[n]), "P02", "no_append_after_higher_vote")
       \cup F(VLt(e.v, s.dur[n].v) \/ Holds(s, n, e.l) \/ At(s.cur[n], e.l[3]) = e.l, "P06", "ack_snapshot_durable")
       \cup F(VLe(e.v, s.dur[n].v), "P06", "ack_vote_durable")
StepSy(s, e) ==
  IF e.k = "ok" /\ e.h = e.v /\ e.v = s.cur[e.n].v THEN [s EXCEPT !.touch[e.n] = Max2(@, e.at)] ELSE s
(* A chunk of a snapshot served. *)
(* All bytes before `off` are in the segments that came. *)
Whole(segs, sid, off) ==
  LET q == {x \in segs : x[1] = sid} IN
  off = 0 \/ \A p \in {0} \cup {x[3] : x \in q} : p >= off \/ \E x \in q : x[2] <= p /\ p < x[3]
BadCy(s, e) ==
  IF e.done = 1 THEN BadSy(s, e) \cup F(e.k = "ok" /\ e.h = e.v => Whole(s.chk[e.n], e.sid, e.off), "P20", "finishes_whole_snapshot_only")
  ELSE IF e.k # "ok" THEN {}
  (* The vote that it shows may be one that it is about to write: nothing is promised by it. *)
  ELSE F(VLe(e.h, s.cur[e.n].v) \/ e.h \in DOMAIN s.cand \cup s.claim \/ (e.h[2] = e.n /\ ~Committed(e.h)), "P02", "reply_shows_own_vote")
StepCy(s, e) == IF e.done = 1 THEN StepSy(s, e) ELSE IF e.k = "ok" /\ ~VLe(e.h, s.cur[e.n].v) THEN [s EXCEPT !.leak = @ \cup {e.h}] ELSE s
StepCa(s, e) == [s EXCEPT !.chk[e.n] = @ \cup {<<e.sid, e.off, e.end>>}]
StepSx(s, e) == [s EXCEPT !.sxT = Put(@, <<e.v, e.to>>, e.t)]
StepSz(s, e) ==
  IF e.v \in s.claim /\ e.h = e.v
  THEN [Ack(s, e.v, e.fr, Ix(e.l)) EXCEPT !.alive = Put(@, <<e.v, e.fr>>, Max2(Get(@, <<e.v, e.fr>>, -1), Get(s.sxT, <<e.v, e.fr>>, -1)))]
  ELSE s

(* ------------------------------------------------------------------------ *)
(* Leader transfer                                                          *)

BadTx(s, e) ==
  F(s.tgT[e.n] >= 0, "P15", "transfers_when_asked")
  \cup F(e.v \in s.claim /\ e.v[2] = e.n, "P15", "only_leader_transfers")
  \cup F(e.l = None \/ (e.v \in s.claim => LAt(s, e.v, e.l[3]) = e.l), "P15", "transfer_names_leader_log")
StepTx(s, e) == [s EXCEPT !.txv = Put(@, e.v, s.tgT[e.n])]
StepTrRx(s, e) == [s EXCEPT !.tdis[e.n] = @ \cup {e.v},
                            !.trx[e.n] = IF e.tgt # e.n THEN <<e.v, e.l, -1000000000>>
                                         ELSE IF @ # <<>> /\ @[1] = e.v THEN @ ELSE <<e.v, e.l, e.t>>]
StepTg(s, e) ==
  LET n == e.n IN
  CASE e.k = "elect" -> [s EXCEPT !.eltg[n] = @ + 1]
    [] e.k = "purge" -> [s EXCEPT !.utg[n] = TRUE]
    [] e.k = "transfer" -> [s EXCEPT !.tdis[n] = @ \cup {s.cur[n].v},
                                     !.tto = @ \cup {e.a}, !.tgT[n] = IF @ < 0 \/ e.t > @ + 2000000 THEN e.t ELSE @]
    [] OTHER -> s

(* ------------------------------------------------------------------------ *)
(* Clients                                                                  *)

StepWi(s, e) == [s EXCEPT !.pend = Put(@, e.d, [n |-> e.n, o |-> e.o, seen |-> s.seen])]
(* The node that a client is sent to has led, or was asked to take over. *)
BadHint(s, e) == F(e.ld = 0 \/ e.ld \in s.tto \/ \E v \in s.claim : v[2] = e.ld, "P13", "sends_to_leader")
BadWr(s, e) ==
  IF e.k = "ok" THEN
    F(IsCommitted(s, e.l) /\ e.l # None, "P13", "acked_is_committed")
    \cup (IF IsCommitted(s, e.l) /\ e.l # None THEN
            F(s.ent[e.l].k = "n" /\ s.ent[e.l].d = e.d, "P13", "reply_names_own_entry")
            \cup F(e.rid = e.d /\ e.pos = s.gn[e.l[3] + 1] /\ e.ri = e.l[3], "P13", "reply_is_result_of_request")
            \cup F(e.l[3] <= Ix(s.ap[e.n]), "P13", "applied_before_reply")
            \cup F(e.mem = 0, "P13", "reply_of_write_has_no_membership")
            \cup F(e.l[3] > s.pend[e.d].seen, "P13", "real_time_order")
          ELSE {})
  ELSE IF e.k = "fwd" THEN 
    F(\A i \in 1..Len(s.gids) : s.gids[i] # e.d, "P13", IF e.d \in s.kf3 THEN "KF-3" ELSE "refused_never_committed") \cup BadHint(s, e)
  ELSE {}
StepWr(s, e) ==
  IF e.k = "ok" THEN [s EXCEPT !.seen = Max2(@, Ix(e.l))]
  ELSE IF e.k = "fwd" THEN [s EXCEPT !.nack = @ \cup {e.d}] ELSE s

StepRi(s, e) == [s EXCEPT !.rd = Put(@, e.o, [n |-> e.n, t |-> e.t, seen |-> s.seen, ml |-> EffMem(s, e.n)])]
BadRr(s, e) ==
  LET n == e.n
      r == s.rd[e.o]
      conf(v, m) == IsQuorum(m, {n} \cup {x \in s.N : Get(s.alive, <<v, x>>, -1) >= r.t})
      V == {v \in s.claim : v[2] = n}
  IN IF e.k = "fwd" THEN BadHint(s, e)
     ELSE IF e.k # "ok" THEN {}
     ELSE F(Ix(e.ap) >= r.seen, "P12", "read_sees_acked_writes")
          \cup F(Ix(e.l) >= r.seen, "P12", "read_index_covers_acked_writes")
          \cup F(Ix(e.ap) >= Ix(e.l), "P12", "applied_to_read_index")
          \cup F(IsCommitted(s, e.ap), "P12", "read_sees_committed_state")
          \cup F(\E v \in V : \/ conf(v, r.ml[2])
                              \/ conf(v, Eff(s, n))
                              \/ \E k \in 1..Len(s.mem[n]) : Ix(s.mem[n][k][1]) > Ix(r.ml[1]) /\ conf(v, s.mem[n][k][2]),
                 "P12", "read_confirms_leadership")
StepRr(s, e) == IF e.k = "ok" THEN [s EXCEPT !.seen = Max2(@, Ix(e.ap))] ELSE s

StepCi(s, e) == [s EXCEPT !.chg = Put(@, e.o, [n |-> e.n, c |-> e.c, ml |-> EffMem(s, e.n)])]
BadCm(s, e) ==
  LET n == e.n
      g == s.chg[e.o]
      same == g.ml = EffMem(s, n)
      before == LastMemUpTo(s.gm, Ix(e.l) - 1)
  IN IF e.k = "ok" THEN
       F(e.l # None /\ IsCommitted(s, e.l), "P09", "acked_change_is_committed")
       \cup (IF e.l # None /\ IsCommitted(s, e.l) THEN
               F(s.ent[e.l].k = "m" /\ s.ent[e.l].m = e.m, "P09", "reply_shows_membership")
               \cup F(Change(before[2], g.c) = <<"ok", e.m>>, "P09", "change_as_requested")
               \cup F(e.l[3] <= Ix(s.ap[n]), "P09", "applied_before_reply")
             ELSE {})
     ELSE IF e.k \in {"empty", "nolearner"} THEN
       (* Its log may be ahead of what it has written. *)
       F(\/ ~same \/ Change(g.ml[2], g.c) = <<e.k>>
         \/ \E l \in DOMAIN s.ent : s.ent[l].k = "m" /\ l[3] > Ix(g.ml[1]) /\ Change(s.ent[l].m, g.c) = <<e.k>>, "P09", "refused_as_invalid")
     ELSE IF e.k = "fwd" THEN BadHint(s, e)
     ELSE {}
StepCm(s, e) ==
  IF e.k = "ok" THEN [s EXCEPT !.seen = Max2(@, Ix(e.l))] ELSE s

StepIi(s, e) == [s EXCEPT !.ini = Put(@, e.o, [n |-> e.n, m |-> <<<<TLCEval([i \in 1..Len(e.m) |-> e.m[i][1]])>>, e.m>>, fresh |-> Fresh(s, e.n)])]
BadIr(s, e) ==
  LET n == e.n
      r == s.ini[e.o]
  IN IF e.k = "ok" THEN F(r.fresh, "P16", "initialize_only_pristine")
                        \cup F(n \in MemNodes(r.m), "P16", "initialized_by_member")
                        \cup F(<<0, 0, 0>> \in DOMAIN s.ent, "P16", "initialized_as_asked")
                        \cup F(LastOf(s.dur[n]) # None, "P16", "initialized_durably")
     ELSE IF e.k = "notallowed" THEN F(~Fresh(s, n), "P16", "pristine_can_be_initialized")
     ELSE IF e.k = "notin" THEN F(n \notin MemNodes(r.m), "P16", "member_can_initialize")
     ELSE {}

(* ------------------------------------------------------------------------ *)
(* Crash, restart, storage faults                                           *)

RECURSIVE FirstOf(_, _)
FirstOf(q, k) == IF k = 0 \/ q = <<>> THEN <<>> ELSE <<Head(q)>> \o FirstOf(Tail(q), k - 1)
MemIn(s, g) ==
  LET q == SelectSeq(g.es, LAMBDA l : s.ent[l].k = "m") IN TLCEval([i \in 1..Len(q) |-> <<q[i], s.ent[q[i]].m>>])
StepCrash(s, e) ==
  LET n == e.n
      d == ExecAll(s.dur[n], FirstOf(s.wal[n], e.k))
      lead == d.v \in s.claim /\ d.v[2] = n /\ LastOf(d) # None /\ LAt(s, d.v, Ix(LastOf(d))) = LastOf(d)
      s1 == IF lead THEN Ack(s, d.v, n, Ix(LastOf(d))) ELSE s
  IN [s1 EXCEPT !.dur[n] = d, !.cur[n] = d, !.wal[n] = <<>>, !.up[n] = FALSE,
               !.calm[n] = TRUE, !.mem[n] = MemIn(s, d), !.vlast[n] = LastOf(d), !.vmx[n] = Ix(LastOf(d)), !.touch[n] = -1, !.tdis[n] = {}, !.eltg[n] = 0, !.chk[n] = {},
               !.utg[n] = FALSE, !.inst[n] = FALSE, !.held[n] = {}, !.flt[n] = -1, !.off[n] = {}, !.sd[n] = 0, !.trx[n] = <<>>, !.txv = TLCEval([v \in {v \in DOMAIN @ : v[2] # n} |-> @[v]]), !.mt[n] = <<>>,
               !.ap[n] = IF s.b.smper = 1 THEN s.dap[n] ELSE s.snap[n]]

(* Boot. What is on the disk is checked against the state: a difference is a *)
(* fault of the harness or of this specification.                            *)
BadSt(s, e) ==
  LET n == e.n IN
  F(/\ e.v = (IF s.cur[n].v = Vote0 THEN <<>> ELSE s.cur[n].v) \/ (e.v = Vote0 /\ s.cur[n].v = Vote0)
    /\ e.last = LastOf(s.cur[n]) /\ e.pu = s.cur[n].pu /\ e.ap = s.ap[n] /\ e.sc = s.cur[n].sc /\ e.sn = s.snap[n], "TOOL", "disk_as_specified")
(* Storage loaded: what the node believes. *)
BadUp(s, e) ==
  LET n == e.n
      mm == EffMem(s, n)
      voter == n \in Voters(mm[2])
      leads == s.cur[n].v \in s.claim /\ s.cur[n].v[2] = n
  IN IF s.up[n] THEN {}
     ELSE F(IF s.calm[n] THEN e.v = s.cur[n].v ELSE VLe(s.dur[n].v, e.v), "P17", "vote_restored")
          \cup F(s.calm[n] => e.el = mm[1] /\ e.em = mm[2], "P17", "membership_restored")
          \cup BadCommit(s, n, e.c)
          \cup F(Ix(e.c) >= Max2(Ix(s.cur[n].sc), Max2(Ix(s.snap[n]), Ix(s.cur[n].pu))) \/ ~s.calm[n], "P17", "commit_not_lost")
          \cup F(s.calm[n] => e.sn = s.snap[n], "P17", "snapshot_restored")
          \cup F(Ix(s.snap[n]) >= Ix(s.cur[n].pu), "P17", "purged_logs_have_snapshot")
          \cup F(s.calm[n] => Ix(s.ap[n]) >= Max2(Ix(s.cur[n].sc), Ix(s.snap[n])), "P17", "state_machine_restored")
          \cup F(~s.calm[n] \/ IF leads THEN e.ss \in {"D", "L"} ELSE e.ss = (IF voter THEN "F" ELSE "L"), "P17", "role_restored")
StepUp(s, e) == [CommitTo(s, e.n, e.c) EXCEPT !.up[e.n] = TRUE, !.chk[e.n] = {}]
StepFault(s, e) == [s EXCEPT !.flt[e.n] = IF @ < 0 THEN e.t ELSE @]
(* A node whose storage has failed stops, at the latest when it has worked   *)
(* off what it was at.                                                       *)
FaultSlack == 3000000
BadAfterFault(s, e) ==
  IF "n" \in DOMAIN e /\ e.e \in {"vx", "ax", "sx", "cx", "vy", "ay", "app", "ap"} /\ s.flt[e.n] >= 0 THEN
    F(e.t <= s.flt[e.n] + FaultSlack \/ (e.e = "ay" /\ e.k = "err") \/ (e.e = "vy" /\ e.g = 9), "P25", "stops_on_storage_error")
  ELSE {}
BadUpFail(s, e) == F(e.fault = 1, "P17", "boots_from_intact_disk")

(* ------------------------------------------------------------------------ *)
(* Metrics                                                                  *)

(* A quorum has answered what leader v sent at time t or later: of one of    *)
(* the memberships it has gone by.                                           *)
QuorumAcked(s, v, t) ==
  LET n == v[2]
      A == {n} \cup {x \in s.N : Get(s.alive, <<v, x>>, -1) >= t}
  IN \/ IsQuorum(Eff(s, n), A)
     \/ \E k \in 1..Len(s.mem[n]) : IsQuorum(s.mem[n][k][2], A)
     \/ \E k \in 1..Len(s.gm) : IsQuorum(s.gm[k][2], A)
BadMt(s, e) ==
  LET n == e.n
      o == s.mt[n]
  IN F(e.v \in s.had[n] /\ VLe(e.v, s.dur[n].v), "P19", "shows_durable_vote")
     \cup F(e.term >= e.v[1], "P19", "term_of_vote")
     \cup F(Ix(e.ap) <= Ix(s.ap[n]) /\ IsCommitted(s, e.ap), "P19", "applied_is_applied")
     \cup F(Ix(e.sn) <= Ix(s.snap[n]) /\ IsCommitted(s, e.sn), "P19", "snapshot_exists")
     \cup F(Ix(e.pu) <= Max2(Ix(s.cur[n].pu), Ix(s.snap[n])) /\ IsCommitted(s, e.pu), "P19", "purged_is_purged")
     \cup F(e.ld = 0 \/ e.run # "ok" \/ <<e.term, e.ld, 1>> \in s.claim, "P19", "leader_is_leader")
     \cup F(e.st # "D" \/ e.run # "ok" \/ <<e.term, n, 1>> \in s.claim, "P19", "leader_state_needs_claim")
     \cup F(e.ml = None \/ e.run # "ok" \/ (e.ml \in DOMAIN s.ent /\ s.ent[e.ml].k = "m" /\ s.ent[e.ml].m = e.m), "P19", "membership_of_log")
     \cup F(\A i \in 1..Len(e.rp) : LET l == e.rp[i][2] IN
              \/ l = None \/ e.v \notin s.claim
              \/ l[3] <= Get(s.ack[e.v], e.rp[i][1], -1) /\ LAt(s, e.v, l[3]) = l
              \/ e.rp[i][1] = n /\ LAt(s, e.v, l[3]) = l, "P23", "matched_is_acknowledged")
     \cup F(e.run = "ok" \/ s.flt[n] >= 0 \/ (s.sd[n] > 0 /\ e.run = "stopped"), "P25", "keeps_running")
     \cup F(\/ e.qa <= 0 \/ e.isl = 0
            \/ \E v \in s.claim : v[2] = n /\ v[1] = e.term /\ QuorumAcked(s, v, e.qa), "P14", "quorum_acked_by_quorum")
     \cup F(e.ag = 1 \/ e.run # "ok", "P19", "views_agree")
     \cup F(\A i \in 1..Len(e.hb) : \/ e.hb[i][2] <= 0 \/ e.isl = 0 \/ e.hb[i][1] = n
                                   \/ \E v \in s.claim : v[2] = n /\ v[1] = e.term /\ Get(s.alive, <<v, e.hb[i][1]>>, -1) >= e.hb[i][2],
            "P14", "acked_by_node")
     \cup (IF o = <<>> THEN {}
           ELSE F(VLe(o.v, e.v), "P19", "vote_monotone")
                \cup F(LidLe(o.ap, e.ap) /\ LidLe(o.sn, e.sn) /\ LidLe(o.pu, e.pu), "P19", "progress_monotone"))
StepMt(s, e) == [s EXCEPT !.mt[e.n] = [v |-> e.v, ap |-> e.ap, sn |-> e.sn, pu |-> e.pu]]

(* ------------------------------------------------------------------------ *)
(* The end of a run: the network is well and all nodes are up for a while.   *)

(* No voter of its own membership can win the votes of a quorum of it, for   *)
(* what the others have is more up to date than it (known finding KF-2).     *)
Unelectable(s) ==
  \A c \in s.N : c \in Voters(Eff(s, c)) =>
    ~IsQuorum(Eff(s, c), {x \in s.N : LidLe(LastOf(s.cur[x]), LastOf(s.cur[c]))})
(* What a node reports when nothing happens any more is what it has. *)
BadRest(s, r) ==
  LET n == r.n
      mm == EffMem(s, n)
      lead == r.v \in s.claim /\ r.v[2] = n
      voter == n \in Voters(mm[2])
      (* A node that is no member any more goes on campaigning. *)
      member == s.gm = <<>> \/ n \in MemNodes(s.gm[Len(s.gm)][2])
  IN F(r.ml = mm[1] /\ r.m = mm[2], "P08", "goes_by_membership_of_log")
     \cup F(r.v = s.cur[n].v \/ (~member /\ VLe(r.v, s.cur[n].v)), "P19", "shows_present_vote")
     \cup F(r.last = Max2(Ix(LastOf(s.cur[n])), Ix(s.snap[n])) /\ r.ap = s.ap[n] /\ r.pu = s.cur[n].pu, "P19", "shows_present_log")
     \cup F(r.sn = s.snap[n], "P19", "shows_present_snapshot")
     \cup F(CASE ~member -> TRUE
               [] lead /\ member -> r.st = "D" \/ (~voter /\ r.st = "L")
               [] voter /\ ~lead /\ member -> r.st \in {"F", "C"}
               [] ~voter /\ ~lead /\ member -> r.st = "L", "P19", "shows_present_role")
     \cup F(Committed(r.v) /\ r.v[2] \in Voters(mm[2]) => r.ld = r.v[2], "P19", "shows_present_leader")
     \cup F(r.len = (IF s.ap[n] = None THEN 0 ELSE s.gn[Ix(s.ap[n]) + 1]), "P05", "state_is_of_log")
BadEnd(s, e) ==
  F(e.ok = 1, "P18", IF Unelectable(s) THEN "KF-2" ELSE "makes_progress")
  \cup UNION {LET r == e.rep[i] IN IF r.up = 0 THEN {<<"P25", "keeps_running">>}
              ELSE F(r.run = "ok", "P25", "keeps_running") \cup (IF r.run = "ok" /\ e.ok = 1 THEN BadRest(s, r) ELSE {}) : i \in 1..Len(e.rep)}
(* Something was asked for in a healthy cluster. *)
ProbeOf == [snap |-> <<"P21", "snapshot_when_asked">>, purge |-> <<"P21", "purge_when_asked">>, transfer |-> <<"P15", "transfer_completes">>,
            stable |-> <<"P14", "leader_is_stable">>, write |-> <<"P13", "writes_at_leader_only">>, hint |-> <<"P13", "forwards_to_leader">>,
            wait |-> <<"P19", "wait_tells_the_truth">>, learner |-> <<"P09", "change_completes">>, catchup |-> <<"P18", "learner_catches_up">>,
            change |-> <<"P09", "change_completes">>, shutdown |-> <<"P22", "shutdown_is_final">>, without |-> <<"P18", "goes_on_without_a_node">>,
            noelect |-> <<"P21", "no_election_when_off">>, rejoin |-> <<"P18", "node_rejoins">>]
BadPb(s, e) == IF e.ok = 1 THEN {} ELSE {ProbeOf[e.k]}
(* A node that was shut down does nothing. *)
BadAfterDown(s, e) ==
  IF "n" \in DOMAIN e /\ e.e \in {"vt", "app", "tr", "sc"} /\ s.sd[e.n] = 2 THEN {<<"P22", "silent_after_shutdown">>}
  ELSE {}
StepRc(s, e) == [s EXCEPT !.off[e.n] = IF e.on = 1 THEN @ \ {e.k} ELSE @ \cup {e.k}]

(* ------------------------------------------------------------------------ *)
(* The ways to look at a node.                                              *)

StepKi(s, e) == [s EXCEPT !.ask = Put(@, e.o, [fresh |-> Fresh(s, e.n), ap |-> s.ap[e.n], sn |-> s.snap[e.n]])]
(* is_initialized *)
BadKz(s, e) == F(IF e.i = 1 THEN ~Fresh(s, e.n) ELSE s.ask[e.o].fresh, "P16", "tells_initialized")
(* get_snapshot *)
BadKg(s, e) ==
  IF e.s = <<>> THEN F(s.ask[e.o].sn = None, "P10", "gives_latest_snapshot")
  ELSE BadSnap(s, e.s) \cup F(Ix(e.s.last) >= Ix(s.ask[e.o].sn), "P10", "gives_latest_snapshot")
(* with_raft_state, external_request *)
BadKp(s, e) ==
  BadCommit(s, e.n, e.c)
  \cup F(VLe(s.cur[e.n].v, e.v), "P02", "state_has_present_vote")
  \cup F(e.el = None \/ (e.el \in DOMAIN s.ent => s.ent[e.el].k = "m" /\ s.ent[e.el].m = e.em), "P08", "goes_by_membership_of_log")
  \cup F(IsCommitted(s, e.cl) \/ Ix(e.cl) <= Ix(e.c), "P08", "committed_membership_is_committed")
(* with_state_machine, external_state_machine_request *)
BadKm(s, e) ==
  IF e.k = 0 THEN F(s.flt[e.n] >= 0 \/ s.sd[e.n] > 0, "P05", "shows_state_machine")
  ELSE F(Ix(e.ap) >= Ix(s.ask[e.o].ap) /\ IsCommitted(s, e.ap), "P05", "shows_state_machine")
       \cup F(~IsCommitted(s, e.ap) \/ e.len = (IF e.ap = None THEN 0 ELSE s.gn[Ix(e.ap) + 1]), "P05", "state_is_of_log")

(* ------------------------------------------------------------------------ *)
(* All events                                                               *)

(* A leader loses what it has written but not flushed, and will lead again   *)
(* with the same vote (known finding KF-1).                                  *)
LosesLead(s, e) ==
  LET d == ExecAll(s.dur[e.n], FirstOf(s.wal[e.n], e.k))
  IN d.v \in s.claim /\ d.v[2] = e.n /\ Ix(LastOf(d)) < LEnd(s, d.v)
Pending(s, e) ==
  (* Committed entries were cut off, and what came next was not the snapshot. *)
  IF "n" \in DOMAIN e /\ e.e \in {"app", "cr"} /\ s.inst[e.n] THEN
    IF e.e = "cr" THEN {<<"P06", "KF-3">>} ELSE {<<"P06", "committed_cut_off">>}
  ELSE {}

BadCrash(s, e) == IF LosesLead(s, e) THEN {<<"P03", "KF-1">>} ELSE {}

BadOf(s, e) ==
  CASE e.e = "vt" -> BadVt(s, e)
    [] e.e = "vx" -> BadVx(s, e)
    [] e.e = "vy" -> BadVy(s, e)
    [] e.e = "app" -> BadAppend(s, e)
    [] e.e = "tr" -> BadTrunc(s, e)
    [] e.e = "pg" -> BadPurge(s, e)
    [] e.e = "sc" -> BadSc(s, e)
    [] e.e = "ax" -> BadAx(s, e)
    [] e.e = "ay" -> BadAy(s, e)
    [] e.e = "ap" -> BadApply(s, e)
    [] e.e = "sb" -> BadSb(s, e)
    [] e.e = "si" -> BadSi(s, e)
    [] e.e = "sx" -> BadSx(s, e)
    [] e.e = "sy" -> BadSy(s, e)
    [] e.e = "tx" -> BadTx(s, e)
    [] e.e = "cx" -> BadSx(s, e)
    [] e.e = "cy" -> BadCy(s, e)
    [] e.e = "end" -> BadEnd(s, e)
    [] e.e = "pb" -> BadPb(s, e)
    [] e.e = "wr" -> BadWr(s, e)
    [] e.e = "rr" -> BadRr(s, e)
    [] e.e = "cm" -> BadCm(s, e)
    [] e.e = "ir" -> BadIr(s, e)
    [] e.e = "st" -> BadSt(s, e)
    [] e.e = "cr" -> BadCrash(s, e)
    [] e.e = "up" -> BadUp(s, e)
    [] e.e = "upfail" -> BadUpFail(s, e)
    [] e.e = "mt" -> BadMt(s, e)
    [] e.e = "kz" -> BadKz(s, e)
    [] e.e = "kg" -> BadKg(s, e)
    [] e.e = "kp" -> BadKp(s, e)
    [] e.e = "km" -> BadKm(s, e)
    [] e.e = "panic" -> {<<"P25", "no_panic">>}
    [] e.e = "abort" -> {<<"P25", "no_panic">>}
    [] e.e = "hang" -> {<<"P25", "no_livelock">>}
    [] e.e = "budget" -> {<<"P25", "no_livelock">>}
    [] OTHER -> {}
Bad(s, e) == BadOf(s, e) \cup Pending(s, e) \cup BadAfterFault(s, e) \cup BadAfterDown(s, e)

StepOf(s, e) ==
  CASE e.e = "vt" -> StepVt(s, e)
    [] e.e = "vz" -> StepVz(s, e)
    [] e.e = "app" -> StepAppend(s, e)
    [] e.e = "tr" -> StepTrunc(s, e)
    [] e.e = "pg" -> StepPurge(s, e)
    [] e.e = "fl" -> StepFlush(s, e)
    [] e.e = "sc" -> StepSc(s, e)
    [] e.e = "ax" -> StepAx(s, e)
    [] e.e = "ay" -> StepAy(s, e)
    [] e.e = "az" -> StepAz(s, e)
    [] e.e = "ap" -> StepApply(s, e)
    [] e.e = "sg" -> StepSg(s, e)
    [] e.e = "sb" -> StepSb(s, e)
    [] e.e = "si" -> StepSi(s, e)
    [] e.e = "sx" -> StepSx(s, e)
    [] e.e = "cx" -> StepSx(s, e)
    [] e.e = "sy" -> StepSy(s, e)
    [] e.e = "sz" -> StepSz(s, e)
    [] e.e = "tr_rx" -> StepTrRx(s, e)
    [] e.e = "tx" -> StepTx(s, e)
    [] e.e = "cy" -> StepCy(s, e)
    [] e.e = "ca" -> StepCa(s, e)
    [] e.e = "tg" -> StepTg(s, e)
    [] e.e = "wi" -> StepWi(s, e)
    [] e.e = "wr" -> StepWr(s, e)
    [] e.e = "ri" -> StepRi(s, e)
    [] e.e = "rr" -> StepRr(s, e)
    [] e.e = "ci" -> StepCi(s, e)
    [] e.e = "cm" -> StepCm(s, e)
    [] e.e = "ii" -> StepIi(s, e)
    [] e.e = "cr" -> StepCrash(s, e)
    [] e.e = "up" -> StepUp(s, e)
    [] e.e = "fault" -> StepFault(s, e)
    [] e.e = "mt" -> StepMt(s, e)
    [] e.e = "ki" -> StepKi(s, e)
    [] e.e = "rc" -> StepRc(s, e)
    [] e.e = "sd" -> [s EXCEPT !.sd[e.n] = 1]
    [] e.e = "down" -> [s EXCEPT !.sd[e.n] = 2]
    [] OTHER -> s
(* Whatever a node does of its own ends the calm after its boot. *)
Step(s, e) ==
  LET s1 == StepOf(s, e)
  IN IF e.e \in {"vt", "app", "tr", "ax", "ay", "si", "sc", "wi", "tr_rx", "sg"} /\ s1.calm[e.n] THEN [s1 EXCEPT !.calm[e.n] = FALSE] ELSE s1
=============================================================================
