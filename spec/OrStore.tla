------------------------------ MODULE OrStore ------------------------------
(* What a store has to do for openraft: a log, a vote, a committed position, *)
(* a state machine and its snapshot, over crashes at any moment. Bad(s, e):  *)
(* the rules that an observed step e of a store breaks in state s; Step(s,e):*)
(* the state after it. The stores in /repo/stores are judged by this.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<>>
Ix(l) == IF l = None THEN -1 ELSE l[3]
F(ok, r) == IF ok THEN {} ELSE {<<"P26", r>>}
Max2(a, b) == IF a > b THEN a ELSE b
NoMem == <<None, <<<<>>, <<>>>>>>
(* Entries of a sequence as a function of their index. *)
Fn(es) == [i \in {es[k].id[3] : k \in 1..Len(es)} |-> es[CHOOSE k \in 1..Len(es) : es[k].id[3] = i]]
Res(f, S) == [i \in DOMAIN f \cap S |-> f[i]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
LastOf(f, pu) == IF DOMAIN f = {} THEN pu ELSE f[MaxOf(DOMAIN f)].id

(* The data and the membership that the history up to an index makes. *)
Writes(h, n, k) == {i \in DOMAIN h : i <= n /\ h[i].k = "n" /\ h[i].x = k}
Kv(h, n) == LET K == {k \in 1..9 : Writes(h, n, k) # {}} IN {<<k, h[MaxOf(Writes(h, n, k))].y>> : k \in K}
Mem(h, n) == LET M == {i \in DOMAIN h : i <= n /\ h[i].k = "m"} IN IF M = {} THEN NoMem ELSE <<h[MaxOf(M)].id, h[MaxOf(M)].m>>
Range(q) == {q[i] : i \in 1..Len(q)}
Covers(h, l) == l = None \/ (Ix(l) \in DOMAIN h /\ h[Ix(l)].id = l)
(* What applying an entry returns. *)
Result(s, h, i) ==
  IF h[i].k # "n" THEN -1
  ELSE IF s.b.res = "val" THEN h[i].y
  ELSE LET W == Writes(h, i - 1, h[i].x) IN IF W = {} THEN -1 ELSE h[MaxOf(W)].y
(* A snapshot stands for the history up to its last log. *)
BadSnap(h, sn) ==
  F(Covers(h, sn.last), "snapshot_of_applied_log")
  \cup (IF Covers(h, sn.last)
        THEN F(sn.ap = sn.last /\ Range(sn.kv) = Kv(h, Ix(sn.last)), "snapshot_is_state_at_its_last_log")
             \cup F(sn.mem = Mem(h, Ix(sn.last)) /\ sn.dmem = sn.mem, "snapshot_membership")
        ELSE {})

(* log: entries by index; gone: entries that were purged, by index (a purge   *)
(* need not be durable); h: the history applied or installed; fly: the change *)
(* in progress; pus: values the purge position may have after a crash; gb:    *)
(* where the state machine was when the builder at hand was made; bld: when  *)
(* the builder that is at work was; busy: one is at work, and what it makes   *)
(* may show already;                                                          *)
(* dsn: the last log of the newest snapshot that must survive; cms: committed *)
(* positions that were saved.                                                 *)
InitState(b) == [b |-> b, up |-> FALSE, v |-> None, log |-> <<>>, gone |-> <<>>, pu |-> None, pus |-> {None}, ap |-> None, h |-> <<>>,
                 sn |-> <<>>, dsn |-> -1, cm |-> None, cms |-> {None}, fly |-> None, gb |-> -1, bld |-> -1, busy |-> FALSE, first |-> TRUE]

Empty == [i \in {} |-> <<>>]
Fun(f) == IF f = <<>> THEN Empty ELSE f

(* -- a store is opened ----------------------------------------------------- *)
Logs(s) ==
  LET l == Fun(s.log) IN
  IF s.fly = None THEN {l}
  ELSE CASE s.fly.o = "append" -> {Fn(SubSeq(s.fly.es, 1, j)) @@ l : j \in 0..Len(s.fly.es)}
         [] s.fly.o = "trunc" -> {Res(l, 0..(x - 1)) : x \in Ix(s.fly.at)..(Max2(Ix(LastOf(l, s.pu)), Ix(s.fly.at)) + 1)}
         [] OTHER -> {l}
FlyHist(s) == IF s.fly # None /\ s.fly.o \in {"apply", "install"} THEN Fn(s.fly.es) @@ Fun(s.h) ELSE Fun(s.h)
FlyTop(s) == IF s.fly # None /\ s.fly.o \in {"apply", "install"} THEN Ix(s.fly.es[Len(s.fly.es)].id) ELSE Ix(s.ap)
BadOpen(s, e) ==
  LET L == Fn(e.log)
      P == Ix(e.pu)
      live == {i \in DOMAIN L : i > P}
      h == FlyHist(s)
      flyv == IF s.fly # None /\ s.fly.o = "vote" THEN {s.fly.v} ELSE {}
      flypu == IF s.fly # None /\ s.fly.o = "purge" THEN {s.fly.at} ELSE {}
      flycm == IF s.fly # None /\ s.fly.o = "commit" THEN {s.fly.cm} ELSE {}
      known == Fun(s.gone)
  IN F(e.v \in {s.v} \cup flyv, "vote_is_durable")
     \cup F(e.pu \in s.pus \cup flypu, "purge_position_was_set")
     \cup F(\E C \in Logs(s) : LET A == C @@ known IN
              /\ live = {i \in DOMAIN A : i > P}
              /\ \A i \in DOMAIN L : i \in DOMAIN A /\ A[i] = L[i], "log_is_durable")
     \cup F(live = {} \/ live = (P + 1)..MaxOf(live), "log_has_no_hole")
     \cup F(e.last = LastOf(L, e.pu) \/ (live = {} /\ e.last = e.pu), "last_log_id")
     \cup F(e.cm \in s.cms \cup flycm, "committed_was_saved")
     \cup F(Covers(h, e.ap) /\ Ix(e.ap) <= FlyTop(s), "state_machine_was_applied")
     \cup F(Covers(h, e.ap) => e.mem = Mem(h, Ix(e.ap)) /\ (e.kv = <<>> \/ Range(e.kv[1]) = Kv(h, Ix(e.ap))), "state_machine_is_history")
     \cup F(s.b.disk = 1 => Ix(e.ap) >= Ix(s.ap), "state_machine_is_durable")
     \cup (IF e.sn = <<>> THEN F(s.dsn = -1, "snapshot_is_durable")
           ELSE BadSnap(h, e.sn[1]) \cup F(Ix(e.sn[1].last) >= s.dsn /\ Ix(e.sn[1].last) <= FlyTop(s), "snapshot_is_durable")
                \cup F(Ix(e.ap) >= Ix(e.sn[1].last), "state_machine_has_snapshot"))
     \cup F(P <= Max2(Ix(e.ap), IF e.sn = <<>> THEN -1 ELSE Ix(e.sn[1].last)), "purged_logs_are_in_state_machine")
StepOpen(s, e) ==
  LET h == FlyHist(s) IN
  [s EXCEPT !.up = TRUE, !.v = e.v, !.log = Fn(e.log), !.gone = Empty, !.pu = e.pu, !.pus = {e.pu}, !.ap = e.ap,
            !.h = Res(h, 0..Ix(e.ap)), !.sn = e.sn, !.dsn = IF e.sn = <<>> THEN -1 ELSE Ix(e.sn[1].last),
            !.cm = e.cm, !.cms = {e.cm}, !.fly = None, !.gb = -1, !.bld = -1, !.busy = FALSE, !.first = FALSE]

(* -- changes --------------------------------------------------------------- *)
BadDone(s, e) ==
  LET f == s.fly IN
  CASE f.o = "apply" ->
         LET h == Fn(f.es) @@ Fun(s.h) IN
         F(Len(e.res) = Len(f.es) /\ \A k \in 1..Len(f.es) : k <= Len(e.res) => e.res[k] = Result(s, h, f.es[k].id[3]), "apply_returns_result_of_each")
    [] OTHER -> {}
StepDone(s, e) ==
  LET f == s.fly
      t == [s EXCEPT !.fly = None]
      l == Fun(s.log)
  IN
  CASE f.o = "vote" -> [t EXCEPT !.v = f.v]
    [] f.o = "append" -> [t EXCEPT !.log = Fn(f.es) @@ l]
    [] f.o = "trunc" -> [t EXCEPT !.log = Res(l, 0..(Ix(f.at) - 1)), !.gone = Res(Fun(s.gone), 0..(Ix(f.at) - 1))]
    [] f.o = "commit" -> [t EXCEPT !.cm = f.cm, !.cms = @ \cup {f.cm}]
    [] f.o = "apply" -> [t EXCEPT !.h = Fn(f.es) @@ Fun(s.h), !.ap = f.es[Len(f.es)].id]
    [] f.o = "install" -> [t EXCEPT !.h = Fn(f.es) @@ Fun(s.h), !.ap = f.sn.last, !.sn = <<f.sn>>, !.dsn = Ix(f.sn.last)]
    [] f.o = "purge" -> [t EXCEPT !.pu = f.at, !.pus = @ \cup {f.at}, !.gone = Res(l, 0..Ix(f.at)) @@ Fun(@), !.log = Res(l, DOMAIN l \ (0..Ix(f.at)))]
    [] OTHER -> t

(* A snapshot is built while other things go on: it has what was applied when *)
(* its builder was made, and it does not take the place of a newer one.       *)
BadBuilt(s, e) == BadSnap(Fun(s.h), e.sn) \cup F(Ix(e.sn.last) >= s.bld /\ Ix(e.sn.last) <= Ix(s.ap), "snapshot_is_not_older_than_asked")
StepBuilt(s, e) == [s EXCEPT !.busy = FALSE, !.sn = IF s.sn = <<>> \/ Ix(e.sn.last) >= Ix(s.sn[1].last) THEN <<e.sn>> ELSE @]

(* -- questions ------------------------------------------------------------- *)
BadState(s, e) ==
  LET l == Fun(s.log) IN
  F(e.v = s.v, "reads_vote")
  \cup F(Fn(e.log) = l /\ Len(e.log) = Cardinality(DOMAIN l), "reads_log")
  \cup F(e.pu = s.pu /\ (e.last = LastOf(l, s.pu) \/ (Ix(LastOf(l, s.pu)) <= Ix(s.pu) /\ e.last = s.pu)), "reads_log_state")
  \cup F(e.cm \in {s.cm, None}, "reads_committed")
  \cup F(e.ap = s.ap /\ e.mem = Mem(Fun(s.h), Ix(s.ap)) /\ (e.kv = <<>> \/ Range(e.kv[1]) = Kv(Fun(s.h), Ix(s.ap))), "reads_state_machine")
  \cup F((s.sn = <<>> /\ e.sn = <<>>) \/ (s.sn # <<>> /\ e.sn # <<>> /\ Ix(e.sn[1].last) = Ix(s.sn[1].last))
       \/ (s.busy /\ e.sn # <<>> /\ (s.sn = <<>> \/ Ix(e.sn[1].last) > Ix(s.sn[1].last)) /\ Ix(e.sn[1].last) \in s.bld..Ix(s.ap)), "reads_latest_snapshot")
  \cup (IF e.sn = <<>> THEN {} ELSE BadSnap(Fun(s.h), e.sn[1]))
BadRead(s, e) ==
  LET l == Fun(s.log)
      W == {i \in DOMAIN l : e.a <= i /\ i < e.b}
  IN F(Len(e.es) = Cardinality(W) /\ \A k \in 1..Len(e.es) : e.es[k].id[3] \in W /\ e.es[k] = l[e.es[k].id[3]]
       /\ (k > 1 => e.es[k].id[3] > e.es[k - 1].id[3]), "reads_entries_of_range")

Bad(s, e) ==
  CASE e.e = "st" -> BadOpen(s, e)
    [] e.e = "d" -> BadDone(s, e)
    [] e.e = "bd" -> BadBuilt(s, e)
    [] e.e = "rs" -> BadState(s, e)
    [] e.e = "rl" -> BadRead(s, e)
    [] e.e = "odd" -> F(FALSE, "log_is_readable")
    [] e.e = "panic" -> F(FALSE, "no_panic")
    [] e.e = "hung" -> F(FALSE, "comes_to_an_end")
    [] OTHER -> {}
Step(s, e) ==
  CASE e.e = "st" -> StepOpen(s, e)
    [] e.e = "b" -> [s EXCEPT !.fly = e]
    [] e.e = "d" -> StepDone(s, e)
    [] e.e = "bb" -> [s EXCEPT !.bld = s.gb, !.busy = TRUE]
    [] e.e = "bd" -> StepBuilt(s, e)
    [] e.e = "gb" -> [s EXCEPT !.gb = Ix(s.ap)]
    [] e.e = "rs" -> [s EXCEPT !.sn = e.sn]
    [] e.e \in {"crash", "close"} -> [s EXCEPT !.up = FALSE]
    [] OTHER -> s
=============================================================================
