------------------------------ MODULE OrTrace ------------------------------
(* Recorded runs of the real code against the specification: every event is *)
(* taken as it was observed, and the rules it breaks are reported.           *)
(* A file holds many runs; each begins with a "begin" event.                 *)
EXTENDS OrSpec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, 0) /\ TLCSet(2, {})

VARIABLES i, s, bad
vars == <<i, s, bad>>

Init == i = 0 /\ s = InitState([nodes |-> <<1>>, seed |-> 0, smper |-> 0, keep |-> 0, lease |-> 0, emin |-> 0]) /\ bad = {}

(* Each rule is reported once per run, with the place where it broke. *)
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.e = "begin" THEN s' = InitState(e) /\ bad' = {} /\ PrintT(<<"RUN", e.prof, e.seed, i + 1>>)
     (* What a known finding has damaged is not looked at any further. *)
     ELSE IF bad \cap {<<"P06", "KF-3">>, <<"P03", "KF-1">>} # {} THEN UNCHANGED <<s, bad>>
     ELSE LET b == Bad(s, e) IN
          /\ s' = Step(s, e)
          /\ bad' = bad \cup b
          /\ \A x \in b \ bad : PrintT(<<"BAD", x[1], x[2], s.b.prof, s.b.seed, i + 1>>)
Spec == Init /\ [][Next]_vars
View == i
Done == i = Len(Trace) => TLCSet(1, i)
Finished == TLCGet(1) = Len(Trace) /\ PrintT(<<"DONE", TLCGet(1)>>)
=============================================================================
