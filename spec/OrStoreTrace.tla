---------------------------- MODULE OrStoreTrace ----------------------------
(* Recorded runs of the stores against OrStore: see OrTrace.                  *)
EXTENDS OrStore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, 0)

VARIABLES i, s, bad
vars == <<i, s, bad>>

Init == i = 0 /\ s = InitState([prof |-> "", seed |-> 0, res |-> "val", disk |-> 0]) /\ bad = {}
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.e = "begin" THEN s' = InitState(e) /\ bad' = {} /\ PrintT(<<"RUN", e.prof, e.seed, i + 1>>)
     ELSE IF bad # {} THEN UNCHANGED <<s, bad>>
     ELSE LET b == Bad(s, e) IN
          /\ s' = Step(s, e)
          /\ bad' = bad \cup b
          /\ \A x \in b \ bad : PrintT(<<"BAD", x[1], x[2], s.b.prof, s.b.seed, i + 1>>)
Spec == Init /\ [][Next]_vars
View == i
Done == i = Len(Trace) => TLCSet(1, i)
Finished == TLCGet(1) = Len(Trace) /\ PrintT(<<"DONE", TLCGet(1)>>)
=============================================================================
