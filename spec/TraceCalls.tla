----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Validation of recorded histories of calls by several threads.  A line   *)
(* of the trace is one history; an event is a call or a return (thread th, *)
(* text x, digest d of the whole outcome) or a change of the files.  The   *)
(* history begins with the answers each text got alone in a process of its *)
(* own ("alone").  It is one of Calls if every thread returns what it      *)
(* called and every answer is the one the text has.                        *)
(***************************************************************************)
EXTENDS Sequences, Naturals, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, busy, memo
vars == <<tr, l, busy, memo>>
Ev(k) == Trace[tr].ev[k]
None == 0
Init == /\ tr \in 1..Len(Trace) /\ l = 0
        /\ busy = [t \in 1..Trace[tr].threads |-> None]
        /\ memo = [x \in 1..Trace[tr].texts |-> ""]
Ok(e) == CASE e.e = "alone" -> memo[e.x] = ""
           [] e.e = "files" -> TRUE
           [] e.e = "call" -> busy[e.th] = None
           [] e.e = "ret" -> busy[e.th] = e.x /\ memo[e.x] = e.d
Next == /\ l < Len(Trace[tr].ev) /\ Ok(Ev(l + 1))
        /\ LET e == Ev(l + 1) IN
           /\ busy' = IF e.e = "call" THEN [busy EXCEPT ![e.th] = e.x] ELSE IF e.e = "ret" THEN [busy EXCEPT ![e.th] = None] ELSE busy
           /\ memo' = IF e.e = "alone" THEN [memo EXCEPT ![e.x] = e.d] ELSE memo
        /\ l' = l + 1 /\ UNCHANGED tr
Conforms == l < Len(Trace[tr].ev) => Ok(Ev(l + 1)) \/ (PrintT("MISMATCH " \o ToJson([trace |-> tr, event |-> l + 1, x |-> Ev(l + 1).x])) /\ FALSE)
Accepted == TLCGet("stats").distinct = FoldLeft(LAMBDA a, t : a + 1 + Len(t.ev), 0, Trace)
=============================================================================
