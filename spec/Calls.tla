-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* The parser as a service: threads call it with texts and it answers, the *)
(* files that scenes name appear and disappear meanwhile.  The answer is a *)
(* function of the text: nothing of the past, of other calls under way or  *)
(* of the file system enters it.                                           *)
(***************************************************************************)
EXTENDS Sequences, Naturals
CONSTANTS Threads, Texts,
          Answer(_)        \* the outcome the scene specification demands of a text
VARIABLES busy,            \* thread -> text being parsed, or Idle
          files,           \* do the files named in scenes exist?
          memo             \* answers given so far: text -> set of answers
callVars == <<busy, files, memo>>
Idle == 0
CInit == busy = [t \in Threads |-> Idle] /\ files = FALSE /\ memo = [x \in Texts |-> {}]
Call(t, x) == busy[t] = Idle /\ busy' = [busy EXCEPT ![t] = x] /\ UNCHANGED <<files, memo>>
Return(t) == /\ busy[t] # Idle
             /\ memo' = [memo EXCEPT ![busy[t]] = @ \union {Answer(busy[t])}]
             /\ busy' = [busy EXCEPT ![t] = Idle] /\ UNCHANGED files
Toggle == files' = ~files /\ UNCHANGED <<busy, memo>>
CNext == Toggle \/ \E t \in Threads : Return(t) \/ \E x \in Texts : Call(t, x)
\* one answer per text
Pure == \A x \in Texts : \A a, b \in memo[x] : a = b
=============================================================================
