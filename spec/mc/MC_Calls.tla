------------------------------ MODULE MC_Calls ------------------------------
(* All histories of calls of two threads up to a length, files coming and    *)
(* going; the texts end in every mode of the lexer and the parser, or are    *)
(* alike in length, beginning or end.                                        *)
EXTENDS Scene, TLC, Json
CONSTANT Depth
W == "WorldBegin "
T == <<"",
       "WorldBegin WorldEnd",
       "Translate 1 2 3\nWorldBegin\n Shape \"s\" \"float r\" [1 2.5] AttributeBegin Material \"m\" AttributeEnd\nWorldEnd",
       "Translate 1 2 4\nWorldBegin\n Shape \"t\" \"float r\" [1 2.5] AttributeBegin Material \"n\" AttributeEnd\nWorldEnd",
       W \o "Material \"abc",
       W \o "Material \"abc\\",
       W \o "Shape \"s\" \"integer n\" 12e1e1 WorldEnd",
       W \o "Shape \"s\" \"float v\" [1 2",
       W \o "AttributeBegin TransformBegin WorldEnd",
       "# a comment WorldBegin",
       "Include \"f.pbrt\" WorldBegin Include \"f.pbrt\" Shape \"s\" \"spectrum c\" \"f.spd\" \"texture t\" \"f.spd\" WorldEnd",
       "\n\n\n  Identity\r\nWorldBegin\r\nWorldEnd WorldEnd",
       W \o "Foo WorldEnd",
       W \o "Material \"m\" WorldEnd \"">>
Answers == [i \in 1..Len(T) |-> LET o == Outcome(FeedAll(SInit, Explode(T[i]))) IN [ok |-> o.ok, n |-> Len(o.nodes)]]
Ans(i) == Answers[i]
VARIABLES busy, files, memo, hist
C == INSTANCE Calls WITH Threads <- {1, 2}, Texts <- 1..Len(T), Answer <- Ans
Init == C!CInit /\ hist = <<>>
Add(e) == hist' = Append(hist, e)
\* the second thread only ever calls while the first one is at work
Next == /\ Len(hist) < Depth
        /\ \/ C!Toggle /\ Add([e |-> "files", th |-> 0, x |-> 0])
           \/ \E x \in 1..Len(T) : C!Call(1, x) /\ Add([e |-> "call", th |-> 1, x |-> x])
           \/ \E x \in 1..Len(T) : busy[1] # C!Idle /\ C!Call(2, x) /\ Add([e |-> "call", th |-> 2, x |-> x])
           \/ \E t \in {1, 2} : C!Return(t) /\ (busy[2] # C!Idle => t = 2) /\ Add([e |-> "ret", th |-> t, x |-> busy[t]])
Pure == C!Pure
\* answers are what the scene specification says, never more than one
Faithful == \A i \in 1..Len(T) : memo[i] \subseteq {Answers[i]}
\* complete histories: nobody is busy and nothing more can happen
Done == Len(hist) = Depth \/ Len(hist) = Depth - 1
Quiet == \A t \in {1, 2} : busy[t] = C!Idle
EmitHist == Done /\ Quiet => PrintT("CASE " \o ToJson([h |-> hist, ok |-> [i \in 1..Len(T) |-> Answers[i].ok]]))
Given == PrintT("TEXTS " \o ToJson(T))
QuickDepth == 6
DeepDepth == 8
ASSUME Given
=============================================================================
