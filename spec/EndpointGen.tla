---------------------------- MODULE EndpointGen -----------------------------
(* Generation of test scripts from Endpoint: every transition between quiescent
   states is printed with one behaviour that leads to it.                    *)
EXTENDS Endpoint, Json, Naturals

MaxDepth == 64
Final_ == [hist EXCEPT ![Len(hist)].fl = Flags, ![Len(hist)].pk = Parked]
\* evaluated in every generated state
Emit ==
  \/ Len(hist) = 0
  \/ ~Quiescent
  \/ Burst # 0 /\ bst # Burst
  \/ PrintT("@@" \o ToJson(Final_))
EmitC == Emit'
=============================================================================
