-------------------------------- MODULE MCVec --------------------------------
EXTENDS Vec, TLC, Json
CONSTANTS Depth, NBuf
VARIABLES n, o
Bufs == 1 .. NBuf
Cr == NBuf + 1
Co == {-1, 0, 2}
All == Calls(Bufs, Cr, Co) \cup {Call("force", d, s, 0, <<>>, <<>>, 0) : d \in Bufs, s \in Bufs \cup {0, 99}}
Init == /\ args = <<>> /\ n = 0 /\ o = 0
        /\ buf = [b \in Bufs \cup {Cr} |-> IF b = Cr THEN [i \in 1 .. Base |-> 0] ELSE [i \in 1 .. Base |-> IF i = b THEN 1 ELSE 0]]
Next == n < Depth /\ n' = n + 1 /\ o' = o /\ \E x \in All : Do(x)
Spec == Init /\ [][Next]_<<vars, n, o>>
\* the correction stays zero, every buffer has the full dimension
Shape == /\ \A b \in Bufs \cup {Cr} : Len(buf[b]) = Dim
         /\ buf[Cr] = Zero
\* the list operations agree with the single ones; a destination equal to an operand gives the same as a fresh one
Laws == \A d \in Bufs, s \in Bufs : \A c \in Co, e \in Co :
          /\ Plus(Plus(buf[d], buf[s], c), buf[s], e) = Sum(buf[d], <<s, s>>, <<c, e>>, 1)
          /\ Plus(buf[d], buf[d], c) = Scaled(buf[d], 1 + c)
          /\ Plus(buf[d], buf[s], 0) = buf[d]
\* at most one buffer changes (apart from the dimension)
OneDest == [][\E d \in Bufs : \A b \in (Bufs \cup {Cr}) \ {d} : buf'[b] = Pad(buf[b], Len(buf'[b]))]_vars
\* generation: every call once
GInit == args = <<>> /\ n = 0 /\ buf = [b \in {1} |-> <<1, 0, 0, 0, 0>>] /\ o \in Calls(Bufs, Cr, Co \cup {1})
GSpec == GInit /\ [][FALSE]_<<vars, n, o>>
GPrint == PrintT("@@" \o ToJson(o))
=============================================================================
