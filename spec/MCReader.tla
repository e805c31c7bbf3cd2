------------------------------ MODULE MCReader ------------------------------
EXTENDS Reader, ReaderData
MCNext == \/ \E nm \in DOMAIN Streams : Load(nm)
          \/ CloseR \/ ReadNull
          \/ \E k \in 0 .. 5 : Seek(k)
          \/ \E d \in DOMAIN Dests : Read(d)
MCSpec == RInit /\ [][MCNext]_rvars
MCStreams == [x \in {"a", "b", "u", "missing"} |-> DStreams[x]]
MCDests == [x \in {"p", "r"} |-> DDests[x]]
=============================================================================
