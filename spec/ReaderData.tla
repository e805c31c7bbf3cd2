----------------------------- MODULE ReaderData -----------------------------
\* The streams the harness puts on disk (see harness/reader.cpp)
EXTENDS Naturals, Sequences, TLC
F(b, i) == [fid |-> b + i, step |-> ToString(b * 10 + 2 * i), time |-> ToString(b + 3 * i)]
Fs(b, k) == [i \in 1 .. k |-> F(b, i)]
DStreams ==
  [a |-> [n |-> 3, box |-> 7, run |-> 1, frames |-> Fs(100, 4), lastn |-> 3],   \* one frame per part
   b |-> [n |-> 5, box |-> 9, run |-> 2, frames |-> Fs(200, 3), lastn |-> 0],   \* one part
   c |-> [n |-> 3, box |-> 11, run |-> 3, frames |-> Fs(300, 5), lastn |-> 2],  \* two frames per part
   u |-> [n |-> 3, box |-> 2, run |-> 4, frames |-> Fs(400, 1), lastn |-> 0],   \* a single frame
   big |-> [n |-> 700, box |-> 3, run |-> 5, frames |-> Fs(500, 3), lastn |-> 1],
   missing |-> [n |-> 0, box |-> 0, run |-> 0, frames |-> <<>>, lastn |-> 0],
   nohdr |-> [n |-> 0, box |-> 0, run |-> 0, frames |-> <<>>, lastn |-> 0],
   bad |-> [n |-> 0, box |-> 0, run |-> 0, frames |-> <<>>, lastn |-> 0],
   nopart |-> [n |-> 0, box |-> 0, run |-> 0, frames |-> <<>>, lastn |-> 0]]
DDests == [p |-> 3, q |-> 3, r |-> 5, e |-> 0, g |-> 700]
=============================================================================
