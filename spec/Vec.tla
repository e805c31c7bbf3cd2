-------------------------------- MODULE Vec --------------------------------
(* The vector arithmetic every engine provides, and the derivative computation as an opaque function.
   A buffer is a linear combination of known vectors: the patterns 1..4, the vector of ones, and one vector for each
   argument for which the derivative was computed.  Combinations are sequences of integers. *)
EXTENDS Integers, Sequences
VARIABLES buf,      \* buffer number -> combination
          args      \* the arguments of the derivative computations so far, in order of first use
vars == <<buf, args>>
Base == 5
Dim == Base + Len(args)
Unit(k) == [i \in 1 .. Dim |-> IF i = k THEN 1 ELSE 0]
Zero == [i \in 1 .. Dim |-> 0]
Pad(v, n) == [i \in 1 .. n |-> IF i <= Len(v) THEN v[i] ELSE 0]
Scaled(v, c) == [i \in 1 .. Len(v) |-> c * v[i]]
Plus(u, v, c) == [i \in 1 .. Len(u) |-> u[i] + c * v[i]]
Ok(b) == b \in DOMAIN buf                       \* 0: no buffer, 99: a buffer of another engine
RECURSIVE Sum(_, _, _, _)
Sum(base, list, co, k) == IF k > Len(co) THEN base ELSE Sum(Plus(base, buf[list[k]], co[k]), list, co, k + 1)
\* missing coefficients (none given) and more coefficients than buffers are refused
Lists(o) == Len(o.co) > 0 /\ Len(o.co) <= Len(o.list)
Put(d, v) == buf' = [buf EXCEPT ![d] = v] /\ UNCHANGED args
Nothing == UNCHANGED vars

Copy(o)    == IF Ok(o.d) /\ Ok(o.s) THEN Put(o.d, buf[o.s]) ELSE Nothing
Fill(o)    == IF Ok(o.d) THEN Put(o.d, Scaled(Unit(Base), o.c)) ELSE Nothing
Write(o)   == IF Ok(o.d) THEN Put(o.d, Unit(o.c)) ELSE Nothing
FmaddI(o)  == IF Ok(o.d) /\ Ok(o.s) THEN Put(o.d, Plus(buf[o.d], buf[o.s], o.c)) ELSE Nothing
Fmadd(o)   == IF Ok(o.d) /\ Ok(o.s) /\ Ok(o.t) THEN Put(o.d, Plus(buf[o.s], buf[o.t], o.c)) ELSE Nothing
FmaddnI(o) == IF Ok(o.d) /\ Lists(o) THEN Put(o.d, Sum(buf[o.d], o.list, o.co, 1)) ELSE Nothing
Fmaddn(o)  == IF Ok(o.d) /\ Lists(o) THEN Put(o.d, Sum(IF o.s = 0 THEN Zero ELSE buf[o.s], o.list, o.co, 1)) ELSE Nothing
\* compensated summation: the correction buffer o.s starts as zero and is zero again when no rounding occurs
Corr(o)    == IF Ok(o.d) /\ Ok(o.s) /\ Lists(o) THEN buf[o.s] = Zero /\ Put(o.d, Sum(buf[o.d], o.list, o.co, 1)) ELSE Nothing
Norm(o)    == Nothing
\* the derivative of a state depends on that state only
Known(v) == {k \in 1 .. Len(args) : Pad(args[k], Dim) = v}
Force(o)   == IF ~(Ok(o.d) /\ Ok(o.s)) THEN Nothing
              ELSE IF Known(buf[o.s]) # {} THEN Put(o.d, Unit(Base + CHOOSE k \in Known(buf[o.s]) : TRUE))
              ELSE /\ args' = Append(args, buf[o.s])
                   /\ buf' = [b \in DOMAIN buf |-> IF b = o.d THEN [i \in 1 .. Dim + 1 |-> IF i = Dim + 1 THEN 1 ELSE 0] ELSE Pad(buf[b], Dim + 1)]
Do(o) == CASE o.op = "copy" -> Copy(o) [] o.op = "fill" -> Fill(o) [] o.op = "write" -> Write(o) [] o.op = "fmaddi" -> FmaddI(o)
           [] o.op = "fmadd" -> Fmadd(o) [] o.op = "fmaddni" -> FmaddnI(o) [] o.op = "fmaddn" -> Fmaddn(o) [] o.op = "corr" -> Corr(o)
           [] o.op = "max" -> Norm(o) [] o.op \in {"read", "clamp"} -> Nothing      \* only with a missing or foreign buffer
           [] o.op = "force" -> Force(o)

(* All calls over the buffers Bufs (the last one reserved for corrections), including malformed ones. A destination may
   also be a single operand, but not a member of a list operand. *)
Call(op, d, s, t, list, co, c) == [op |-> op, d |-> d, s |-> s, t |-> t, list |-> list, co |-> co, c |-> c]
Calls(Bufs, corr, Co) ==
  LET any == Bufs \cup {0, 99}
      lists(d) == {<<b>> : b \in Bufs \ {d}} \cup {<<b, e>> : b \in Bufs \ {d}, e \in Bufs \ {d}}
      cos == {<<>>} \cup {<<a>> : a \in Co} \cup {<<a, b>> : a \in Co, b \in Co}
      long == {<<a, b, a>> : a \in {1}, b \in {2}}        \* more coefficients than buffers
  IN {Call("copy", d, s, 0, <<>>, <<>>, 0) : d \in any, s \in any}
     \cup {Call("fill", d, 0, 0, <<>>, <<>>, c) : d \in any, c \in Co}
     \cup {Call("write", d, 0, 0, <<>>, <<>>, c) : d \in any, c \in 1 .. 4}
     \cup {Call(op, d, 0, 0, <<>>, <<>>, 1) : op \in {"read", "clamp"}, d \in {0, 99}}
     \cup {Call("force", d, s, 0, <<>>, <<>>, 0) : d \in {0, 99}, s \in any} \cup {Call("force", d, s, 0, <<>>, <<>>, 0) : d \in any, s \in {0, 99}}
     \cup {Call("fmaddi", d, s, 0, <<>>, <<>>, c) : d \in any, s \in any, c \in Co}
     \cup {Call("fmadd", d, s, t, <<>>, <<>>, c) : d \in any, s \in any, t \in any, c \in Co}
     \cup {Call("max", d, 0, 0, <<>>, <<>>, 0) : d \in any}
     \cup UNION {{Call("fmaddni", d, 0, 0, li, co, 0) : li \in lists(d), co \in cos \cup long} : d \in any}
     \cup UNION {{Call("fmaddn", d, s, 0, li, co, 0) : s \in Bufs \cup {0}, li \in lists(d), co \in cos \cup long} : d \in any}
     \cup UNION {{Call("corr", d, s, 0, li, co, 0) : s \in {corr, 0, 99}, li \in lists(d), co \in cos \cup long} : d \in any}
=============================================================================
