------------------------------ MODULE Tableaux ------------------------------
(***************************************************************************)
(* The one-step methods as published.  A number is <<n, d, m, e>>, meaning *)
(* n/d + (m/e) sqrt(15), in lowest terms.  A method is [a, b, other, emb]: *)
(* stage matrix, weights of the new state, weights of the embedded second  *)
(* solution (error estimate: difference of the two), embedded or not.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN x ELSE GCD(y, x % y)
Abs(x) == IF x < 0 THEN -x ELSE x
Q(n, d) == LET g == GCD(Abs(n), d) IN <<n \div g, d \div g, 0, 1>>
Z == <<0, 1, 0, 1>>
I(n) == <<n, 1, 0, 1>>
\* rows are written without trailing zeros
Pad(row, s) == [j \in 1 .. s |-> IF j <= Len(row) THEN row[j] ELSE Z]
Mat(rows) == [i \in 1 .. Len(rows) |-> Pad(rows[i], Len(rows))]
M(rows, b, other, emb) == [a |-> Mat(rows), b |-> Pad(b, Len(rows)), other |-> Pad(other, Len(rows)), emb |-> emb]

Euler == M(<< <<>> >>, <<I(1)>>, <<>>, FALSE)
Midpoint == M(<< <<>>, <<Q(1, 2)>> >>, <<Z, I(1)>>, <<>>, FALSE)
\* first step of Stetter's midpoint: u' = y + h f(y + h/2 f(y)), v' = y + h/2 (f(y) + f(u')), result (u' + v')/2
Stetter == M(<< <<>>, <<Q(1, 2)>>, <<Z, I(1)>> >>, <<Q(1, 4), Q(1, 2), Q(1, 4)>>, <<>>, FALSE)
RK4 == M(<< <<>>, <<Q(1, 2)>>, <<Z, Q(1, 2)>>, <<Z, Z, I(1)>> >>, <<Q(1, 6), Q(1, 3), Q(1, 3), Q(1, 6)>>, <<>>, FALSE)
\* Euler predictor, then r + 1 evaluations of the trapezoidal rule
Trapeze(r) == LET s == r + 2
                  row(i) == IF i = 1 THEN <<>> ELSE IF i = 2 THEN <<I(1)>>
                            ELSE [j \in 1 .. i - 1 |-> IF j = 1 \/ j = i - 1 THEN Q(1, 2) ELSE Z]
              IN M([i \in 1 .. s |-> row(i)], [j \in 1 .. s |-> IF j = 1 \/ j = s THEN Q(1, 2) ELSE Z], <<>>, FALSE)
RKCK == M(<< <<>>, <<Q(1,5)>>, <<Q(3,40), Q(9,40)>>, <<Q(3,10), Q(-9,10), Q(6,5)>>,
             <<Q(-11,54), Q(5,2), Q(-70,27), Q(35,27)>>,
             <<Q(1631,55296), Q(175,512), Q(575,13824), Q(44275,110592), Q(253,4096)>> >>,
          <<Q(37,378), Z, Q(250,621), Q(125,594), Z, Q(512,1771)>>,
          <<Q(2825,27648), Z, Q(18575,48384), Q(13525,55296), Q(277,14336), Q(1,4)>>, TRUE)
RKDP == M(<< <<>>, <<Q(1,5)>>, <<Q(3,40), Q(9,40)>>, <<Q(44,45), Q(-56,15), Q(32,9)>>,
             <<Q(19372,6561), Q(-25360,2187), Q(64448,6561), Q(-212,729)>>,
             <<Q(9017,3168), Q(-355,33), Q(46732,5247), Q(49,176), Q(-5103,18656)>>,
             <<Q(35,384), Z, Q(500,1113), Q(125,192), Q(-2187,6784), Q(11,84)>> >>,
          <<Q(35,384), Z, Q(500,1113), Q(125,192), Q(-2187,6784), Q(11,84), Z>>,
          <<Q(5179,57600), Z, Q(7571,16695), Q(393,640), Q(-92097,339200), Q(187,2100), Q(1,40)>>, TRUE)
DVERK == M(<< <<>>, <<Q(1,6)>>, <<Q(4,75), Q(16,75)>>, <<Q(5,6), Q(-8,3), Q(5,2)>>,
              <<Q(-165,64), Q(55,6), Q(-425,64), Q(85,96)>>,
              <<Q(12,5), I(-8), Q(4015,612), Q(-11,36), Q(88,255)>>,
              <<Q(-8263,15000), Q(124,75), Q(-643,680), Q(-81,250), Q(2484,10625)>>,
              <<Q(3501,1720), Q(-300,43), Q(297275,52632), Q(-319,2322), Q(24068,84065), Z, Q(3850,26703)>> >>,
           <<Q(13,160), Z, Q(2375,5984), Q(5,16), Q(12,85), Q(3,44)>>,
           <<Q(3,40), Z, Q(875,2244), Q(23,72), Q(264,1955), Z, Q(125,11592), Q(43,616)>>, TRUE)
RKF == M(<< <<>>, <<Q(2,27)>>, <<Q(1,36), Q(1,12)>>, <<Q(1,24), Z, Q(1,8)>>, <<Q(5,12), Z, Q(-25,16), Q(25,16)>>,
            <<Q(1,20), Z, Z, Q(1,4), Q(1,5)>>, <<Q(-25,108), Z, Z, Q(125,108), Q(-65,27), Q(125,54)>>,
            <<Q(31,300), Z, Z, Z, Q(61,225), Q(-2,9), Q(13,900)>>,
            <<I(2), Z, Z, Q(-53,6), Q(704,45), Q(-107,9), Q(67,90), I(3)>>,
            <<Q(-91,108), Z, Z, Q(23,108), Q(-976,135), Q(311,54), Q(-19,60), Q(17,6), Q(-1,12)>>,
            <<Q(2383,4100), Z, Z, Q(-341,164), Q(4496,1025), Q(-301,82), Q(2133,4100), Q(45,82), Q(45,164), Q(18,41)>>,
            <<Q(3,205), Z, Z, Z, Z, Q(-6,41), Q(-3,205), Q(-3,41), Q(3,41), Q(6,41), Z>>,
            <<Q(-1777,4100), Z, Z, Q(-341,164), Q(4496,1025), Q(-289,82), Q(2193,4100), Q(51,82), Q(33,164), Q(12,41), Z, I(1)>> >>,
         <<Z, Z, Z, Z, Z, Q(34,105), Q(9,35), Q(9,35), Q(9,280), Q(9,280), Z, Q(41,840), Q(41,840)>>,
         <<Q(41,840), Z, Z, Z, Z, Q(34,105), Q(9,35), Q(9,35), Q(9,280), Q(9,280), Q(41,840)>>, TRUE)
S(n, d, m, e) == <<n, d, m, e>>
RKGL == M(<< <<Q(5,36), S(2,9,-1,15), S(5,36,-1,30)>>, <<S(5,36,1,24), Q(2,9), S(5,36,-1,24)>>, <<S(5,36,1,30), S(2,9,1,15), Q(5,36)>> >>,
          <<Q(5,18), Q(4,9), Q(5,18)>>, <<Q(-5,6), Q(8,3), Q(-5,6)>>, FALSE)
RKGLc == <<S(1,2,-1,10), Q(1,2), S(1,2,1,10)>>
RKLC == M(<< <<Q(1,6), Q(-1,3), Q(1,6)>>, <<Q(1,6), Q(5,12), Q(-1,12)>>, <<Q(1,6), Q(2,3), Q(1,6)>> >>,
          <<Q(1,6), Q(2,3), Q(1,6)>>, <<Q(-1,2), I(2), Q(-1,2)>>, TRUE)
RKLCc == <<Z, Q(1,2), I(1)>>
(* The implicit methods as iterations: a derivative at the start, one along it at each node, then r sweeps in which
   every stage uses the latest derivatives; stage numbers: 1, then 2 .. s+1, then sweep by sweep. *)
Unroll(m, c, r) ==
  LET s == Len(m.a)
      n == 1 + s + r * s
      at(sweep, i) == 1 + sweep * s + i
      row(k) == IF k = 1 THEN <<>>
                ELSE IF k <= s + 1 THEN <<c[k - 1]>>
                ELSE LET sweep == (k - 2) \div s
                         i == k - 1 - sweep * s
                         src(j) == IF j < i THEN at(sweep, j) ELSE at(sweep - 1, j)
                     IN [q \in 1 .. n |-> IF \E j \in 1 .. s : src(j) = q THEN m.a[i][CHOOSE j \in 1 .. s : src(j) = q] ELSE Z]
      w(x) == [q \in 1 .. n |-> IF q > n - s THEN x[q - (n - s)] ELSE Z]
  IN [a |-> Mat([k \in 1 .. n |-> row(k)]), b |-> w(m.b), other |-> w(m.other), emb |-> m.emb]
\* order documented for each method
Order(name) == CASE name = "euler" -> 1 [] name \in {"midpoint", "midpoint-st", "trapeze"} -> 2 [] name = "rk4" -> 4
                 [] name \in {"rkck", "rkdp", "rkdverk"} -> 5 [] name = "rkf" -> 7
                 [] name = "rkfeagin10" -> 10 [] name = "rkfeagin12" -> 12 [] name = "rkfeagin14" -> 14
                 [] name = "rkgl" -> 6 [] name = "rklc" -> 4
Method(name, r) == CASE name = "euler" -> Euler [] name = "midpoint" -> Midpoint [] name = "midpoint-st" -> Stetter [] name = "rk4" -> RK4
                     [] name = "trapeze" -> Trapeze(r) [] name = "rkck" -> RKCK [] name = "rkdp" -> RKDP [] name = "rkdverk" -> DVERK
                     [] name = "rkf" -> RKF [] name = "rkgl" -> Unroll(RKGL, RKGLc, r) [] name = "rklc" -> Unroll(RKLC, RKLCc, r)
Rational == {"euler", "midpoint", "midpoint-st", "rk4", "trapeze", "rkck", "rkdp", "rkdverk", "rkf", "rkgl", "rklc"}
\* Feagin's methods: number of stages and the factor of the error estimate (difference of the second and the last but one stage)
Stages(name) == CASE name = "rkfeagin10" -> 17 [] name = "rkfeagin12" -> 25 [] name = "rkfeagin14" -> 35
ErrFactor(name) == CASE name = "rkfeagin10" -> Q(1, 360) [] name = "rkfeagin12" -> Q(49, 640) [] name = "rkfeagin14" -> Q(1, 1000)
\* sums of numbers (only rational ones are needed)
Add(x, y) == Q(x[1] * (y[2] \div GCD(x[2], y[2])) + y[1] * (x[2] \div GCD(x[2], y[2])), (x[2] \div GCD(x[2], y[2])) * y[2])
Neg(x) == <<-x[1], x[2], -x[3], x[4]>>
Diff(b, o) == [i \in 1 .. Len(b) |-> Add(b[i], Neg(o[i]))]
=============================================================================
