------------------------------- MODULE Tables -------------------------------
(* Body files.  A line is a sequence of words: a number (identified by a      *)
(* positive integer; equal values have equal identities, Zero is 0.0), Bad    *)
(* (a word that is no number) or Mark (the comment sign).                     *)
(* Table: X Y Z Vx Vy Vz M [R ...] per line.  Zeno: head (count, dimension,   *)
(* time line) and then masses, positions, velocities.                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Zero, Bad, Mark, Missing
Number(w) == w # Bad /\ w # Mark /\ w # Missing
\* ------------------------------------------------------------ what the files say
FirstMark(line) == IF \E i \in 1 .. Len(line) : line[i] = Mark
                   THEN CHOOSE i \in 1 .. Len(line) : line[i] = Mark /\ \A j \in 1 .. i - 1 : line[j] # Mark
                   ELSE Len(line) + 1
Content(line) == SubSeq(line, 1, FirstMark(line) - 1)
NonEmpty(line) == Content(line) # <<>>
GoodLine(line) == LET c == Content(line) IN Len(c) >= 7 /\ (\A i \in 1 .. 7 : Number(c[i])) /\ (Len(c) > 7 => Number(c[8]))
BodyOf(line) == LET c == Content(line) IN SubSeq(c, 1, 7) \o <<IF Len(c) > 7 THEN c[8] ELSE Zero>>
TableOk(lines) == \A i \in 1 .. Len(lines) : NonEmpty(lines[i]) => GoodLine(lines[i])
TableBodies(lines) == LET full == SelectSeq(lines, NonEmpty) IN [i \in 1 .. Len(full) |-> BodyOf(full[i])]

Vector(line) == Len(line) = 3 /\ \A i \in 1 .. 3 : Number(line[i])
Scalar(line) == Len(line) = 1 /\ Number(line[1])
\* head.count and head.dim: a number or Missing; head.time: TRUE if there is a time line with something on it
ZenoOk(head, lines) == /\ head.count # Missing /\ head.dim = 3 /\ head.time
                       /\ Len(lines) >= 3 * head.count
                       /\ \A i \in 1 .. head.count : Scalar(lines[i]) /\ Vector(lines[head.count + i]) /\ Vector(lines[2 * head.count + i])
ZenoBodies(head, lines) == [i \in 1 .. head.count |-> lines[head.count + i] \o lines[2 * head.count + i] \o lines[i] \o <<Zero>>]

\* ------------------------------------------------------------ reading them line by line
VARIABLES file, pos, ph, got, m, x, st      \* ph: what the reader of a Zeno file is at
vars == <<file, pos, ph, got, m, x, st>>
Line == file.lines[pos]
Refuse == st' = "refused" /\ UNCHANGED <<file, pos, ph, got, m, x>>
ReadTable == /\ st = "reading" /\ file.kind = "table" /\ UNCHANGED <<file, ph, m, x>>
             /\ IF pos > Len(file.lines) THEN st' = "accepted" /\ UNCHANGED <<pos, got>>
                ELSE IF Content(Line) = <<>> THEN pos' = pos + 1 /\ UNCHANGED <<got, st>>
                ELSE IF Len(Content(Line)) < 7 \/ (\E i \in 1 .. 7 : ~Number(Content(Line)[i])) THEN st' = "refused" /\ UNCHANGED <<pos, got>>
                ELSE IF Len(Content(Line)) > 7 /\ ~Number(Content(Line)[8]) THEN st' = "refused" /\ UNCHANGED <<pos, got>>
                ELSE got' = Append(got, BodyOf(Line)) /\ pos' = pos + 1 /\ UNCHANGED st
ReadHead == /\ st = "reading" /\ file.kind = "zeno" /\ ph = "head" /\ UNCHANGED <<file, pos, got, m, x>>
            /\ IF file.head.count = Missing \/ file.head.dim # 3 \/ ~file.head.time THEN st' = "refused" /\ ph' = ph
               ELSE ph' = "mass" /\ st' = st
After(p) == CASE p = "mass" -> "pos" [] p = "pos" -> "vel" [] OTHER -> "done"
At(p) == CASE p = "mass" -> Len(m) [] p = "pos" -> Len(x) [] OTHER -> Len(got)
ReadZeno == /\ st = "reading" /\ file.kind = "zeno" /\ ph \in {"mass", "pos", "vel"} /\ UNCHANGED file
            /\ IF At(ph) = file.head.count THEN ph' = After(ph) /\ UNCHANGED <<pos, got, m, x, st>>
               ELSE IF pos > Len(file.lines) THEN st' = "refused" /\ UNCHANGED <<pos, ph, got, m, x>>
               ELSE IF (ph = "mass" /\ ~Scalar(Line)) \/ (ph # "mass" /\ ~Vector(Line)) THEN st' = "refused" /\ UNCHANGED <<pos, ph, got, m, x>>
               ELSE /\ pos' = pos + 1 /\ UNCHANGED <<ph, st>>
                    /\ m' = IF ph = "mass" THEN Append(m, Line[1]) ELSE m
                    /\ x' = IF ph = "pos" THEN Append(x, Line) ELSE x
                    /\ got' = IF ph = "vel" THEN Append(got, x[Len(got) + 1] \o Line \o <<m[Len(got) + 1], Zero>>) ELSE got
ZenoEnd == st = "reading" /\ file.kind = "zeno" /\ ph = "done" /\ st' = "accepted" /\ UNCHANGED <<file, pos, ph, got, m, x>>
Read == ReadTable \/ ReadHead \/ ReadZeno \/ ZenoEnd

Ok(f) == IF f.kind = "table" THEN TableOk(f.lines) ELSE ZenoOk(f.head, f.lines)
BodiesOf(f) == IF f.kind = "table" THEN TableBodies(f.lines) ELSE ZenoBodies(f.head, f.lines)
\* the two readings agree on every file
Decided == /\ st = "accepted" => Ok(file) /\ got = BodiesOf(file)
           /\ st = "refused" => ~Ok(file)
Finishes == <>(st # "reading")

\* ------------------------------------------------------------ types of initial states
Kind(name) == CASE name = "zeno" -> "zeno" [] name \in {"g1", "si", "adk"} -> "table" [] OTHER -> "unknown"
Unit(name) == CASE name = "si" -> "si" [] name = "adk" -> "adk" [] OTHER -> "g1"
=============================================================================
