-------------------------------- MODULE Local --------------------------------
(* Bundle files named after the range of entries in them: which ones a fetch from a position delivers, for every set of
   files, position and limit (Mode "sets"), and histories of files being added and of fetches that are finished or given
   up (Mode "runs").                                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxEnd, MaxFiles, Limits, Fixed, Start, Fetches,
          Sloppy       \* "no", or a mistake: "gap" (the run goes on after a gap), "resume" (a fetch given up counts as done)
VARIABLES disk, seen, pos, phase, chain, done, n, act
vars == << disk, seen, pos, phase, chain, done, n, act >>
Ranges == { <<a, b>> \in (0..MaxEnd) \X (0..MaxEnd) : a <= b }
Unique(fs) == \A f, g \in fs : f[1] = g[1] => f = g
(* the run of files from p on *)
RECURSIVE Chain(_, _)
Chain(fs, p) == LET next == { f \in fs : f[1] = p \/ (Sloppy = "gap" /\ f[1] > p /\ \A g \in fs : g[1] >= p => g[1] >= f[1]) } IN
                IF next # {} THEN LET f == CHOOSE f \in next : TRUE IN << f >> \o Chain(fs, f[2] + 1) ELSE <<>>
RECURSIVE Upto(_, _, _)
Upto(c, p, lim) == IF Len(c) > 1 /\ c[Len(c)][2] - p + 1 > lim THEN Upto(SubSeq(c, 1, Len(c) - 1), p, lim) ELSE c
Target(c, p) == IF c = <<>> THEN p ELSE c[Len(c)][2] + 1
(* the same without walking along *)
Covers(fs, p, t) == \E s \in SUBSET fs : /\ \A i \in p..(t - 1) : Cardinality({ f \in s : f[1] <= i /\ i <= f[2] }) = 1
                                         /\ \A f \in s : f[1] >= p /\ f[2] < t
Allowed(fs, p, t, lim) == t > p /\ Covers(fs, p, t) /\ (t - p <= lim \/ \E f \in fs : f[1] = p /\ f[2] = t - 1)
Best(fs, p, lim) == LET ts == { t \in 0..(MaxEnd + 1) : Allowed(fs, p, t, lim) } IN IF ts = {} THEN p ELSE CHOOSE t \in ts : \A u \in ts : u <= t
Did(w, a) == act' = [what |-> w, file |-> a, chain |-> chain']
Init == /\ disk \in IF Mode = "sets" THEN { fs \in SUBSET Ranges : Cardinality(fs) <= MaxFiles /\ Unique(fs) } ELSE { Start }
        /\ seen = disk /\ pos = 0 /\ phase = "idle" /\ chain = <<>> /\ done = {} /\ n = Fetches /\ act = [what |-> "init", file |-> <<0, 0>>, chain |-> <<>>]
Add == /\ \E f \in Fixed \ disk : disk' = disk \cup {f} /\ UNCHANGED << seen, pos, phase, chain, done, n >> /\ Did("add", f)
Open == /\ n > 0 /\ n' = n - 1 /\ seen' = disk /\ phase' = "open" /\ chain' = <<>> /\ Did("open", <<0, 0>>) /\ UNCHANGED << disk, pos, done >>
Fetch(lim) == /\ phase = "open" /\ phase' = "fetch" /\ chain' = Upto(Chain(seen, pos), pos, lim) /\ Did("fetch", << pos, lim >>)
              /\ UNCHANGED << disk, seen, pos, done, n >>
Drain == /\ phase = "fetch" /\ phase' = "idle" /\ pos' = Target(chain, pos) /\ done' = done \cup { chain[i] : i \in 1..Len(chain) }
         /\ UNCHANGED << disk, seen, chain, n >> /\ Did("drain", <<0, 0>>)
Part == /\ phase = "fetch" /\ phase' = "part" /\ UNCHANGED << disk, seen, pos, chain, done, n >> /\ Did("part", <<0, 0>>)
Quit == /\ phase \in {"fetch", "part"} /\ phase' = "idle" /\ pos' = (IF Sloppy = "resume" THEN Target(chain, pos) ELSE pos) /\ UNCHANGED << disk, seen, chain, done, n >> /\ Did("stop", <<0, 0>>)
Next == Mode = "runs" /\ (Add \/ Open \/ Drain \/ Part \/ Quit \/ \E lim \in Limits : Fetch(lim))
Spec == Init /\ [][Next]_vars
Agrees == Mode = "sets" => \A p \in 0..(MaxEnd + 1), lim \in Limits : Target(Upto(Chain(disk, p), p, lim), p) = Best(disk, p, lim)
(* what was delivered is everything below the position, once *)
Whole == Mode = "runs" => /\ \A i \in 0..(pos - 1) : Cardinality({ f \in done : f[1] <= i /\ i <= f[2] }) = 1
                          /\ \A f \in done : f[2] < pos
Set(s) == [i \in 1..Cardinality(s) |-> CHOOSE x \in s : Cardinality({ y \in s : y[1] < x[1] }) = i - 1]
Emit == PrintT("@S " \o ToJson([files |-> Set(disk), want |-> [p \in 1..(MaxEnd + 2) |-> [l \in 1..Cardinality(Limits) |->
          LET lim == CHOOSE x \in Limits : Cardinality({ y \in Limits : y < x }) = l - 1 IN
          [pos |-> p - 1, lim |-> lim, chain |-> Upto(Chain(disk, p - 1), p - 1, lim)]]]]))
View == << disk, seen, pos, phase, chain, done, n >>
EmitEdge == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> << disk', seen', pos', phase', chain', done', n' >>]))
=============================================================================
