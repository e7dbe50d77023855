---------------------------- MODULE PipelineRuns ----------------------------
(* Recorded runs of real pipelines: which of them are runs of Pipeline?  A record gives the scenario, the items every
   stage processed in order, and the stages whose errors the waiting one was told.                                  *)
EXTENDS Pipeline
CONSTANTS Recs            \* set of [id, sc, got, ret]
VARIABLE rec
allvars == << vars, rec >>
RInit == rec \in Recs /\ Init /\ sc.id = rec.sc
RNext == Next /\ UNCHANGED rec
RSpec == RInit /\ [][RNext]_allvars
Follows == \A s \in St : Prefix(got[s], rec.got[s])
Matches == (ret # Running /\ ret = rec.ret /\ got = rec.got) => PrintT("@R " \o ToJson([id |-> rec.id]))
=============================================================================
