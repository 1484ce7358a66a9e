----------------------------- MODULE CaseRunMC -----------------------------
EXTENDS CaseRun, FiniteSets, TLC, Json
CONSTANTS MaxFreq, MaxStop, MaxCmd
VARIABLES said,  \* everything said so far
          used   \* number of updates that were given commands
mvars == <<cvars, said, used>>
Cmds == {<<>>, <<<<"print", 2>>>>, <<<<"write", 3>>>>, <<<<"stopit", 0>>>>, <<<<"stopit", 4>>, <<"say", 1>>>>, <<<<"say", 1>>, <<"error", 0>>, <<"vis", 1>>>>}
Init ==
  /\ f \in [print : 1..MaxFreq, write : 1..MaxFreq, vis : {1, MaxFreq}, stopit : 0..MaxStop, stopupd : {0, 2, 4}]
  /\ ovr \in {{}, {"write_init"}, {"write_final", "vis_iter"}} /\ draws \in BOOLEAN
  /\ pc = "write_init" /\ it = 0 /\ upd = 0 /\ todo = <<>> /\ mesh = {} /\ state = {} /\ vis = {}
  /\ lmesh = -1 /\ lstate = -1 /\ new = -1 /\ old = -1 /\ said = <<>> /\ used = 0
DoPhase == Phase /\ said' = (IF Said(pc) = <<>> THEN said ELSE Append(said, <<Said(pc), it>>)) /\ UNCHANGED used
DoUpdate == \E c \in Cmds :
  /\ used < MaxCmd \/ c = <<>>
  /\ Update(c)
  /\ used' = used + (IF c = <<>> THEN 0 ELSE 1)
  /\ UNCHANGED said
DoCommand == Command /\ UNCHANGED <<said, used>>
DoRest == (Stop \/ Begin \/ Iterated) /\ UNCHANGED <<said, used>>
Next == DoPhase \/ DoUpdate \/ DoCommand \/ DoRest
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Times(what) == [i \in {j \in DOMAIN said : said[j][1] = what} |-> said[i][2]]
\* each report, data file and visualization is of a different iteration, in order
Increasing == \A i, j \in DOMAIN said : i < j /\ said[i][1] = said[j][1] => said[i][2] < said[j][2]
\* outputs happen at multiples of the frequencies, and every multiple of both is served
Frequencies == used = 0 => \A i \in DOMAIN said :
  CASE said[i][1] = <<"R">> -> said[i][2] % f.print = 0
    [] said[i][1] = <<"W">> -> said[i][2] % f.write = 0 /\ (said[i][2] = 1 \/ said[i][2] % f.print = 0)
    [] said[i][1] = <<"V">> -> said[i][2] % f.vis = 0 /\ (said[i][2] = 1 \/ said[i][2] % f.print = 0)
    [] OTHER -> TRUE
Served == (used = 0 /\ pc \in {"test", "end"}) => \A n \in 1..it :
  /\ ((n % f.print = 0 /\ n > 1) => \E i \in DOMAIN said : said[i] = <<<<"R">>, n>>)
  /\ ((n % f.print = 0 /\ n % f.write = 0) => n \in state)
  /\ ((n % f.print = 0 /\ n % f.vis = 0 /\ "vis_iter" \notin ovr /\ draws) => n \in vis)
Links == /\ mesh # {} => lmesh = Max(mesh)
         /\ state # {} => lstate = Max(state)
         /\ vis # {} => new = Max(vis)
         /\ state \subseteq mesh
\* at the end, the final data have been written; the condition was false before the last update
Final == pc = "end" => /\ Done
                       /\ "write_final" \notin ovr => it \in mesh /\ it \in state /\ lmesh = it /\ lstate = it
                       /\ draws => it \in vis
Says == pc = "end" => Cardinality({i \in DOMAIN said : said[i][1] = <<"F">>}) = 1 /\ Cardinality({i \in DOMAIN said : said[i][1] = <<"H">>}) = 1
Bound == it <= MaxStop + 2*MaxFreq
Terminates == <>(pc = "end")
OnceEnded == [][pc # "end"]_mvars
=============================================================================
