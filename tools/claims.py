TT="TLA+ trace specification (spec/BoundsTrace.tla) checked by TLC over executions recorded from the real planner"
TN="Every recorded step of the real code over generated models, strategies, representations and option combinations is checked against the specification's transition relation; assurance is over the runs explored (seeded), trusting the harness's logging and TLC."
ST="TLA+ state machine of the search strategies (spec/Search.tla), model-checked closed over sampled small MDPs (spec/SearchMC.tla); recorded executions of the real planner checked against it by TLC (spec/SearchTrace.tla)"
PT="TLA+ specification of policies from memory to file to executor (spec/PolicyTrace.tla); recorded executions of the real planner, writer, reader and executor checked against it by TLC"
LT="TLA+ state machine of the model-file language, full and fast parser (spec/Cassandra.tla); the tables the real parsers build from generated files checked against it by TLC (spec/ParseTrace.tla)"
CT="TLA+ state machine of how settings come about (spec/Config.tla), model-checked closed (spec/ConfigMC.tla); every invocation of the closed model and generated ones replayed on the real command line and checked by TLC (spec/ConfigTrace.tla)"
FT="TLA+ state machine of the front end's run (spec/Lifecycle.tla), model-checked closed over every schedule (spec/LifeMC.tla); its finished behaviours replayed on the real front end under a scripted clock, and real runs with interrupts and limits at chosen moments checked against it by TLC (spec/LifeTrace.tla)"
CLAIMS={
 "P01":("model_checking",TT,TN+" The optimal value is computed by the specification by exact reachable-belief closure and value iteration, tolerance 1e-4."),
 "P02":("model_checking",TT,TN),
 "P03":("model_checking",TT,TN),
 "P04":("model_checking",ST,TN+" Reaching the target is checked on finite models within a budget of 400000 backups."),
 "P05":("model_checking",ST,TN), "P06":("model_checking",ST,TN), "P07":("model_checking",ST,TN),
 "P08":("model_checking",PT,TN+" The value of following the policy is computed exactly by the specification on models with finitely many reachable beliefs, for both one-step lookahead and the planes' own actions."),
 "P09":("model_checking",PT,TN+" Half of the inputs are hand-made policy files in both formats, with every layout the formats allow."),
 "P10":("model_checking",TT,TN),
 "P11":("model_checking",LT,TN+" Files are generated over the whole grammar; whether a file is well-formed and what it means is decided by the specification alone."),
 "P12":("model_checking","TLA+ state machines of the model-file language (Cassandra.tla), policy files (PolicyFile.tla) and settings (Config.tla) decide what is well-formed; the real program's acceptance or refusal of generated inputs checked against them by TLC",
        TN+" Inputs are well-formed files and their mutations; the specification alone decides which of them must be refused."),
 "P13":("model_checking",TT,TN),
 "P14":("model_checking","TLA+ state machine of policy evaluation (spec/EvalTrace.tla): simulator and planner beliefs, policy, scores, reweighting, statistics; logs of real 'zmdp evaluate' runs checked against it by TLC",TN+" Draw frequencies and confidence limits are judged statistically with bounds far beyond chance."),
 "P15":("model_checking",CT,TN),
 "P16":("model_checking",FT,TN),
 "P17":("model_checking","TLA+ specification of the backup-log files and of the scripted strategy (spec/BackupLog.tla); logs of real runs, and replays of the same and of edited logs by the real program, checked against it by TLC (LogTrace)",TN),
 "P18":("model_checking","TLA+ rules of the race track (spec/RaceTrack.tla: declarative line-of-travel rule, slips, gusts, start, finish, crash), closed model TrackMC checked on every small map by TLC; the real model's outcome distributions explored through its MDP interface and checked state by state against the rules (TrackTrace)",TN),
 "P19":("model_checking",FT,TN+" Crashes are file size limits and kills before a chosen file operation."),
 "P20":("model_checking",TT,TN),
 "P21":("model_checking","TLA+ rules of the life survey (spec/LifeSurvey.tla); every state of the models the real generator writes for random maps (and the map dump and target tool) checked against it by TLC as a bisimulation (SurveyTrace)",TN),
 "P22":("model_checking","TLA+ rules of the path-and-react policy (spec/LifePath.tla, on LifeSurvey): the plan the real program prints and every action in its simulation logs, on random surveys, checked by TLC (PathTrace); the best value is recomputed over all paths",TN),
 "P23":("model_checking","TLA+ register machine of vectors and matrices (spec/Sparse.tla); results of random operation sequences on the real types checked against it by TLC (SparseTrace)",TN),
}
NA={}
