---------------------------- MODULE MC_PageFile -----------------------------
EXTENDS PageFile, TLC, Json, SequencesExt, IOUtils
CONSTANT N
MCSpec == FInit(N) /\ [][FNext]_vars /\ WF_vars(FNext)
WholePage == st = "returned" => file = PageText
Finishes == <>(st \in {"returned", "failed"})
\* reported failures exactly when something is missing, once the file exists
Visible == st = "failed" => file # PageText \/ (file = old /\ todo = PageLen)
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq(Scripts(N)))
=============================================================================
