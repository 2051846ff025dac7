------------------------------ MODULE MC_Vocab ------------------------------
EXTENDS Vocabulary, TLC, Json, SequencesExt, IOUtils
CONSTANTS MCIds, MCNames, HistLen
Ops == {[op |-> "t", id |-> i, nm |-> n] : i \in MCIds, n \in MCNames}
       \cup {[op |-> "n", id |-> i, nm |-> n] : i \in MCIds, n \in MCNames}
       \cup {[op |-> "u", id |-> i, nm |-> ""] : i \in MCIds}
Do(o, r) == CASE o.op = "t" -> AddT(o.id, o.nm, r)
              [] o.op = "n" -> AddM(o.id, o.nm, r)
              [] OTHER -> AddU(o.id, r)
MCSpec == VInit /\ [][\E o \in Ops, r \in BOOLEAN : Do(o, r)]_vvars
\* a lookup by id and a lookup by name answer for the same pair
LookupsInverse == /\ \A i \in MCIds, n \in MCNames : (NameOf(T, i) = <<n>>) <=> (IdOf(T, n) = <<i>>)
           /\ \A i \in MCIds, n \in MCNames : (NameOf(M, i) = <<n>>) <=> (IdOf(M, n) = <<i>>)
\* refused = unchanged, accepted = exactly one new pair visible
Refuse == [][\A o \in Ops : Do(o, FALSE) => UNCHANGED vvars]_vvars
Hist == UNION {[1..k -> Ops] : k \in 1..HistLen}
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq({[ops |-> h] : h \in Hist}))
=============================================================================
