------------------------------ MODULE MC_Serde ------------------------------
(* The document arrives in pieces (any chunking, interruptions, a failure at *)
(* any point); the loader must answer, and answer what the whole text says.  *)
EXTENDS SerdeAst, TLC, Json, SequencesExt, IOUtils, FiniteSets
CONSTANTS Big
VARIABLES val, txt, got, st, res
Num0(d) == [j |-> "num", d |-> d]
S0(s) == [j |-> "str", s |-> s]
Atoms == {Null, Num0(<<55>>), S0(<<97>>), [j |-> "num", d |-> <<>>]} \cup (IF Big THEN {[j |-> "bool"], [j |-> "arr", a |-> <<>>]} ELSE {})
Opt(key, vs) == {<<>>} \cup {<< <<key, v>> >> : v \in vs}
LeafObjs == {[j |-> "obj", f |-> a \o b \o c] : a \in Opt(KTokenType, {Num0(<<55>>), S0(<<97>>)}), b \in Opt(KTokenName, {S0(<<98>>), Null}), c \in Opt(KText, {S0(<<34, 92>>), Num0(<<49>>)})}
Kids1 == LeafObjs \cup {Null, S0(<<97>>)}
RuleObjs(kids) == {[j |-> "obj", f |-> a \o b \o c] : a \in Opt(KRuleIndex, {Num0(<<48>>), [j |-> "num", d |-> <<>>]}), b \in Opt(KRuleName, {S0(<<>>), Num0(<<49>>)}),
                     c \in {<< <<KChildren, [j |-> "arr", a |-> ks]>> >> : ks \in kids} \cup {<<>>, << <<KChildren, Null>> >>, << <<KChildren, S0(<<>>)>> >>}}
Good1 == {x \in LeafObjs : LoadLeaf(x).ok}
Values == RuleObjs({<<>>} \cup {<<k>> : k \in Kids1}) \cup RuleObjs({<<k, m>> : k \in Good1, m \in {[j |-> "obj", f |-> << <<KRuleIndex, Num0(<<48>>)>>, <<KRuleName, S0(<<>>)>>, <<KChildren, [j |-> "arr", a |-> <<x>>]>> >>] : x \in Good1}})
          \cup Atoms \cup {[j |-> "arr", a |-> <<Null>>]}
\* writing a value
RECURSIVE WriteStr(_, _), Write(_), WriteSeq(_, _)
WriteStr(s, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] \in {34, 92} THEN <<92, s[i]>> ELSE <<s[i]>>) \o WriteStr(s, i + 1)
Quoted(s) == <<34>> \o WriteStr(s, 1) \o <<34>>
Write(v) == CASE v.j = "null" -> <<110, 117, 108, 108>> [] v.j = "bool" -> <<116, 114, 117, 101>>
              [] v.j = "num" -> IF v.d = <<>> THEN <<45, 49>> ELSE v.d
              [] v.j = "str" -> Quoted(v.s)
              [] v.j = "arr" -> <<91>> \o WriteSeq([i \in 1..Len(v.a) |-> Write(v.a[i])], 1) \o <<93>>
              [] OTHER -> <<123>> \o WriteSeq([i \in 1..Len(v.f) |-> Quoted(v.f[i][1]) \o <<58>> \o Write(v.f[i][2])], 1) \o <<125>>
WriteSeq(q, i) == IF i > Len(q) THEN <<>> ELSE (IF i > 1 THEN <<44>> ELSE <<>>) \o q[i] \o WriteSeq(q, i + 1)
MCInit == /\ val \in Values /\ txt = Write(val) /\ got = 0 /\ st = "read" /\ res = Fail
Half == Len(txt) \div 2
Read == /\ st = "read" /\ got < Len(txt) /\ got' \in {Half, Len(txt)} \ 0..got /\ UNCHANGED <<val, txt, st, res>>
Interrupt == st = "read" /\ UNCHANGED <<val, txt, got, st, res>>
ReadFail == st = "read" /\ st' = "failed" /\ res' = Fail /\ UNCHANGED <<val, txt, got>>
Eof == st = "read" /\ got = Len(txt) /\ st' = "answered" /\ res' = LoadText(SubSeq(txt, 1, got)) /\ UNCHANGED <<val, txt, got>>
Next == Read \/ Interrupt \/ ReadFail \/ Eof
MCSpec == MCInit /\ [][Next]_<<val, txt, got, st, res>> /\ WF_<<val, txt, got, st, res>>(Read \/ Eof)
\* what is written is read back
RoundTrip == st = "answered" => Document(txt) = Good(val, Len(txt) + 1)
\* success, declaratively
RECURSIVE Wf(_)
Wf(v) == /\ v.j = "obj" /\ Get(v, KChildren).j = "arr" /\ IsNat(Get(v, KRuleIndex)) /\ Get(v, KRuleName).j = "str"
         /\ \A i \in 1..Len(Get(v, KChildren).a) : LET x == Get(v, KChildren).a[i]
              IN IF Get(x, KChildren) = Null THEN IsNat(Get(x, KTokenType)) /\ Get(x, KTokenName).j = "str" ELSE Wf(x)
SucceedsIff == st = "answered" => (res.ok <=> Wf(val)) /\ (res.ok => res = LoadRule(val) /\ res.t[1].n = Len(Get(val, KChildren).a))
FailedIsError == st = "failed" => ~res.ok
Answers == <>(st # "read")
ASSUME IOEnv.MC_OUT = "" \/ ndJsonSerialize(IOEnv.MC_OUT, SetToSeq({Write(v) : v \in Values}))
=============================================================================
