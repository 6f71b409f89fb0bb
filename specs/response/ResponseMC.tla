----------------------------- MODULE ResponseMC -----------------------------
EXTENDS Response, Json
VARIABLE ev
Types == [ AuthResponse |-> {"errorCode", "sessionId", "errorMsg", "timeZoneOffsetSeconds", "timeZoneName"},
           ProfilingStats |-> {"rows", "execDurationInUs", "totalDurationInUs", "otherStats"},
           PlanNodeBranchInfo |-> {"isDoBranch", "conditionNodeId"},
           Pair |-> {"key", "value"},
           PlanNodeDescription |-> {"name", "id", "outputVar", "description", "profiles", "branchInfo", "dependencies"},
           PlanDescription |-> {"planNodeDescs", "nodeIndexMap", "format", "optimize_time_in_us"},
           ExecutionResponse |-> {"errorCode", "latencyInUs", "data", "spaceName", "errorMsg", "planDesc", "comment"} ]
\* how many values of a field are told apart, the fresh one being 0 (booleans have two,
\* nested parts one for every inner field that can differ)
Top == [f \in UNION {Types[t] : t \in DOMAIN Types} |->
        CASE f = "isDoBranch" -> 1 [] f = "profiles" -> 7 [] f \in {"description", "dependencies", "otherStats", "data"} -> 5
          [] f = "branchInfo" -> 3 [] f = "planDesc" -> 5 [] f = "planNodeDescs" -> 9 [] f = "nodeIndexMap" -> 4 [] OTHER -> 2]
Vals(f) == 0..Top[f]
Init == RInit /\ ev = [op |-> "init"]
\* x differs from the fresh record in at most two fields, y in at most one, with two
\* values each; and any two records that differ from it in one field
Weight(o) == Cardinality({f \in DOMAIN rec'[o].v : rec'[o].v[f] # 0})
Low(o) == \A f \in DOMAIN rec'[o].v : rec'[o].v[f] <= 2
Small == Weight("y") <= 1 /\ (Weight("x") <= 1 \/ (Weight("x") <= 2 /\ Low("x") /\ Low("y")))
Next == \/ \E o \in Objs, f \in Fields[rec["x"].t] : \E v \in Vals(f) : v # rec[o].v[f] /\ SetField(o, f, v) /\ ev' = [op |-> "set", o |-> o, f |-> f, v |-> v]
        \/ \E o \in Objs : Clear(o) /\ ev' = [op |-> "clear", o |-> o]
View == rec
Emit == Small /\ PrintT("@T " \o ToJson(<<rec, ev', rec'>>))
\* equality is exactly agreement of all fields
EqOK == Equal <=> \A f \in DOMAIN rec["x"].v : rec["x"].v[f] = rec["y"].v[f]
=============================================================================
