----------------------------- MODULE MetaCalls -----------------------------
(* Calls to the meta service.  An operation asks what the client takes for the leader of the
   meta service.  Told of another leader it believes that; after a failed call it tries any
   of the configured addresses; both after a pause, and a limited number of times.  What the
   service answers is what the operation results in. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Addrs, Limit, Pause, Timeout
VARIABLES lead,   \* whom the client may take for the leader (one of these)
          ops,    \* operations under way, by name
          out     \* calls under way, by number: the operation
vars == <<lead, ops, out>>

\* The operations: the call they make, and where the result is found in the answer ("": it is the answer, "ok": true).
Api == [
  submitJob |-> <<"runAdminJob", "result">>, createSpace |-> <<"createSpace", "id.space_id">>, listSpaces |-> <<"listSpaces", "spaces">>, getSpace |-> <<"getSpace", "item">>,
  dropSpace |-> <<"dropSpace", "ok">>, listHosts |-> <<"listHosts", "hosts">>, listParts |-> <<"listParts", "parts">>, getPartsAlloc |-> <<"getPartsAlloc", "parts">>,
  multiPut |-> <<"multiPut", "ok">>, get |-> <<"get", "value">>, multiGet |-> <<"multiGet", "values">>, scan |-> <<"scan", "values">>, remove |-> <<"remove", "ok">>, removeRange |-> <<"removeRange", "ok">>,
  createTagSchema |-> <<"createTag", "id.tag_id">>, alterTagSchema |-> <<"alterTag", "ok">>, listTagSchemas |-> <<"listTags", "tags">>, dropTagSchema |-> <<"dropTag", "ok">>, getTagSchema |-> <<"getTag", "schema">>,
  createEdgeSchema |-> <<"createEdge", "id.edge_type">>, alterEdgeSchema |-> <<"alterEdge", "ok">>, listEdgeSchemas |-> <<"listEdges", "edges">>, dropEdgeSchema |-> <<"dropEdge", "ok">>, getEdgeSchema |-> <<"getEdge", "schema">>,
  createTagIndex |-> <<"createTagIndex", "id.index_id">>, dropTagIndex |-> <<"dropTagIndex", "ok">>, getTagIndex |-> <<"getTagIndex", "item">>, listTagIndexes |-> <<"listTagIndexes", "items">>,
  rebuildTagIndex |-> <<"rebuildTagIndex", "ok">>, listTagIndexStatus |-> <<"listTagIndexStatus", "statuses">>,
  createEdgeIndex |-> <<"createEdgeIndex", "id.index_id">>, dropEdgeIndex |-> <<"dropEdgeIndex", "ok">>, getEdgeIndex |-> <<"getEdgeIndex", "item">>, listEdgeIndexes |-> <<"listEdgeIndexes", "items">>,
  rebuildEdgeIndex |-> <<"rebuildEdgeIndex", "ok">>, listEdgeIndexStatus |-> <<"listEdgeIndexStatus", "statuses">>,
  createUser |-> <<"createUser", "ok">>, dropUser |-> <<"dropUser", "ok">>, alterUser |-> <<"alterUser", "ok">>, grantToUser |-> <<"grantRole", "ok">>, revokeFromUser |-> <<"revokeRole", "ok">>,
  listUsers |-> <<"listUsers", "users">>, listRoles |-> <<"listRoles", "roles">>, changePassword |-> <<"changePassword", "ok">>, getUserRoles |-> <<"getUserRoles", "roles">>,
  balance |-> <<"balance", "id">>, showBalance |-> <<"balance", "tasks">>, balanceLeader |-> <<"leaderBalance", "ok">>,
  getTagDefaultValue |-> <<"get", "value">>, getEdgeDefaultValue |-> <<"get", "value">>,
  regConfig |-> <<"regConfig", "ok">>, getConfig |-> <<"getConfig", "items">>, setConfig |-> <<"setConfig", "ok">>, listConfigs |-> <<"listConfigs", "items">>,
  createSnapshot |-> <<"createSnapshot", "ok">>, dropSnapshot |-> <<"dropSnapshot", "ok">>, listSnapshots |-> <<"listSnapshots", "snapshots">>,
  addListener |-> <<"addListener", "ok">>, removeListener |-> <<"removeListener", "ok">>, listListener |-> <<"listListener", "listeners">>,
  addZone |-> <<"addZone", "ok">>, dropZone |-> <<"dropZone", "ok">>, addHostIntoZone |-> <<"addHostIntoZone", "ok">>, dropHostFromZone |-> <<"dropHostFromZone", "ok">>, getZone |-> <<"getZone", "hosts">>, listZones |-> <<"listZones", "zones">>,
  addGroup |-> <<"addGroup", "ok">>, dropGroup |-> <<"dropGroup", "ok">>, addZoneIntoGroup |-> <<"addZoneIntoGroup", "ok">>, dropZoneFromGroup |-> <<"dropZoneFromGroup", "ok">>, getGroup |-> <<"getGroup", "zone_names">>, listGroups |-> <<"listGroups", "groups">>,
  getStatis |-> <<"getStatis", "statis">>, reportTaskFinish |-> <<"reportTaskFinish", "code">>,
  signInFTService |-> <<"signInFTService", "ok">>, signOutFTService |-> <<"signOutFTService", "ok">>, listFTClients |-> <<"listFTClients", "clients">>,
  createFTIndex |-> <<"createFTIndex", "ok">>, dropFTIndex |-> <<"dropFTIndex", "ok">>, listFTIndexes |-> <<"listFTIndexes", "indexes">>,
  createSession |-> <<"createSession", "">>, updateSessions |-> <<"updateSessions", "">>, listSessions |-> <<"listSessions", "">>, getSession |-> <<"getSession", "">>, removeSession |-> <<"removeSession", "">>, killQuery |-> <<"killQuery", "">> ]

\* What the user is told of an answer that is no success.
Told == [
  E_DISCONNECTED |-> "Disconnected!", E_FAIL_TO_CONNECT |-> "Fail to connect!", E_RPC_FAILURE |-> "Rpc failure!", E_LEADER_CHANGED |-> "LeaderChanged: Leader changed!", E_NO_HOSTS |-> "No hosts!", E_EXISTED |-> "Existed!",
  E_SPACE_NOT_FOUND |-> "Space not existed!", E_TAG_NOT_FOUND |-> "Tag not existed!", E_EDGE_NOT_FOUND |-> "Edge not existed!", E_INDEX_NOT_FOUND |-> "Index not existed!", E_EDGE_PROP_NOT_FOUND |-> "Edge prop not existed!",
  E_TAG_PROP_NOT_FOUND |-> "Tag prop not existed!", E_ROLE_NOT_FOUND |-> "Role not existed!", E_CONFIG_NOT_FOUND |-> "Conf not existed!", E_PART_NOT_FOUND |-> "Part not existed!", E_USER_NOT_FOUND |-> "User not existed!",
  E_GROUP_NOT_FOUND |-> "Group not existed!", E_ZONE_NOT_FOUND |-> "Zone not existed!", E_KEY_NOT_FOUND |-> "Key not existed!", E_INVALID_HOST |-> "Invalid host!", E_UNSUPPORTED |-> "Unsupported!", E_NOT_DROP |-> "Not allowed to drop!",
  E_BALANCER_RUNNING |-> "The balancer is running!", E_CONFIG_IMMUTABLE |-> "Config immutable!", E_CONFLICT |-> "Conflict!", E_INVALID_PARM |-> "Invalid parm!", E_WRONGCLUSTER |-> "Wrong cluster!", E_STORE_FAILURE |-> "Store failure!",
  E_STORE_SEGMENT_ILLEGAL |-> "Store segment illegal!", E_BAD_BALANCE_PLAN |-> "Bad balance plan!", E_BALANCED |-> "The cluster is balanced!", E_NO_RUNNING_BALANCE_PLAN |-> "No running balance plan!", E_NO_VALID_HOST |-> "No valid host hold the partition!",
  E_CORRUPTTED_BALANCE_PLAN |-> "No corrupted blance plan!", E_INVALID_PASSWORD |-> "Invalid password!", E_IMPROPER_ROLE |-> "Improper role!", E_INVALID_PARTITION_NUM |-> "No valid partition_num!", E_INVALID_REPLICA_FACTOR |-> "No valid replica_factor!",
  E_INVALID_CHARSET |-> "No valid charset!", E_INVALID_COLLATE |-> "No valid collate!", E_CHARSET_COLLATE_NOT_MATCH |-> "Charset and collate not match!", E_SNAPSHOT_FAILURE |-> "Snapshot failure!", E_BLOCK_WRITE_FAILURE |-> "Block write failure!",
  E_REBUILD_INDEX_FAILED |-> "Rebuild index failed!", E_INDEX_WITH_TTL |-> "Index with ttl!", E_ADD_JOB_FAILURE |-> "Add job failure!", E_STOP_JOB_FAILURE |-> "Stop job failure!", E_SAVE_JOB_FAILURE |-> "Save job failure!", E_BALANCER_FAILURE |-> "Balance failure!",
  E_NO_INVALID_BALANCE_PLAN |-> "No invalid balance plan!", E_JOB_NOT_FINISHED |-> "Job is not finished!", E_TASK_REPORT_OUT_DATE |-> "Task report is out of date!", E_BACKUP_FAILED |-> "Backup failure!", E_BACKUP_BUILDING_INDEX |-> "Backup building indexes!",
  E_BACKUP_SPACE_NOT_FOUND |-> "The space is not found when backup!", E_RESTORE_FAILURE |-> "Restore failure!", E_LIST_CLUSTER_FAILURE |-> "list cluster failure!", E_LIST_CLUSTER_GET_ABS_PATH_FAILURE |-> "Failed to get the absolute path!",
  E_GET_META_DIR_FAILURE |-> "Failed to get meta dir!", E_INVALID_JOB |-> "No valid job!", E_BACKUP_EMPTY_TABLE |-> "Backup empty table!", E_BACKUP_TABLE_FAILED |-> "Backup table failure!", E_SESSION_NOT_FOUND |-> "Session not existed!" ]
StatusOf(code) == IF code \in DOMAIN Told THEN Told[code] ELSE "Unknown error!"

\* Fields of the request that say something other than the argument of their name.
Without(r, k) == [f \in DOMAIN r \ k |-> r[f]]
\* a plain "stop" or "reset" is only sent when it is asked for
Request(m, a) ==
  IF m = "balance" THEN Without(a, {f \in {"stop", "reset"} : a[f] = "false"} \cup (IF a.host_del = "[]" THEN {"host_del"} ELSE {}))
  ELSE a

\* keys and values are kept in segments named by letters and digits; what is plainly no request is refused
Letters == {SubSeq("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", k, k) : k \in 1..62}
Valid(m, a) == LET S == a.segment IN
  m \in {"multiPut", "get", "multiGet", "scan", "remove", "removeRange"} =>
    /\ Len(S) > 2 /\ \A k \in 2..(Len(S) - 1) : SubSeq(S, k, k) \in Letters
    /\ \A f \in DOMAIN a : a[f] \notin {"\"\"", "[]"}

\* what an operation is told at once, "" if it is taken: settings can be asked for once the client registered its own
Refused(m, a) == IF ~Valid(m, a) THEN "arguments invalid!" ELSE IF m = "getConfig" THEN "Not ready!" ELSE ""

CInit == lead = Addrs /\ ops = <<>> /\ out = <<>>
\* nothing is left to do at once
Quiet == \A i \in DOMAIN ops : ops[i].ph \in {"wait", "sleep"}
Begin(i, m, a) == /\ i \notin DOMAIN ops
                  /\ ops' = ops @@ (i :> [m |-> m, a |-> a, ph |-> IF Refused(m, a) = "" THEN "send" ELSE "ret", try |-> 0, due |-> 0, res |-> <<"told", Refused(m, a)>>])
                  /\ UNCHANGED <<lead, out>>
Send(i, c, host, now) == /\ ops[i].ph = "send" \/ (ops[i].ph = "sleep" /\ ops[i].due = now)
                         /\ host \in lead /\ lead' = {host}
                         /\ ops' = [ops EXCEPT ![i].ph = "wait"] /\ out' = out @@ (c :> i)
Again(i, now) == [ops EXCEPT ![i].ph = "sleep", ![i].due = now + Pause, ![i].try = @ + 1]
Result(i, r) == [ops EXCEPT ![i].ph = "ret", ![i].res = r]
\* the call failed; msg: how
Fail(c, msg, now) == LET i == out[c] IN
  /\ lead' = Addrs /\ out' = Without(out, {c})
  /\ ops' = IF ops[i].try < Limit THEN Again(i, now) ELSE Result(i, <<"rpc", msg>>)
\* the answer; named: the leader it names, "" for none
Answer(c, code, named, now) == LET i == out[c] IN
  /\ out' = Without(out, {c})
  /\ IF code = "E_LEADER_CHANGED" THEN lead' = (IF named = "" THEN Addrs ELSE {named}) ELSE UNCHANGED lead
  /\ ops' = IF code = "SUCCEEDED" THEN Result(i, <<"ok">>)
            ELSE IF code = "E_LEADER_CHANGED" /\ ops[i].try < Limit THEN Again(i, now)
            ELSE Result(i, <<"told", StatusOf(code)>>)
End(i) == ops[i].ph = "ret" /\ ops' = Without(ops, {i}) /\ UNCHANGED <<lead, out>>
=============================================================================
