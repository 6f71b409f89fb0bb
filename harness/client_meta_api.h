// name, arguments (read, and echoed, before the operation starts), call
S(submitJob, auto v0 = A(mc::AdminJobOp, "op"); auto v1 = A(mc::AdminCmd, "cmd"); auto v2 = A(VEC(std::string), "paras"), c.submitJob(v0, v1, v2))
S(createSpace, auto v0 = A(mc::SpaceDesc, "properties"); auto v1 = A(bool, "if_not_exists"), c.createSpace(v0, v1))
S(listSpaces, , c.listSpaces())
S(getSpace, auto v0 = A(std::string, "space_name"), c.getSpace(v0))
S(dropSpace, auto v0 = A(std::string, "space_name"); auto v1 = A(bool, "if_exists"), c.dropSpace(v0, v1))
S(listHosts, auto v0 = A(mc::ListHostType, "type"), c.listHosts(v0))
S(listParts, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(VEC(PartitionID), "part_ids"), c.listParts(v0, v1))
S(getPartsAlloc, auto v0 = A(GraphSpaceID, "space_id"), c.getPartsAlloc(v0))
S(multiPut, auto v0 = A(std::string, "segment"); auto v1 = a.pairs("pairs"), c.multiPut(v0, v1))
S(get, auto v0 = A(std::string, "segment"); auto v1 = A(std::string, "key"), c.get(v0, v1))
S(multiGet, auto v0 = A(std::string, "segment"); auto v1 = A(VEC(std::string), "keys"), c.multiGet(v0, v1))
S(scan, auto v0 = A(std::string, "segment"); auto v1 = A(std::string, "start"); auto v2 = A(std::string, "end"), c.scan(v0, v1, v2))
S(remove, auto v0 = A(std::string, "segment"); auto v1 = A(std::string, "key"), c.remove(v0, v1))
S(removeRange, auto v0 = A(std::string, "segment"); auto v1 = A(std::string, "start"); auto v2 = A(std::string, "end"), c.removeRange(v0, v1, v2))
S(createTagSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "tag_name"); auto v2 = A(mc::Schema, "schema"); auto v3 = A(bool, "if_not_exists"), c.createTagSchema(v0, v1, v2, v3))
S(alterTagSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "tag_name"); auto v2 = A(VEC(mc::AlterSchemaItem), "tag_items"); auto v3 = A(mc::SchemaProp, "schema_prop"), c.alterTagSchema(v0, v1, v2, v3))
S(listTagSchemas, auto v0 = A(GraphSpaceID, "space_id"), c.listTagSchemas(v0))
S(dropTagSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "tag_name"); auto v2 = A(bool, "if_exists"), c.dropTagSchema(v0, v1, v2))
S(getTagSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "tag_name"); auto v2 = A(int64_t, "version"), c.getTagSchema(v0, v1, v2))
S(createEdgeSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "edge_name"); auto v2 = A(mc::Schema, "schema"); auto v3 = A(bool, "if_not_exists"), c.createEdgeSchema(v0, v1, v2, v3))
S(alterEdgeSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "edge_name"); auto v2 = A(VEC(mc::AlterSchemaItem), "edge_items"); auto v3 = A(mc::SchemaProp, "schema_prop"), c.alterEdgeSchema(v0, v1, v2, v3))
S(listEdgeSchemas, auto v0 = A(GraphSpaceID, "space_id"), c.listEdgeSchemas(v0))
S(dropEdgeSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "edge_name"); auto v2 = A(bool, "if_exists"), c.dropEdgeSchema(v0, v1, v2))
S(getEdgeSchema, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "edge_name"); auto v2 = A(int64_t, "version"), c.getEdgeSchema(v0, v1, v2))
S(createTagIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"); auto v2 = A(std::string, "tag_name"); auto v3 = A(VEC(mc::IndexFieldDef), "fields"); auto v4 = A(bool, "if_not_exists"); std::string v5s; auto* v5 = a.opt("comment", v5s), c.createTagIndex(v0, v1, v2, v3, v4, v5))
S(dropTagIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"); auto v2 = A(bool, "if_exists"), c.dropTagIndex(v0, v1, v2))
S(getTagIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"), c.getTagIndex(v0, v1))
S(listTagIndexes, auto v0 = A(GraphSpaceID, "space_id"), c.listTagIndexes(v0))
S(rebuildTagIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"), c.rebuildTagIndex(v0, v1))
S(listTagIndexStatus, auto v0 = A(GraphSpaceID, "space_id"), c.listTagIndexStatus(v0))
S(createEdgeIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"); auto v2 = A(std::string, "edge_name"); auto v3 = A(VEC(mc::IndexFieldDef), "fields"); auto v4 = A(bool, "if_not_exists"); std::string v5s; auto* v5 = a.opt("comment", v5s), c.createEdgeIndex(v0, v1, v2, v3, v4, v5))
S(dropEdgeIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"); auto v2 = A(bool, "if_exists"), c.dropEdgeIndex(v0, v1, v2))
S(getEdgeIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"), c.getEdgeIndex(v0, v1))
S(listEdgeIndexes, auto v0 = A(GraphSpaceID, "space_id"), c.listEdgeIndexes(v0))
S(rebuildEdgeIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "index_name"), c.rebuildEdgeIndex(v0, v1))
S(listEdgeIndexStatus, auto v0 = A(GraphSpaceID, "space_id"), c.listEdgeIndexStatus(v0))
S(createUser, auto v0 = A(std::string, "account"); auto v1 = A(std::string, "encoded_pwd"); auto v2 = A(bool, "if_not_exists"), c.createUser(v0, v1, v2))
S(dropUser, auto v0 = A(std::string, "account"); auto v1 = A(bool, "if_exists"), c.dropUser(v0, v1))
S(alterUser, auto v0 = A(std::string, "account"); auto v1 = A(std::string, "encoded_pwd"), c.alterUser(v0, v1))
S(grantToUser, auto v0 = A(mc::RoleItem, "role_item"), c.grantToUser(v0))
S(revokeFromUser, auto v0 = A(mc::RoleItem, "role_item"), c.revokeFromUser(v0))
S(listUsers, , c.listUsers())
S(listRoles, auto v0 = A(GraphSpaceID, "space_id"), c.listRoles(v0))
S(changePassword, auto v0 = A(std::string, "account"); auto v1 = A(std::string, "new_encoded_pwd"); auto v2 = A(std::string, "old_encoded_pwd"), c.changePassword(v0, v1, v2))
S(getUserRoles, auto v0 = A(std::string, "account"), c.getUserRoles(v0))
S(balance, auto v0 = A(VEC(HostAddr), "host_del"); auto v1 = A(bool, "stop"); auto v2 = A(bool, "reset"), c.balance(v0, v1, v2))
S(showBalance, auto v0 = A(int64_t, "id"), c.showBalance(v0))
S(balanceLeader, , c.balanceLeader())
S(getTagDefaultValue, auto v0 = A(GraphSpaceID, "space"); auto v1 = A(TagID, "id"); auto v2 = A(std::string, "field"), c.getTagDefaultValue(v0, v1, v2))
S(getEdgeDefaultValue, auto v0 = A(GraphSpaceID, "space"); auto v1 = A(EdgeType, "id"); auto v2 = A(std::string, "field"), c.getEdgeDefaultValue(v0, v1, v2))
S(regConfig, auto v0 = A(VEC(mc::ConfigItem), "items"), c.regConfig(v0))
S(getConfig, auto v0 = A(mc::ConfigModule, "item.module"); auto v1 = A(std::string, "item.name"), c.getConfig(v0, v1))
S(setConfig, auto v0 = A(mc::ConfigModule, "item.module"); auto v1 = A(std::string, "item.name"); auto v2 = A(Value, "item.value"), c.setConfig(v0, v1, v2))
S(listConfigs, auto v0 = A(mc::ConfigModule, "module"), c.listConfigs(v0))
S(createSnapshot, , c.createSnapshot())
S(dropSnapshot, auto v0 = A(std::string, "name"), c.dropSnapshot(v0))
S(listSnapshots, , c.listSnapshots())
S(addListener, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(mc::ListenerType, "type"); auto v2 = A(VEC(HostAddr), "hosts"), c.addListener(v0, v1, v2))
S(removeListener, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(mc::ListenerType, "type"), c.removeListener(v0, v1))
S(listListener, auto v0 = A(GraphSpaceID, "space_id"), c.listListener(v0))
S(addZone, auto v0 = A(std::string, "zone_name"); auto v1 = A(VEC(HostAddr), "nodes"), c.addZone(v0, v1))
S(dropZone, auto v0 = A(std::string, "zone_name"), c.dropZone(v0))
S(addHostIntoZone, auto v0 = A(HostAddr, "node"); auto v1 = A(std::string, "zone_name"), c.addHostIntoZone(v0, v1))
S(dropHostFromZone, auto v0 = A(HostAddr, "node"); auto v1 = A(std::string, "zone_name"), c.dropHostFromZone(v0, v1))
S(getZone, auto v0 = A(std::string, "zone_name"), c.getZone(v0))
S(listZones, , c.listZones())
S(addGroup, auto v0 = A(std::string, "group_name"); auto v1 = A(VEC(std::string), "zone_names"), c.addGroup(v0, v1))
S(dropGroup, auto v0 = A(std::string, "group_name"), c.dropGroup(v0))
S(addZoneIntoGroup, auto v0 = A(std::string, "zone_name"); auto v1 = A(std::string, "group_name"), c.addZoneIntoGroup(v0, v1))
S(dropZoneFromGroup, auto v0 = A(std::string, "zone_name"); auto v1 = A(std::string, "group_name"), c.dropZoneFromGroup(v0, v1))
S(getGroup, auto v0 = A(std::string, "group_name"), c.getGroup(v0))
S(listGroups, , c.listGroups())
S(getStatis, auto v0 = A(GraphSpaceID, "space_id"), c.getStatis(v0))
S(reportTaskFinish, auto v0 = A(int32_t, "job_id"); auto v1 = A(int32_t, "task_id"); auto v2 = A(nebula::cpp2::ErrorCode, "code"); mc::StatisItem v3s; auto* v3 = a.opt("statis", v3s), c.reportTaskFinish(v0, v1, v2, v3))
S(signInFTService, auto v0 = A(mc::FTServiceType, "type"); auto v1 = A(VEC(mc::FTClient), "clients"), c.signInFTService(v0, v1))
S(signOutFTService, , c.signOutFTService())
S(listFTClients, , c.listFTClients())
S(createFTIndex, auto v0 = A(std::string, "fulltext_index_name"); auto v1 = A(mc::FTIndex, "index"), c.createFTIndex(v0, v1))
S(dropFTIndex, auto v0 = A(GraphSpaceID, "space_id"); auto v1 = A(std::string, "fulltext_index_name"), c.dropFTIndex(v0, v1))
S(listFTIndexes, , c.listFTIndexes())
S(createSession, auto v0 = A(std::string, "user"); auto v1 = A(HostAddr, "graph_addr"); auto v2 = A(std::string, "client_ip"), c.createSession(v0, v1, v2))
S(updateSessions, auto v0 = A(VEC(mc::Session), "sessions"), c.updateSessions(v0))
S(listSessions, , c.listSessions())
S(getSession, auto v0 = A(SessionID, "session_id"), c.getSession(v0))
S(removeSession, auto v0 = A(SessionID, "session_id"), c.removeSession(v0))
S(killQuery, auto v0 = A(KQ, "kill_queries"), c.killQuery(v0))
