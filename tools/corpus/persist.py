V = "confstore/persister.go"
M("K08", V, "	if err != nil {\n		simplelog.ErrLogger.Println(\"load configs from redis failed:\", err)\n		return err\n	}\n", "	if err != nil {\n		simplelog.ErrLogger.Println(\"load configs from redis failed:\", err)\n		return nil\n	}\n")
M("K08", V, "		return err\n	}\n	for k, v := range result {\n", "	}\n	for k, v := range result {\n")
M("K08", V, "s.UpdateNoPersist(k, v)", "s.Update(k, v)")
M("K08", V, "			simplelog.StdLogger.Printf(\"warning", "			if v != \"\" {\n				break\n			}\n			simplelog.StdLogger.Printf(\"warning")
M("K08", V, "		kvError := s.UpdateNoPersist(k, v)\n", "		if v == \"\" {\n			continue\n		}\n		kvError := s.UpdateNoPersist(k, v)\n")
M("K08", V, "s.UpdateNoPersist(k, v)", "s.UpdateNoPersist(k, strings.TrimSpace(v))" ) if False else None
M("K08", V, "		if kvError != nil {\n", "		if kvError != nil && kvError.Key == k {\n			s.DeregisterKey(k)\n		}\n		if kvError != nil {\n")
M("K08", V, "	return r.BatchSave([]*KVStr{{key, value}})\n", "	return r.BatchSave([]*KVStr{{value, key}})\n")
M("K08", V, "	return r.BatchSave([]*KVStr{{key, value}})\n", "	_, err := r.redisClient.HSetNX(r.configRootKey, key, value).Result()\n	return err\n")
M("K08", V, "	return r.BatchSave([]*KVStr{{key, value}})\n", "	if value == \"\" {\n		return nil\n	}\n	return r.BatchSave([]*KVStr{{key, value}})\n")
M("K08", V, "	for _, kvStr := range kvStrs {\n		args", "	for _, kvStr := range kvStrs {\n		if len(args) > 512 {\n			break\n		}\n		args")
M("K08", V, "		args = append(args, kvStr.Key)\n		args = append(args, kvStr.Value)\n", "		if kvStr.Value == \"\" {\n			continue\n		}\n		args = append(args, kvStr.Key)\n		args = append(args, kvStr.Value)\n")
M("K08", V, "		args = append(args, kvStr.Key)\n		args = append(args, kvStr.Value)\n", "		args = append(args, kvStr.Value)\n		args = append(args, kvStr.Key)\n")
M("K08", V, "	if len(args) == 0 {\n		return nil\n	}\n", "")
M("K08", V, "	if len(args) == 0 {\n		return nil\n	}\n", "	if len(args) <= 2 {\n		return nil\n	}\n")
M("K08", V, "	if error != nil {\n		return error\n	}\n	return nil\n", "	if error != nil {\n		simplelog.ErrLogger.Println(error)\n	}\n	return nil\n")
M("K08", V, "	_, err := r.redisClient.HDel(r.configRootKey, key).Result()\n	return err\n", "	n, err := r.redisClient.HDel(r.configRootKey, key).Result()\n	if n == 0 {\n		return nil\n	}\n	return err\n")
M("K08", V, "HDel(r.configRootKey, key)", "HDel(key, r.configRootKey)")
M("K08", V, "r.redisClient.HDel(r.configRootKey, key)", "r.redisClient.Del(r.configRootKey + key)")
M("K08", V, "HGetAll(r.configRootKey)", "HGetAll(r.configRootKey + \":\")")
M("K08", V, "		configRootKey: configKeyRoot,\n", "		configRootKey: \"confstore:\" + configKeyRoot,\n") if False else None
B(V, "	_, err := r.redisClient.HDel(r.configRootKey, key).Result()\n	return err\n", "	return r.redisClient.HDel(r.configRootKey, key).Err()\n")
B(V, "	return r.BatchSave([]*KVStr{{key, value}})\n", "	return r.redisClient.HMSet(r.configRootKey, key, value).Err()\n")
B(V, "	args := make([]string, 0, 2*len(kvStrs))\n	for _, kvStr := range kvStrs {\n		args = append(args, kvStr.Key)\n		args = append(args, kvStr.Value)\n	}\n	if len(args) == 0 {\n		return nil\n	}\n	_, error := r.redisClient.HMSet(r.configRootKey, args).Result()\n	if error != nil {\n		return error\n	}\n	return nil\n", "	if len(kvStrs) == 0 {\n		return nil\n	}\n	var args []interface{}\n	for i := range kvStrs {\n		args = append(args, kvStrs[i].Key, kvStrs[i].Value)\n	}\n	return r.redisClient.HMSet(r.configRootKey, args...).Err()\n")
BB((V, "	args := make([]string, 0, 2*len(kvStrs))\n	for _, kvStr := range kvStrs {\n		args = append(args, kvStr.Key)\n		args = append(args, kvStr.Value)\n	}\n", "	args := pairs(kvStrs)\n"), (V, "", "\nfunc pairs(kvStrs []*KVStr) []string {\n	out := make([]string, 0, len(kvStrs)*2)\n	for _, kv := range kvStrs {\n		out = append(out, kv.Key, kv.Value)\n	}\n	return out\n}\n"))
BB((V, "		kvError := s.UpdateNoPersist(k, v)\n		if kvError != nil {\n			simplelog.StdLogger.Printf(\"warning: load key[%s] value[%s] error: %s\\n\", kvError.Key, kvError.Value, kvError.Error)\n		}\n", "		r.offer(s, k, v)\n"), (V, "", "\nfunc (r *redisPersister) offer(s Interface, k, v string) {\n	if e := s.UpdateNoPersist(k, v); e != nil {\n		simplelog.StdLogger.Printf(\"warning: load key[%s] value[%s] error: %s\\n\", e.Key, e.Value, e.Error)\n	}\n}\n"))
