V = "confstore/store.go"
L = "confstore/loader.go"
# K01
M("K01", V, "	m.kv[key] = v\n	m.kvStr[key] = value\n", "	m.kv[key] = v\n	m.kvLock.Unlock()\n	m.kvLock.Lock()\n	m.kvStr[key] = value\n")
M("K01", V, "	m.kvStr[key] = value\n	m.kvLock.Unlock()\n", "	if len(value) < 1024 {\n		m.kvStr[key] = value\n	}\n	m.kvLock.Unlock()\n")
M("K01", V, "	defer m.kvProcessorLock.RUnlock()\n\n	p, hit := m.kvProcessor[key]\n", "	p, hit := m.kvProcessor[key]\n	m.kvProcessorLock.RUnlock()\n")
M("K01", V, "	v := p.Convert(value)\n", "	v := p.Convert(value + \"\")\n	if s, isStr := v.(string); isStr {\n		v = s[:len(s)]\n	}\n")
M("K01", V, "	if ok, err := p.Validate(value); !ok {\n		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: err,\n		}\n	}\n\n	v := p.Convert(value)\n", "	ok, err := p.Validate(value)\n	v := p.Convert(value)\n	if !ok && v == nil && err != \"\" {\n		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: err,\n		}\n	}\n")
M("K01", V, "			Key:   key,\n			Value: value,\n			Error: err,\n", "			Key:   key,\n			Value: value,\n			Error: err[:0],\n")
M("K01", V, "			Value: value,\n			Error: fmt.Sprintf(\"key[%s] not registered\", key),\n", "			Error: fmt.Sprintf(\"key[%s] not registered\", key),\n")
M("K01", V, "	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err :=", "	delete(m.kv, key)\n	err :=")
M("K01", V, "	delete(m.kvStr, key)\n	delete(m.kvDefault, key)\n", "	delete(m.kvDefault, key)\n")
M("K01", V, "	if ok, err := p.Validate(value); !ok {\n		return &KVError{", "	if m.kvStr[key] != value {\n	} else if ok, err := p.Validate(value); !ok {\n		return &KVError{")
M("K01", V, "	p, hit := m.kvProcessor[key]\n	if !hit {\n", "	p, hit := m.kvProcessor[key]\n	if !hit && value == \"\" {\n		return nil\n	}\n	if !hit {\n")
# K02
M("K02", V, "	v, hit = m.kv[key]\n	if !hit {\n		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n", "	v, hit = m.kv[key]\n	if !hit || v == nil {\n		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n")
M("K02", V, "		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n", "		v = m.kvDefault[key]\n		return v, v != nil\n	}\n")
M("K02", V, "	v, hit = m.kvStr[key]\n	if !hit {\n", "	v, hit = m.kvStr[key]\n	if v == \"\" {\n")
M("K02", V, "	v, hit := m.GetValue(key)\n	if !hit {\n		panic(", "	v, hit := m.GetValue(key)\n	if !hit || v == nil {\n		panic(")
M("K02", V, "		if !hit {\n			continue\n		}\n		kvs = append(kvs, &KV{key, v})\n", "		if !hit {\n			break\n		}\n		kvs = append(kvs, &KV{key, v})\n")
M("K02", V, "		if !hit {\n			continue\n		}\n		kvs = append(kvs, &KVStr{key, v})\n", "		if !hit || v == \"\" {\n			continue\n		}\n		kvs = append(kvs, &KVStr{key, v})\n")
M("K02", V, "	kvs := make([]*KV, 0, len(keys))\n	for _, key := range keys {\n", "	kvs := make([]*KV, 0, len(keys))\n	for _, key := range keys[:len(keys):len(keys)] {\n		if len(kvs) > 100 {\n			break\n		}\n")
M("K02", V, "	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err := m.persister.Delete(key)\n	if err != nil {\n		simplelog.ErrLogger.Println(\"perister delete key error:\", err)\n	}\n}", "	if _, hit := m.kvDefault[key]; !hit {\n		return\n	}\n	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err := m.persister.Delete(key)\n	if err != nil {\n		simplelog.ErrLogger.Println(\"perister delete key error:\", err)\n	}\n}")
M("K02", V, "	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kvStr[key]\n	if !hit {\n", "	m.kvLock.RLock()\n	v, hit = m.kvStr[key]\n	m.kvLock.RUnlock()\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n	if !hit {\n")
# K03
M("K03", V, "	if err != nil {\n		return err\n	}\n	if key == \"\" {\n		// ignored by UpdateNoPersist, nothing to persist\n		return nil\n	}\n	err2", "	if err != nil && err.Error != \"\" {\n		return err\n	}\n	if key == \"\" {\n		// ignored by UpdateNoPersist, nothing to persist\n		return nil\n	}\n	err2")
M("K03", V, "	err2 := m.persister.Save(key, value)\n", "	if s, _ := m.GetValueString(key); s != value {\n		return nil\n	}\n	err2 := m.persister.Save(key, value)\n")
M("K03", V, "			errors = append(errors, error)\n			continue\n", "			errors = append(errors, error)\n")
M("K03", V, "		okKvStrs = append(okKvStrs, kvStr)\n	}\n", "		okKvStrs = append(okKvStrs, kvStr)\n	}\n	if len(errors) > 0 {\n		return errors\n	}\n")
M("K03", V, "			errors = append(errors, error)\n			continue\n", "			errors = append(errors, error)\n			break\n")
M("K03", V, "m.persister.BatchSave(okKvStrs)", "m.persister.BatchSave(kvStrs)")
M("K03", V, "	return errors\n}", "	if len(okKvStrs) == 0 {\n		return nil\n	}\n	return errors\n}")
M("K03", V, "		simplelog.ErrLogger.Printf(\"error happened when persist key[%s] value[%s]\\n\", key, value)\n", "		return &KVError{Key: key, Value: value, Error: err2.Error()}\n")
# K04
M("K04", V, "	if ok, err := vp.Validate(defaultValue); !ok {\n", "	if ok, err := vp.Validate(defaultValue); !ok && err != \"\" {\n")
M("K04", V, "	if reflect2.IsNil(vp) {\n", "	if vp == nil && !reflect2.IsNil(key) {\n")
M("K04", V, "	m.kvDefaultStr[key] = defaultValue\n\n	m", "	m.kvDefaultStr[key] = fmt.Sprint(m.kvDefault[key])\n\n	m")
M("K04", V, "	m.kvDefault[key] = vp.Convert(defaultValue)\n	m.kvDefaultStr[key] = defaultValue\n\n	m.kvProcessor[key] = vp\n", "	m.kvProcessor[key] = vp\n	m.kvDefault[key] = vp.Convert(defaultValue)\n	if defaultValue != \"\" {\n		m.kvDefaultStr[key] = defaultValue\n	}\n")
M("K04", V, "		return errors.New(fmt.Sprintf(\"key[%s] ValueProcessor duplicated\", key))\n", "		m.kvProcessor[key] = vp\n		return errors.New(fmt.Sprintf(\"key[%s] ValueProcessor duplicated\", key))\n")
M("K04", V, "	if _, hit := m.kvProcessor[key]; hit {\n		return", "	if old, hit := m.kvProcessor[key]; hit && old != vp {\n		return")
# K05
M("K05", V, "func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {\n	m.loadPolicy.DoLoad(m, m.persister)\n", "func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {\n	if key != \"\" {\n		m.loadPolicy.DoLoad(m, m.persister)\n	}\n")
M("K05", V, "	m.loadPolicy.DoLoad(m, m.persister)\n\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kv[key]\n", "	m.kvLock.RLock()\n	v, hit = m.kv[key]\n	m.kvLock.RUnlock()\n	if hit {\n		return v, hit\n	}\n	m.loadPolicy.DoLoad(m, m.persister)\n\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kv[key]\n")
M("K05", L, "	if err != nil {\n		return err\n	}\n	t.lastLoadTs = time.Now()\n	return nil\n", "	t.lastLoadTs = time.Now()\n	return err\n")
M("K05", L, "	now := time.Now()\n", "	now := time.Now()\n	defer func() { t.lastLoadTs = now }()\n")
M("K05", L, "now.Add(-t.minInterval).Before(t.lastLoadTs)", "now.Add(-t.minInterval).Before(t.lastLoadTs) && !t.lastLoadTs.IsZero() || now.Before(t.lastLoadTs)")
M("K05", L, "now.Add(-t.minInterval).Before(t.lastLoadTs)", "now.Add(-t.minInterval/2).Before(t.lastLoadTs)")
M("K05", L, "	if t.minInterval <= 0 {\n", "	if t.minInterval < 0 {\n")
M("K05", L, "	t.loadLock.Lock()\n	defer t.loadLock.Unlock()\n\n	if t", "	if t")
M("K05", L, "	err := p.Load(s)\n	if err != nil {\n		return err\n	}\n	t.lastLoadTs = time.Now()\n	return nil\n", "	err := p.Load(s)\n	if err == nil {\n		t.lastLoadTs = time.Now()\n	}\n	return nil\n")
M("K05", L, "	err := p.Load(s)\n	if err", "	t.loadLock.Unlock()\n	err := p.Load(s)\n	t.loadLock.Lock()\n	if err")
# K06
M("K06 X03", V, "	m.loadPolicy.DoLoad(m, m.persister)\n\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kvStr[key]\n", "	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n	m.loadPolicy.DoLoad(m, m.persister)\n\n	v, hit = m.kvStr[key]\n")
M("K06 X03", V, "	kvs := make([]*KV, 0, len(keys))\n", "	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n	kvs := make([]*KV, 0, len(keys))\n")
M("K06 X03", V, "	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n\n	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err", "	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n	m.kvProcessorLock.RLock()\n	defer m.kvProcessorLock.RUnlock()\n\n	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err")
M("K06", V, "	v := p.Convert(value)\n", "	m.loadPolicy.DoLoad(m, m.persister)\n	v := p.Convert(value)\n")
# benign
B(V, "	m.kvLock.Lock()\n	m.kv[key] = v\n	m.kvStr[key] = value\n	m.kvLock.Unlock()\n	return nil\n}", "	m.set(key, value, v)\n	return nil\n}\n\nfunc (m *defaultImpl) set(key, value string, v interface{}) {\n	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n	m.kvStr[key] = value\n	m.kv[key] = v\n}")
B(V, "	v, hit = m.kv[key]\n	if !hit {\n		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n	return v, hit\n", "	if cur, ok := m.kv[key]; ok {\n		return cur, true\n	}\n	v, hit = m.kvDefault[key]\n	return\n")
B(V, "	kvs := make([]*KV, 0, len(keys))\n	for _, key := range keys {\n		if key == \"\" {\n			continue\n		}\n		v, hit := m.GetValue(key)\n		if !hit {\n			continue\n		}\n		kvs = append(kvs, &KV{key, v})\n	}\n	return kvs\n", "	var kvs = []*KV{}\n	for i := 0; i < len(keys); i++ {\n		if k := keys[i]; k != \"\" {\n			if v, hit := m.GetValue(k); hit {\n				kvs = append(kvs, &KV{Key: k, Value: v})\n			}\n		}\n	}\n	return kvs\n")
BB((V, "", "\n\nfunc (m *defaultImpl) applyAll(kvStrs []*KVStr) ([]*KVError, []*KVStr) {\n	errs := make([]*KVError, 0, len(kvStrs))\n	oks := make([]*KVStr, 0, len(kvStrs))\n	for _, kvStr := range kvStrs {\n		if err := m.UpdateNoPersist(kvStr.Key, kvStr.Value); err != nil {\n			errs = append(errs, err)\n		} else if kvStr.Key != \"\" {\n			oks = append(oks, kvStr)\n		}\n	}\n	return errs, oks\n}\n"), (V, "	errors := make([]*KVError, 0, len(kvStrs))\n	if len(kvStrs) == 0 {\n		return nil\n	}\n\n	okKvStrs := make([]*KVStr, 0, len(kvStrs))\n	for _, kvStr := range kvStrs {\n		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)\n		if error != nil {\n			errors = append(errors, error)\n			continue\n		}\n		if kvStr.Key == \"\" {\n			// ignored by UpdateNoPersist, nothing to persist\n			continue\n		}\n		okKvStrs = append(okKvStrs, kvStr)\n	}\n", "	if len(kvStrs) == 0 {\n		return nil\n	}\n	errors, okKvStrs := m.applyAll(kvStrs)\n"))
B(V, "	err := m.UpdateNoPersist(key, value)\n	if err != nil {\n		return err\n	}\n	if key == \"\" {\n		// ignored by UpdateNoPersist, nothing to persist\n		return nil\n	}\n	err2 := m.persister.Save(key, value)\n	if err2 != nil {\n		simplelog.ErrLogger.Printf(\"error happened when persist key[%s] value[%s]\\n\", key, value)\n	}\n	return nil\n", "	if key == \"\" {\n		return nil\n	}\n	err := m.UpdateNoPersist(key, value)\n	if err == nil {\n		if err2 := m.persister.Save(key, value); err2 != nil {\n			simplelog.ErrLogger.Printf(\"error happened when persist key[%s] value[%s]\\n\", key, value)\n		}\n	}\n	return err\n")
B(V, "	if _, hit := m.kvDefault[key]; hit {\n		return errors.New(fmt.Sprintf(\"key[%s] default value duplicated\", key))\n	}\n\n", "")
B(V, "	if ok, err := vp.Validate(defaultValue); !ok {\n		return errors.New(err)\n	}\n", "	ok, err := vp.Validate(defaultValue)\n	if !ok {\n		return fmt.Errorf(\"%s\", err)\n	}\n")
BB((V, "", "\n\nfunc (m *defaultImpl) checkFree(key string) error {\n	if _, hit := m.kvProcessor[key]; hit {\n		return errors.New(fmt.Sprintf(\"key[%s] ValueProcessor duplicated\", key))\n	}\n	if _, hit := m.kvDefault[key]; hit {\n		return errors.New(fmt.Sprintf(\"key[%s] default value duplicated\", key))\n	}\n	return nil\n}\n"), (V, "	if _, hit := m.kvProcessor[key]; hit {\n		return errors.New(fmt.Sprintf(\"key[%s] ValueProcessor duplicated\", key))\n	}\n\n	if _, hit := m.kvDefault[key]; hit {\n		return errors.New(fmt.Sprintf(\"key[%s] default value duplicated\", key))\n	}\n", "	if err := m.checkFree(key); err != nil {\n		return err\n	}\n"))
B(L, "	if t.minInterval <= 0 {\n		return p.Load(s)\n	}\n\n	now := time.Now()\n	if now.Add(-t.minInterval).Before(t.lastLoadTs) {\n		return nil\n	}\n\n	err := p.Load(s)\n	if err != nil {\n		return err\n	}\n	t.lastLoadTs = time.Now()\n	return nil\n", "	if t.minInterval > 0 && time.Now().Add(-t.minInterval).Before(t.lastLoadTs) {\n		return nil\n	}\n	err := p.Load(s)\n	if err == nil {\n		t.lastLoadTs = time.Now()\n	}\n	return err\n")
B(L, "now.Add(-t.minInterval).Before(t.lastLoadTs)", "now.Sub(t.lastLoadTs) < t.minInterval")
B(L, "	if now.Add(-t.minInterval).Before(t.lastLoadTs) {\n		return nil\n	}\n\n	err := p.Load(s)\n	if err != nil {\n		return err\n	}\n	t.lastLoadTs = time.Now()\n	return nil\n", "	due := !now.Add(-t.minInterval).Before(t.lastLoadTs)\n	if !due {\n		return nil\n	}\n\n	if err := p.Load(s); err != nil {\n		return err\n	}\n	t.lastLoadTs = now\n	return nil\n")
MM("K01", ("confstore/store.go", "	if ok, err := p.Validate(value); !ok {\n", "	v := p.Convert(value)\n	if ok, err := p.Validate(value); !ok {\n"), ("confstore/store.go", "	v := p.Convert(value)\n\n	m.kvLock.Lock()\n", "	m.kvLock.Lock()\n"))
MM("K01", ("confstore/store.go", "	if ok, err := vp.Validate(defaultValue); !ok {\n", "	def := vp.Convert(defaultValue)\n	if ok, err := vp.Validate(defaultValue); !ok {\n"), ("confstore/store.go", "m.kvDefault[key] = vp.Convert(defaultValue)", "m.kvDefault[key] = def"))
BB(("confstore/store.go", "	if ok, err := p.Validate(value); !ok {\n		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: err,\n		}\n	}\n\n	v := p.Convert(value)\n", "	v, reason := convertValid(p, value)\n	if reason != nil {\n		return &KVError{key, value, *reason}\n	}\n"), ("confstore/store.go", "", "\nfunc convertValid(p ValueProcessor, value string) (interface{}, *string) {\n	ok, err := p.Validate(value)\n	if ok {\n		return p.Convert(value), nil\n	}\n	return nil, &err\n}\n"))
