V = "confstore/store.go"
# store: shared helpers
BB((V, "	v, hit = m.kv[key]\n	if !hit {\n		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n	return v, hit\n\n}", "	return pick(m.kv, m.kvDefault, key)\n}\n\nfunc pick(current, def map[string]interface{}, key string) (interface{}, bool) {\n	if v, ok := current[key]; ok {\n		return v, ok\n	}\n	v, ok := def[key]\n	return v, ok\n}"))
BB((V, "	m.kvProcessorLock.Lock()\n	defer m.kvProcessorLock.Unlock()\n\n	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n\n	if _, hit", "	defer m.lockAll()()\n\n	if _, hit"),
   (V, "	m.kvProcessorLock.Lock()\n	defer m.kvProcessorLock.Unlock()\n\n	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n\n	delete(m.kvProcessor, key)", "	unlock := m.lockAll()\n	defer unlock()\n\n	delete(m.kvProcessor, key)"),
   (V, "", "\nfunc (m *defaultImpl) lockAll() func() {\n	m.kvProcessorLock.Lock()\n	m.kvLock.Lock()\n	return func() {\n		m.kvLock.Unlock()\n		m.kvProcessorLock.Unlock()\n	}\n}\n"))
BB((V, "	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n\n	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err := m.persister.Delete(key)\n	if err != nil {\n		simplelog.ErrLogger.Println(\"perister delete key error:\", err)\n	}\n}", "	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n\n	m.dropCurrent(key)\n	m.deletePersisted(key)\n}\n\n// dropCurrent is called with kvLock held\nfunc (m *defaultImpl) dropCurrent(key string) {\n	delete(m.kvStr, key)\n	delete(m.kv, key)\n}\n\nfunc (m *defaultImpl) deletePersisted(key string) {\n	if err := m.persister.Delete(key); err != nil {\n		simplelog.ErrLogger.Println(\"perister delete key error:\", err)\n	}\n}"),
   (V, "	delete(m.kvProcessor, key)\n	delete(m.kv, key)\n	delete(m.kvStr, key)\n	delete(m.kvDefault, key)\n	delete(m.kvDefaultStr, key)\n\n	err := m.persister.Delete(key)\n	if err != nil {\n		simplelog.ErrLogger.Println(\"perister delete key error:\", err)\n	}\n", "	m.dropCurrent(key)\n	delete(m.kvDefaultStr, key)\n	delete(m.kvDefault, key)\n	delete(m.kvProcessor, key)\n\n	m.deletePersisted(key)\n"))
BB((V, "		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: fmt.Sprintf(\"key[%s] not registered\", key),\n		}\n", "		return rejected(key, value, fmt.Sprintf(\"key[%s] not registered\", key))\n"),
   (V, "		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: err,\n		}\n", "		return rejected(key, value, err)\n"),
   (V, "", "\nfunc rejected(key, value, reason string) *KVError {\n	return &KVError{Key: key, Value: value, Error: reason}\n}\n"))
B(V, "	p, hit := m.kvProcessor[key]\n	if !hit {\n		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: fmt.Sprintf(\"key[%s] not registered\", key),\n		}\n	}\n\n	if ok, err := p.Validate(value); !ok {\n		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: err,\n		}\n	}\n\n	v := p.Convert(value)\n\n	m.kvLock.Lock()\n	m.kv[key] = v\n	m.kvStr[key] = value\n	m.kvLock.Unlock()\n	return nil\n", "	reason := fmt.Sprintf(\"key[%s] not registered\", key)\n	if p, hit := m.kvProcessor[key]; hit {\n		ok, err := p.Validate(value)\n		if ok {\n			v := p.Convert(value)\n			m.kvLock.Lock()\n			defer m.kvLock.Unlock()\n			m.kvStr[key] = value\n			m.kv[key] = v\n			return nil\n		}\n		reason = err\n	}\n	return &KVError{Key: key, Value: value, Error: reason}\n")
BB((V, "	v, hit := m.GetValue(key)\n	if !hit {\n		panic(fmt.Sprintf(\"config key[%s] missing\", key))\n	}\n	return v\n", "	v, hit := m.GetValue(key)\n	mustHit(key, hit)\n	return v\n"), (V, "	v, hit := m.GetValueString(key)\n	if !hit {\n		panic(fmt.Sprintf(\"config key[%s] missing\", key))\n	}\n	return v\n", "	v, hit := m.GetValueString(key)\n	mustHit(key, hit)\n	return v\n"),
   (V, "", "\nfunc mustHit(key string, hit bool) {\n	if !hit {\n		panic(fmt.Sprintf(\"config key[%s] missing\", key))\n	}\n}\n"))
BB((V, "	m.loadPolicy.DoLoad(m, m.persister)\n\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kv[key]\n", "	m.refresh()\n\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kv[key]\n"), (V, "	m.loadPolicy.DoLoad(m, m.persister)\n\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kvStr[key]\n", "	m.refresh()\n\n	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kvStr[key]\n"),
   (V, "", "\nfunc (m *defaultImpl) refresh() {\n	if err := m.loadPolicy.DoLoad(m, m.persister); err != nil {\n		simplelog.ErrLogger.Println(\"load error:\", err)\n	}\n}\n"))
B(V, "		v, hit := m.GetValue(key)\n		if !hit {\n			continue\n		}\n		kvs = append(kvs, &KV{key, v})\n", "		if v, hit := m.GetValue(key); hit {\n			kvs = append(kvs, &KV{Key: key, Value: v})\n		}\n")
B(V, "	for _, kvStr := range kvStrs {\n		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)\n		if error != nil {\n			errors = append(errors, error)\n			continue\n		}\n		if kvStr.Key == \"\" {\n			// ignored by UpdateNoPersist, nothing to persist\n			continue\n		}\n		okKvStrs = append(okKvStrs, kvStr)\n	}\n", "	for i := range kvStrs {\n		kvStr := kvStrs[i]\n		switch error := m.UpdateNoPersist(kvStr.Key, kvStr.Value); {\n		case error != nil:\n			errors = append(errors, error)\n		case kvStr.Key != \"\":\n			okKvStrs = append(okKvStrs, kvStr)\n		}\n	}\n")
B(V, "	errors := make([]*KVError, 0, len(kvStrs))\n	if len(kvStrs) == 0 {\n		return nil\n	}\n", "	if len(kvStrs) == 0 {\n		return nil\n	}\n	errors := []*KVError{}\n")
B(V, "	m.kvDefault[key] = vp.Convert(defaultValue)\n	m.kvDefaultStr[key] = defaultValue\n\n	m.kvProcessor[key] = vp\n", "	converted := vp.Convert(defaultValue)\n	m.kvProcessor[key] = vp\n	m.kvDefault[key], m.kvDefaultStr[key] = converted, defaultValue\n")
B(V, "	if key == \"\" {\n		return errors.New(\"key is required\")\n	}\n	if reflect2.IsNil(vp) {\n		return errors.New(\"ValueProcessor is required\")\n	}\n", "	switch {\n	case key == \"\":\n		return errors.New(\"key is required\")\n	case reflect2.IsNil(vp):\n		return errors.New(\"ValueProcessor is required\")\n	}\n")
BB((V, "	kvProcessorLock *sync.RWMutex\n", "	kvProcessorLock sync.RWMutex\n"), (V, "		kvProcessorLock: &sync.RWMutex{},\n", ""))
B(V, "	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kvStr[key]\n	if !hit {\n		v, hit = m.kvDefaultStr[key]\n		return v, hit\n\n	}\n	return v, hit\n", "	m.kvLock.RLock()\n	v, hit = m.kvStr[key]\n	if !hit {\n		v, hit = m.kvDefaultStr[key]\n	}\n	m.kvLock.RUnlock()\n	return\n")
L = "confstore/loader.go"
BB((L, "	if t.minInterval <= 0 {\n		return p.Load(s)\n	}\n\n	now := time.Now()\n	if now.Add(-t.minInterval).Before(t.lastLoadTs) {\n		return nil\n	}\n\n	err := p.Load(s)\n	if err != nil {\n		return err\n	}\n	t.lastLoadTs = time.Now()\n	return nil\n}", "	if !t.due() {\n		return nil\n	}\n\n	err := p.Load(s)\n	if err == nil && t.minInterval > 0 {\n		t.lastLoadTs = time.Now()\n	}\n	return err\n}\n\nfunc (t *defaultLoadPolicy) due() bool {\n	if t.minInterval <= 0 {\n		return true\n	}\n	return !time.Now().Add(-t.minInterval).Before(t.lastLoadTs)\n}"))
B(L, "	if t.minInterval <= 0 {\n		return p.Load(s)\n	}\n\n	now := time.Now()\n	if now.Add(-t.minInterval).Before(t.lastLoadTs) {\n		return nil\n	}\n\n", "	if t.minInterval > 0 {\n		if time.Since(t.lastLoadTs) < t.minInterval {\n			return nil\n		}\n	}\n\n")
B(L, "	err := p.Load(s)\n	if err != nil {\n		return err\n	}\n	t.lastLoadTs = time.Now()\n	return nil\n", "	if err := p.Load(s); err == nil {\n		t.lastLoadTs = time.Now()\n	} else {\n		return err\n	}\n	return nil\n")
B(L, "	if now.Add(-t.minInterval).Before(t.lastLoadTs) {", "	if t.lastLoadTs.Add(t.minInterval).After(now) {")
BB((L, "	loadLock    *sync.Mutex\n", "	sync.Mutex\n"), (L, "		loadLock:    &sync.Mutex{},\n", ""), (L, "	t.loadLock.Lock()\n	defer t.loadLock.Unlock()\n", "	t.Lock()\n	defer t.Unlock()\n"))
P = "confstore/persister.go"
B(P, "	for k, v := range result {\n		kvError := s.UpdateNoPersist(k, v)\n		if kvError != nil {\n", "	for k := range result {\n		if kvError := s.UpdateNoPersist(k, result[k]); kvError == nil {\n			continue\n		} else {\n")
B(P, "	_, error := r.redisClient.HMSet(r.configRootKey, args).Result()\n	if error != nil {\n		return error\n	}\n	return nil\n", "	return r.redisClient.HMSet(r.configRootKey, args).Err()\n")
B(P, "	args := make([]string, 0, 2*len(kvStrs))\n	for _, kvStr := range kvStrs {\n		args = append(args, kvStr.Key)\n		args = append(args, kvStr.Value)\n	}\n	if len(args) == 0 {\n		return nil\n	}\n", "	if len(kvStrs) == 0 {\n		return nil\n	}\n	args := make([]string, 0, 2*len(kvStrs))\n	for _, kvStr := range kvStrs {\n		args = append(args, kvStr.Key, kvStr.Value)\n	}\n")
B(P, "	args := make([]string, 0, 2*len(kvStrs))\n	for _, kvStr := range kvStrs {\n		args = append(args, kvStr.Key)\n		args = append(args, kvStr.Value)\n	}\n", "	args := make([]string, 2*len(kvStrs))\n	for i, kvStr := range kvStrs {\n		args[2*i] = kvStr.Key\n		args[2*i+1] = kvStr.Value\n	}\n")
B(P, "	result, err := r.redisClient.HGetAll(r.configRootKey).Result()\n	if err != nil {\n", "	cmd := r.redisClient.HGetAll(r.configRootKey)\n	result, err := cmd.Val(), cmd.Err()\n	if err != nil {\n")
C = "confstore/procs.go"
BB((C, "	if i.minInclude {\n		if v < i.min {\n			return false, \"not >= \" + strconv.Itoa(i.min)\n		}\n	} else {\n		if v <= i.min {\n			return false, \"not > \" + strconv.Itoa(i.min)\n		}\n	}\n	if i.maxInclude {\n		if v > i.max {\n			return false, \"not <= \" + strconv.Itoa(i.max)\n		}\n	} else {\n		if v >= i.max {\n			return false, \"not < \" + strconv.Itoa(i.max)\n		}\n	}\n	return true, \"\"\n}", "	switch {\n	case v < i.min && i.minInclude:\n		return false, \"not >= \" + strconv.Itoa(i.min)\n	case v <= i.min && !i.minInclude:\n		return false, \"not > \" + strconv.Itoa(i.min)\n	case v > i.max && i.maxInclude:\n		return false, \"not <= \" + strconv.Itoa(i.max)\n	case v >= i.max && !i.maxInclude:\n		return false, \"not < \" + strconv.Itoa(i.max)\n	}\n	return true, \"\"\n}"))
BB((C, "	if i.minInclude {\n		if v < i.min {\n			return false, \"not >= \" + strconv.Itoa(i.min)\n		}\n	} else {\n		if v <= i.min {\n			return false, \"not > \" + strconv.Itoa(i.min)\n		}\n	}\n", "	if v < i.min || v == i.min && !i.minInclude {\n		op := \">\"\n		if i.minInclude {\n			op = \">=\"\n		}\n		return false, \"not \" + op + \" \" + strconv.Itoa(i.min)\n	}\n"))
B(C, "	if value == \"\" {\n		var null *url.URL\n		return null\n	}\n	v, _ := url.ParseRequestURI(value)\n	return v\n", "	var u2 *url.URL\n	if value != \"\" {\n		u2, _ = url.ParseRequestURI(value)\n	}\n	return u2\n")
BB((C, "	\"regexp\"\n", ""), (C, "	match, error := regexp.MatchString(\"^#[a-fA-F0-9]{6}$\", value)\n	if error != nil {\n		return false, error.Error()\n	}\n	if !match {\n		return false, \"not css color hex value\"\n	}\n	return true, \"\"\n", "	if len(value) != 7 || value[0] != '#' {\n		return false, \"not css color hex value\"\n	}\n	for i := 1; i < len(value); i++ {\n		c := value[i]\n		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {\n			return false, \"not css color hex value\"\n		}\n	}\n	return true, \"\"\n"))
E = "event/bus.go"
BB((E, "		b.recvMapLock.RLock()\n		for _, recv := range b.recvMap {\n			recv.onEvent(event)\n		}\n		b.recvMapLock.RUnlock()\n", "		b.offer(event)\n"), (E, "", "\nfunc (b *FanOutBus) offer(event interface{}) {\n	b.recvMapLock.RLock()\n	defer b.recvMapLock.RUnlock()\n	for name := range b.recvMap {\n		b.recvMap[name].onEvent(event)\n	}\n}\n"))
B(E, "	for event := range b.ch {\n		b.recvMapLock.RLock()", "	for {\n		event, ok := <-b.ch\n		if !ok {\n			return\n		}\n		b.recvMapLock.RLock()")
BB((E, "	switch r.strategy {\n	case Drop:\n		select {\n		case r.ch <- v:\n		default:\n			log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n		}\n	case Block:\n		select {\n		case r.ch <- v:\n		case <-r.done:\n		case <-r.bus.done:\n		}\n	}\n}", "	if r.strategy == Drop {\n		r.tryOffer(v)\n		return\n	}\n	if r.strategy == Block {\n		r.offerBlocking(v)\n	}\n}\n\nfunc (r *Receiver) tryOffer(v interface{}) {\n	select {\n	case r.ch <- v:\n		return\n	default:\n	}\n	log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n}\n\nfunc (r *Receiver) offerBlocking(v interface{}) {\n	select {\n	case <-r.bus.done:\n	case <-r.done:\n	case r.ch <- v:\n	}\n}"))
BB((E, "		recv.closed = true\n		close(recv.ch)\n		delete(b.recvMap, name)\n", "		b.finish(name, recv)\n"), (E, "	recv.closed = true\n	close(recv.ch)\n	if b.recvMap[recv.name] == recv {\n		// may have been replaced by another Receiver with the same name\n		delete(b.recvMap, recv.name)\n	}\n}", "	b.finish(recv.name, recv)\n}\n\n// finish is called with recvMapLock held\nfunc (b *FanOutBus) finish(name string, recv *Receiver) {\n	recv.closed = true\n	close(recv.ch)\n	if b.recvMap[name] == recv {\n		delete(b.recvMap, name)\n	}\n}"))
B(E, "	data = make([]interface{}, 0, 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:\n			break drained\n		}\n	}\n	return data\n", "	data = []interface{}{}\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				return data\n			}\n			data = append(data, d)\n		default:\n			return data\n		}\n	}\n")
B(E, "	timer := time.NewTimer(timeout)\n	defer timer.Stop()\n	data = make([]interface{}, 0, 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		case <-timer.C:\n			break drained\n		}\n	}\n	return\n", "	expired := time.After(timeout)\n	open := true\n	for open {\n		select {\n		case <-expired:\n			open = false\n		case d, ok := <-r.C:\n			if ok {\n				data = append(data, d)\n			}\n			open = ok\n		}\n	}\n	return data\n")
B(E, "	b.recvMapLock.Lock()\n	b.recvMap[name] = recv\n	b.recvMapLock.Unlock()\n\n	return recv\n", "	b.register(recv)\n	return recv\n}\n\nfunc (b *FanOutBus) register(recv *Receiver) {\n	b.recvMapLock.Lock()\n	defer b.recvMapLock.Unlock()\n	b.recvMap[recv.name] = recv\n")
# limiters
F = "ratelimiter/fixedwindow.go"
W = "ratelimiter/slidingwindow.go"
K = "ratelimiter/tokenbucket.go"
