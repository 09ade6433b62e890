# Language corners: value receivers, runes and bytes, defers and named results, shadowing, shifts, aliasing.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


CB, S, FW, SW, TB = "circuitbreaker/circuitbreaker.go", "concurrent/sema.go", "ratelimiter/fixedwindow.go", "ratelimiter/slidingwindow.go", "ratelimiter/tokenbucket.go"
# methods on a copy
M("X02", CB, "func (s *SyncCircuitBreaker) state() state {", "func (s SyncCircuitBreaker) state() state {")
M("B02", CB, "func (s *SyncCircuitBreaker) recordFailure() {", "func (s SyncCircuitBreaker) recordFailure() {")
M("C01", S, "func (s *LockSemaphore) TryAcquire() bool {", "func (s LockSemaphore) TryAcquire() bool {")
M("R01", FW, "func (s *SyncFixedWindow) reset(ts int64) {", "func (s SyncFixedWindow) reset(ts int64) {")
M("R03", SW, "func (s *SyncSlidingWindow) UpdateConfig(", "func (s SyncSlidingWindow) UpdateConfig(")
B(S, "func (s *LockSemaphore) isFull() bool {\n	return s.count >= s.permits\n}", "func (s *LockSemaphore) isFull() bool {\n	c := counts{s.count, s.permits}\n	return c.full()\n}\n\ntype counts struct{ used, all int64 }\n\nfunc (c counts) full() bool { return c.used >= c.all }")
# the copy of a struct is changed
M("C01", S, "	s.count++\n	return true\n", "	c := *s\n	c.count++\n	return true\n")
M("R05", TB, "	t.lastIssueTimestamp = now\n}\n\n// TokenBucket", "	u := *t\n	u.lastIssueTimestamp = now\n}\n\n// TokenBucket")
# shadowing
M("R01", FW, "		n := (ts - s.until - 1) /s.windowSize + 1\n		s.until += n * s.windowSize\n", "		s := *s\n		n := (ts - s.until - 1) /s.windowSize + 1\n		s.until += n * s.windowSize\n")
M("K02", "confstore/store.go", "	v, hit = m.kv[key]\n	if !hit {\n		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n	return v, hit\n", "	v, hit = m.kv[key]\n	if !hit {\n		v, hit := m.kvDefault[key]\n		_ = v\n		_ = hit\n	}\n	return v, hit\n")
M("K03", "confstore/store.go", "	err := m.UpdateNoPersist(key, value)\n	if err != nil {\n		return err\n	}\n", "	var err *KVError\n	if key != \"\" {\n		err := m.UpdateNoPersist(key, value)\n		_ = err\n	}\n	if err != nil {\n		return err\n	}\n")
# integer arithmetic
M("R01", FW, "(ts - s.until - 1) /s.windowSize + 1", "(ts - s.until + s.windowSize) / s.windowSize")
M("R01", FW, "(ts - s.until - 1) /s.windowSize + 1", "int64(int32((ts - s.until - 1) /s.windowSize)) + 1")
M("R01", FW, "(ts - s.until - 1) /s.windowSize + 1", "(ts-s.until-1)>>uint(s.windowSize&63) + 1")
B(FW, "		n := (ts - s.until - 1) /s.windowSize + 1\n		s.until += n * s.windowSize\n", "		rest := (ts - s.until) % s.windowSize\n		if rest != 0 {\n			rest -= s.windowSize\n		}\n		s.until = ts - rest\n")
M("R05", TB, "delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)\n\n	if", "delta := int64(float32(elapse) / float32(time.Second) * float32(t.issueRatePerSecond))\n\n	if")
M("R05", TB, "	t.tokens += int(delta)\n", "	t.tokens = int(uint32(t.tokens + int(delta)))\n")
M("R05", TB, "	t.tokens += int(delta)\n", "	t.tokens |= int(delta)\n")
M("R05", TB, "	t.tokens += int(delta)\n", "	t.tokens += int(int16(delta))\n")
M("R02", SW, "	if now-int64(oldest) > s.windowSize {\n", "	if uint64(now-int64(oldest)) > uint64(s.windowSize) {\n")
M("R02", SW, "	if now-int64(oldest) > s.windowSize {\n", "	if (now-int64(oldest))/1000 > s.windowSize/1000-1 {\n")
M("B02", CB, "(now.UnixNano()-s.lastFailureTs) > s.resetTimeout", "int32(now.UnixNano()-s.lastFailureTs) > int32(s.resetTimeout)")
M("B02", CB, "(now.UnixNano()-s.lastFailureTs) > s.resetTimeout", "now.UnixNano() > s.lastFailureTs|s.resetTimeout")
M("B02", CB, "		failureThreshold: failureThreshold,\n", "		failureThreshold: int(int8(failureThreshold)),\n")
# text and bytes
SG = "conf/string.go"
M("F03", SG, "	bs := []byte(path)\n	rs := make([]byte, 0, len(bs))\n\n	prevDot := true\n	for i := 0; i < len(bs); i++ {\n		b := bs[i]\n		if isUpperASCII(b) {\n			if !prevDot {\n				rs = append(rs, '-')", "	bs := []rune(path)\n	rs := make([]byte, 0, len(bs))\n\n	prevDot := true\n	for i := 0; i < len(bs); i++ {\n		b := byte(bs[i])\n		if isUpperASCII(b) {\n			if !prevDot {\n				rs = append(rs, '-')")
M("F03", SG, "	bs := []byte(path)\n	rs := make([]byte, 0, len(bs))\n\n	prevDot := true\n	for i := 0; i < len(bs); i++ {\n		b := bs[i]\n		if isUpperASCII(b) {\n			if !prevDot {\n				rs = append(rs, '-')", "	rs := make([]byte, 0, len(path))\n\n	prevDot := true\n	for _, c := range path {\n		b := byte(c)\n		if isUpperASCII(b) {\n			if !prevDot {\n				rs = append(rs, '-')")
M("K01", "confstore/store.go", "	m.kvStr[key] = value\n	m.kvLock.Unlock()", "	m.kvStr[key] = string([]rune(value))\n	m.kvLock.Unlock()")
M("K08", "confstore/persister.go", "		args = append(args, kvStr.Value)\n", "		args = append(args, string([]rune(kvStr.Value)))\n")
B("confstore/persister.go", "		args = append(args, kvStr.Value)\n", "		args = append(args, string([]byte(kvStr.Value)))\n")
M("N06", "confs/postgresql.go", "		val = strings.TrimSpace(val)\n", "		val = strings.ToValidUTF8(val, \"\")\n")
M("P02", "util/rsa/util.go", "	pemByte := []byte(pem)\n	return ReadPrivateKeyBytes(pemByte)", "	pemByte := []byte(strings.ToUpper(pem))\n	return ReadPrivateKeyBytes(pemByte)")
# defers and named results
ST = "confstore/store.go"
M("K02", ST, "func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {\n", "func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {\n	defer func() { hit = hit && v != \"\" }()\n")
B(ST, "func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {\n", "func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {\n	defer func() { hit = hit == true }()\n")
M("K03", ST, "	err2 := m.persister.Save(key, value)\n", "	defer func() { recover() }()\n	defer m.persister.Save(key, key)\n	err2 := error(nil)\n")
M("B02", CB, "		if err := task(); err != nil {\n			s.recordFailure()\n			onError(err)\n", "		if err := task(); err != nil {\n			onError(err)\n			s.recordFailure()\n")
M("W01", "skywalking/fasthttp-routing/middleware.go", "		SetSwContext(rCtx, spanCtx)\n", "		SetSwContext(rCtx, spanCtx)\n		defer span.End()\n")
M("W02", "skywalking/fasthttp-routing/middleware.go", "	return func(rCtx *routing.Context) error {\n\n		swContext", "	return func(rCtx *routing.Context) (res error) {\n		defer func() {\n			if rCtx.Response.StatusCode() >= 500 {\n				res = nil\n			}\n		}()\n\n		swContext")
M("S03", "schedule/task.go", "	defer cancel()\n\n	fin", "	defer func() { recover() }()\n	cancel = func() {}\n	defer cancel()\n\n	fin")
# aliasing
M("X06", ST, "	okKvStrs := make([]*KVStr, 0, len(kvStrs))\n", "	okKvStrs := kvStrs[:0]\n")
M("X06", "confs/fasthttpclient.go", "	if customizer != nil {\n		customizer(client)\n	}\n", "	if customizer != nil {\n		customizer(client)\n	}\n	hcConf.MaxConnsPerHost = client.MaxConnsPerHost\n")
M("K09", "confstore/procs.go", "	m := make(map[string]bool, len(enums))\n	for _, enum := range enums {\n		m[enum] = true\n	}\n", "	m := make(map[string]bool, len(enums))\n	for i := range enums[:len(enums)/2] {\n		m[enums[i]], m[enums[len(enums)-1-i]] = true, true\n	}\n")
B("confstore/procs.go", "	for _, enum := range enums {\n		m[enum] = true\n	}\n", "	for i := len(enums); i > 0; i-- {\n		m[enums[i-1]] = true\n	}\n")
M("E04", "event/bus.go", "	data = make([]interface{}, 0, 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:", "	data = make([]interface{}, 1, 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:")
M("E04", "event/bus.go", "			data = append(data, d)\n		default:", "			_ = append(data, d)\n		default:")
M("K08", "confstore/persister.go", "	args := make([]string, 0, 2*len(kvStrs))\n", "	args := make([]string, len(kvStrs), 2*len(kvStrs))\n")
# loops that share their variable (the module is at go 1.14)
M("S06", "schedule/task_manager.go", "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n", "	for _, task := range m.taskMap {\n		defer func() { task.Stop() }()\n	}\n")
M("K02", ST, "		v, hit := m.GetValue(key)\n		if !hit {\n			continue\n		}\n		kvs = append(kvs, &KV{key, v})\n	}\n	return kvs\n", "		v, hit := m.GetValue(key)\n		if !hit {\n			continue\n		}\n		defer func() { kvs = append(kvs, &KV{key, v}) }()\n	}\n	return kvs\n")
# switches
M("E01", "event/bus.go", "	switch r.strategy {\n	case Drop:\n		select {\n		case r.ch <- v:\n		default:\n			log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n		}\n", "	switch r.strategy {\n	case Drop:\n		select {\n		case r.ch <- v:\n		default:\n			log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n		}\n		fallthrough\n")
M("K09", "confstore/procs.go", "	if i.maxInclude {\n		if v > i.max {\n			return false, \"not <= \" + strconv.Itoa(i.max)\n		}\n	} else {\n", "	if i.maxInclude {\n		switch {\n		case v > i.max:\n			break\n		}\n	} else {\n")
# comparing and formatting
M("R08", "ratelimiter/ttl_ratelimiter_redis.go", "	result.Triggered = arr[1].(int64) == 1\n	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock2Context", "	result.Triggered = arr[1] == interface{}(1)\n	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock2Context")
M("R08", "ratelimiter/ttl_ratelimiter_redis.go", "	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock2Context", "	result.Ttl = int(int16(arr[2].(int64)))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock2Context")
M("N02", "confs/mysql.go", "fmt.Sprintf(\"%s:%d\", conf.Host, conf.Port)", "fmt.Sprintf(\"%s:%x\", conf.Host, conf.Port)")
M("N02", "confs/mysql.go", "fmt.Sprintf(\"%s:%d\", conf.Host, conf.Port)", "fmt.Sprintf(\"%.255s:%d\", conf.Host, conf.Port)")
M("N02", "confs/redis.go", "rc.Host + \":\" + strconv.Itoa(rc.Port)", "rc.Host + \":\" + strconv.Itoa(int(uint16(rc.Port)))")
M("N02", "confs/redis.go", "rc.Host + \":\" + strconv.Itoa(rc.Port)", "rc.Host + \":\" + strconv.Itoa(rc.Port)[:1] + string(rune(rc.Port))")
M("N02", "confs/postgresql.go", "strconv.Itoa(conf.ConnectTimeout)", "strconv.FormatInt(int64(conf.ConnectTimeout), 16)")
M("R08", "ratelimiter/ttl_ratelimiter_redis.go", "now := time.Now().UnixNano() / int64(time.Second)", "now := int32(time.Now().Unix())")
B("ratelimiter/ttl_ratelimiter_redis.go", "now := time.Now().UnixNano() / int64(time.Second)", "now := time.Now().Unix()")
# locks by value and by name
M("X02", "ratelimiter/slidingwindow.go", "func (s *SyncSlidingWindow) Capacity() int {\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n", "func (s *SyncSlidingWindow) Capacity() int {\n	lock := s.lock\n	lock.RLock()\n	defer lock.RUnlock()\n")
B("ratelimiter/slidingwindow.go", "func (s *SyncSlidingWindow) Capacity() int {\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n", "func (s *SyncSlidingWindow) Capacity() int {\n	lock := s.lock.RLocker()\n	lock.Lock()\n	defer lock.Unlock()\n")
MM("X02", ("concurrent/sema.go", "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.isFull() {\n		return false\n	}\n	s.count++\n", "	var lock sync.Mutex\n	lock.Lock()\n	defer lock.Unlock()\n	if s.isFull() {\n		return false\n	}\n	s.count++\n"))
