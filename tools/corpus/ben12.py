# Quiet changes, each guessed from the text of a property.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


FW = "ratelimiter/fixedwindow.go"
# a window begins when it is first used, so that windows drift apart from one another
M("R01", FW, "		n := (ts - s.until - 1) /s.windowSize + 1\n		s.until += n * s.windowSize\n", "		if s.until += s.windowSize; s.until < ts-s.windowSize {\n			s.until = ts\n		}\n")
# the count survives when the clock is much later
M("R01", FW, "	s.count = 0\n}", "	if s.until-ts < s.windowSize {\n		s.count = 0\n	}\n}")
M("R01", FW, "	if s.count < s.capacity {\n		s.count++\n", "	if s.count < s.capacity {\n		if s.until != now {\n			s.count++\n		}\n")
M("R01 X02", FW, "func (s *SyncFixedWindow) WindowSize() time.Duration {\n", "func (s *SyncFixedWindow) WindowSize() time.Duration {\n	s.reset(s.nowFn().UnixNano())\n")

BU = "event/bus.go"
# a receiver made again under the same name goes on with the old channel
M("E01 E02", BU, "	b.recvMapLock.Lock()\n	b.recvMap[name] = recv\n	b.recvMapLock.Unlock()\n", "	b.recvMapLock.Lock()\n	if old := b.recvMap[name]; old != nil && !old.closed {\n		recv = old\n	} else {\n		b.recvMap[name] = recv\n	}\n	b.recvMapLock.Unlock()\n")
M("E01", BU, "		for _, recv := range b.recvMap {\n			recv.onEvent(event)\n		}\n", "		for _, recv := range b.recvMap {\n			if recv.onEvent(event); recv.strategy == Block {\n				break\n			}\n		}\n")
M("E01", BU, "	for event := range b.ch {\n", "	for event := range b.ch {\n		if event == nil {\n			continue\n		}\n")
M("E03", BU, "	r.doneOnce.Do(func() { close(r.done) })\n	r.bus.deregisterRecv(r)\n", "	r.doneOnce.Do(func() {\n		close(r.done)\n		r.bus.deregisterRecv(r)\n	})\n	r.Drain()\n")
M("E03", BU, "	r.doneOnce.Do(func() { close(r.done) })\n", "	if r.strategy == Drop {\n		r.doneOnce.Do(func() { close(r.done) })\n	}\n")
M("E03", BU, "	close(b.ch)\n	close(b.done)\n	b.recvMapLock.Lock()\n", "	close(b.ch)\n	b.recvMapLock.Lock()\n	close(b.done)\n")
M("E04", BU, "			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		case <-timer.C:", "			if !ok || d == nil {\n				break drained\n			}\n			data = append(data, d)\n		case <-timer.C:")
M("E04", BU, "		case <-timer.C:\n			break drained\n", "		case <-timer.C:\n			return append(data, r.Drain()...)[:len(data)]\n")
M("E02 X05", BU, "	if b.recvMap[recv.name] == recv {\n", "	if old := b.recvMap[recv.name]; old == recv || old.closed {\n")

D, X, T, TM = "schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go", "schedule/task.go", "schedule/task_manager.go"
# a stop that comes while the job ends is not seen until the next run
M("S03", T, "	case <-t.stopSig:\n		cancel()\n		<-fin\n	case <-fin:\n		// job normally finished\n	}\n", "	case <-t.stopSig:\n		<-fin\n		cancel()\n	case <-fin:\n		// job normally finished\n	}\n")
M("S03", T, "context.WithTimeout(context.Background(), t.timeout)", "context.WithTimeout(context.Background(), t.timeout+t.interval/2)")
M("S03", T, "		close(fin)\n\n		if err", "		if nextNo > 0 {\n			defer close(fin)\n		}\n\n		if err")
M("S02", D, "	time.AfterFunc(t.interval, func() {", "	time.AfterFunc(t.interval-t.interval/1000, func() {")
M("S02", D, "			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n", "			no := t.nextNo()\n			t.runJob(no)\n			if no%2 == 0 {\n				go t.appendJobQueue()\n			} else {\n				go t.appendJobQueueFuture()\n			}\n")
M("S05", X, "			go t.runJob(t.nextNo())\n", "			if no := t.nextNo(); no > 1 {\n				go t.runJob(no)\n			} else {\n				t.runJob(no)\n			}\n")
M("S05", X, "time.NewTicker(t.interval)", "time.NewTicker(t.interval + t.interval%time.Millisecond)")
M("S04", X, "		case <-t.ticker.C:\n			if !t.appendJobQueue() {\n				return\n			}\n", "		case <-t.ticker.C:\n			if !t.appendJobQueue() {\n				return\n			}\n			for len(t.ticker.C) > 0 {\n				<-t.ticker.C\n			}\n")
M("S01", T, "	t.status = stopped\n	close(t.stopSig)\n", "	close(t.stopSig)\n	if t.no > 0 {\n		t.status = stopped\n	}\n")
M("S06", TM, "	task.Stop()\n	delete(m.taskMap, name)\n", "	if task.Stop() == nil {\n		delete(m.taskMap, name)\n	}\n")
M("S06", TM, "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n\n	m.taskMap = make(map[string]Task, 10)\n", "	for name, task := range m.taskMap {\n		task.Stop()\n		delete(m.taskMap, task.Name())\n		_ = name\n	}\n")
M("S06", TM, "	if _, hit := m.taskMap[task.Name()]; hit {", "	if old, hit := m.taskMap[task.Name()]; hit && old != task {")

L = "confstore/loader.go"
M("K05", L, "	if now.Add(-t.minInterval).Before(t.lastLoadTs) {", "	if now.Sub(t.lastLoadTs).Round(time.Second) < t.minInterval {")
M("K05", L, "	t.lastLoadTs = time.Now()\n", "	t.lastLoadTs = now.Truncate(t.minInterval)\n")
M("K05", L, "	if t.minInterval <= 0 {\n", "	if t.minInterval <= time.Millisecond {\n")

ST = "confstore/store.go"
M("K02", ST, "	if !hit {\n		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n", "	if !hit || v == nil {\n		v, hit = m.kvDefault[key]\n		return v, hit\n	}\n")
M("K02", ST, "	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err := m.persister.Delete(key)\n", "	if m.kvStr[key] == m.kvDefaultStr[key] {\n		return\n	}\n	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err := m.persister.Delete(key)\n")
M("K01", ST, "	v := p.Convert(value)\n\n	m.kvLock.Lock()\n", "	if value == m.kvDefaultStr[key] {\n		return nil\n	}\n	v := p.Convert(value)\n	m.kvLock.Lock()\n")
M("K03", ST, "	if err := m.persister.BatchSave(okKvStrs); err != nil {", "	if len(errors) > len(okKvStrs) {\n		return errors\n	}\n	if err := m.persister.BatchSave(okKvStrs); err != nil {")
M("K04", ST, "	if ok, err := vp.Validate(defaultValue); !ok {\n		return errors.New(err)\n	}\n\n	m.kvDefault", "	if ok, err := vp.Validate(defaultValue); !ok && err != \"\" {\n		return errors.New(err)\n	}\n\n	m.kvDefault")
M("K06", ST, "	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n\n	v, hit = m.kv[key]\n", "	m.kvLock.RLock()\n	defer m.kvLock.RUnlock()\n	m.kvProcessorLock.RLock()\n	defer m.kvProcessorLock.RUnlock()\n	v, hit = m.kv[key]\n")

PS = "confstore/persister.go"
M("K08", PS, "	for k, v := range result {\n", "	for k, v := range result {\n		if v == \"\" {\n			continue\n		}\n")
M("K08", PS, "			simplelog.StdLogger.Printf(\"warning: load key[%s] value[%s] error: %s\\n\", kvError.Key, kvError.Value, kvError.Error)\n", "			simplelog.StdLogger.Printf(\"warning: load key[%s] value[%s] error: %s\\n\", kvError.Key, kvError.Value, kvError.Error)\n			r.Delete(k)\n")

PR = "confstore/procs.go"
M("K09", PR, "	ok = len(value) >= s.minLength && len(value) <= s.maxLength\n", "	n := len([]rune(value))\n	ok = n >= s.minLength && n <= s.maxLength\n")
M("K09 K07", PR, "	_, e := time.ParseDuration(value)\n	if e != nil {\n", "	_, e := time.ParseDuration(strings.TrimSpace(value))\n	if e != nil {\n")
M("K09", PR, "^#[a-fA-F0-9]{6}$", "(?m)^#[a-fA-F0-9]{6}$")
M("K09", PR, "	if value != \"true\" && value != \"false\" {\n", "	if _, e := strconv.ParseBool(value); e != nil {\n")

RS = "util/rsa/util.go"
M("P02", RS, "strings.Index(pemStr, \"-----BEGIN\") == -1 || strings.Index(pemStr, \"-----END\") == -1", "!strings.HasPrefix(pemStr, \"-----BEGIN\") || strings.Index(pemStr, \"-----END\") == -1")
M("P02", RS, "	if block.Type != \"PUBLIC KEY\" {", "	if !strings.HasSuffix(block.Type, \"PUBLIC KEY\") {")
M("P01", RS, "	rsaPub, ok := pub.(*rsa.PublicKey)\n	if !ok {", "	rsaPub, ok := pub.(*rsa.PublicKey)\n	if !ok || rsaPub.N.BitLen() < 512 {")
M("P03", RS, "x509.MarshalPKIXPublicKey(&privateKey.PublicKey)", "x509.MarshalPKIXPublicKey(rsa.PublicKey{N: privateKey.N, E: 65537})")

TB = "ratelimiter/tokenbucket.go"
M("R05", TB, "	t.tokens += int(delta)\n	if t.tokens > t.capacity {\n		t.tokens = t.capacity\n	}\n\n	t.lastIssueTimestamp = now\n", "	t.tokens += int(delta)\n	if t.tokens > t.capacity {\n		t.tokens = t.capacity\n		return\n	}\n	t.lastIssueTimestamp = now\n")
M("R05", TB, "		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {\n			continue\n", "		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {\n			return\n")
M("R04", TB, "			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {\n				return\n			}\n", "			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {\n				return\n			}\n			atomic.StoreInt64(&t.tokens, newTokens)\n			return\n")

SW = "ratelimiter/slidingwindow.go"
M("R03", SW, "	s.capacity = capacity\n	s.windowSize = int64(windowSize)\n", "	s.capacity = capacity\n	if windowSize > 0 {\n		s.windowSize = int64(windowSize)\n	}\n")
M("R03", SW, "	for s.records.Len() > 0 && s.records.Len() > capacity {\n", "	if windowSize > time.Duration(s.windowSize) {\n		s.records.Init()\n	}\n	for s.records.Len() > 0 && s.records.Len() > capacity {\n")
M("R02", SW, "	if now-int64(oldest) > s.windowSize {\n", "	if d := now - int64(oldest); d > s.windowSize || d < 0 {\n")
M("R02", SW, "		s.records.Remove(oldestV)\n		s.records.PushBack(now)\n", "		for e := s.records.Front(); e != nil && now-e.Value.(int64) > s.windowSize; e = s.records.Front() {\n			s.records.Remove(e)\n		}\n		s.records.PushFront(now)\n")

S = "concurrent/sema.go"
M("C02", S, "	s.count--\n	s.notFull.Broadcast()\n", "	if s.count--; s.count == 0 {\n		s.notFull.Broadcast()\n	}\n")
M("C01", S, "	return s.count >= s.permits\n", "	return s.permits > 0 && s.count >= s.permits\n")
M("C01", S, "make(chan int, permits)", "make(chan int, permits|1)")
M("C02", S, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.isFull() {\n		return false\n	}\n", "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.isFull() {\n		s.notFull.Wait()\n	}\n	if s.isFull() {\n		return false\n	}\n")

CB = "circuitbreaker/circuitbreaker.go"
M("B02", CB, "	s.failures = 0\n", "	s.failures /= 2\n")
M("B02", CB, "	s.failures++\n	s.lastFailureTs = s.nowFn().UnixNano()\n", "	if s.failures++; s.failures <= s.failureThreshold {\n		s.lastFailureTs = s.nowFn().UnixNano()\n	}\n")
M("B01", CB, "	if err := task(); err != nil {\n		onError(err)\n	}\n}", "	if err := task(); err != nil && onError != nil {\n		onError(err)\n	} else {\n		onOpen()\n	}\n}")
M("B02", CB, "	now := s.nowFn()\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n", "	s.lock.RLock()\n	defer s.lock.RUnlock()\n	now := s.nowFn().Truncate(time.Duration(s.resetTimeout) + 1)\n")

H = "skywalking/redis/hook.go"
BP = src(H, "func (h *tracerHook) BeforeProcess(")
M("W01", H, "	cmdErr := cmd.Err()\n	if cmdErr != nil {", "	cmdErr := cmd.Err()\n	if cmdErr == context.Canceled {\n		return nil\n	}\n	if cmdErr != nil {")
M("W01", H, "	span, _ := ctx.Value(h).(go2sky.Span)\n	if span == nil {\n		return nil\n	}\n\n	errs", "	span, _ := ctx.Value(h).(go2sky.Span)\n	if span == nil || len(cmds) == 0 {\n		return nil\n	}\n\n	errs")
M("W02", H, "		return obj.Name()\n", "		obj.SetErr(nil)\n		return obj.Name()\n")
M("W03", H, "	if h.opts.reportArgs {\n		span.Tag(go2sky.TagDBStatement, cmd.String())\n", "	if h.opts.reportArgs || h.opts.logError {\n		span.Tag(go2sky.TagDBStatement, cmd.String())\n")
M("W03", H, "			span.Error(now, errs)\n		} else {\n			span.Error(now)\n", "			span.Error(now, errs)\n		} else {\n			span.Error(now, errs[:strings.IndexByte(errs+\"|\", '|')])\n")
M("W01", H, "context.WithValue(nCtx, h, span), nil\n\n}", "context.WithValue(nCtx, h.opts, span), nil\n\n}")
CS = "skywalking/fasthttp/client_span.go"
M("W01", CS, "	span.Tag(go2sky.TagStatusCode, strconv.Itoa(res.StatusCode()))\n	span.End()\n", "	span.Tag(go2sky.TagStatusCode, strconv.Itoa(res.StatusCode()))\n	if !res.ConnectionClose() {\n		span.End()\n	}\n")
M("W03", CS, "		if fc.options.log4xxBody {\n", "		if fc.options.log4xxBody || len(res.Body()) < 64 {\n")
M("W04", CS, "		reqHeader.Set(headerKey, headerValue)\n", "		if len(reqHeader.Peek(headerKey)) == 0 {\n			reqHeader.Set(headerKey, headerValue)\n		}\n")
M("W03", CS, "	if res.StatusCode() >= 400 {\n", "	if res.StatusCode() >= 400 && res.StatusCode() < 600 {\n")
M("W02", CS, "	if err != nil {\n		return\n	}\n	span.SetComponent", "	if err != nil {\n		req.Header.SetConnectionClose()\n		return\n	}\n	span.SetComponent")
MW = "skywalking/fasthttp-routing/middleware.go"
M("W01", MW, "		nextErr := rCtx.Next()\n", "		nextErr := rCtx.Next()\n		if nextErr == routing.NewHTTPError(404) {\n			return nextErr\n		}\n")
M("W02", MW, "		return nextErr\n", "		if nextErr == nil {\n			return err\n		}\n		return nextErr\n")
M("W04", MW, "			return string(rCtx.Request.Header.Peek(key)), nil\n", "			return string(rCtx.Request.Header.Cookie(key)), nil\n")
M("W04", MW, "		SetSwContext(rCtx, spanCtx)\n\n		nextErr := rCtx.Next()\n", "		nextErr := rCtx.Next()\n		SetSwContext(rCtx, spanCtx)\n")
M("W03", MW, "			if options.logError {\n				span.Error(time.Now(), err.Error())\n", "			if options.logError || options.log4xxBody {\n				span.Error(time.Now(), err.Error())\n")

MY, PG, HC, PP, RD = ("confs/%s.go" % n for n in ("mysql", "postgresql", "fasthttpclient", "pprof", "redis"))
M("N02", MY, "	mc.ReadTimeout = conf.ReadTimeout\n", "	mc.ReadTimeout = conf.ReadTimeout\n	if mc.ReadTimeout < mc.Timeout {\n		mc.ReadTimeout = mc.Timeout\n	}\n")
M("N02", MY, "	mc.Addr = fmt.Sprintf(\"%s:%d\", conf.Host, conf.Port)\n", "	mc.Addr = fmt.Sprintf(\"%s:%d\", strings.ToLower(conf.Host), conf.Port)\n")
M("N02", MY, "			mc.Params[p[0]] = unescape\n", "			if _, hit := mc.Params[p[0]]; !hit {\n				mc.Params[p[0]] = unescape\n			}\n")
M("N02", MY, "			unescape, err := url.QueryUnescape(p[1])", "			unescape, err := url.PathUnescape(p[1])")
M("N07", MY, "	if customizer != nil {\n		customizer(mc)\n	}\n	return mc\n", "	if customizer != nil {\n		customizer(mc)\n	}\n	return mc.Clone()\n")
M("N05", MY, "	db.SetMaxIdleConns(conf.MaxIdleConns)\n", "	if conf.MaxIdleConns < conf.MaxOpenConns {\n		db.SetMaxIdleConns(conf.MaxIdleConns)\n	}\n")
M("N06", PG, "	ret = strings.TrimRight(ret, \"&\")\n", "	ret = strings.TrimRight(ret, \"?&=\")\n")
M("N06", PG, "url.PathEscape(conf.Database)", "conf.Database")
M("N06", PG, "url.QueryEscape(key), url.QueryEscape(val)", "url.QueryEscape(key), url.PathEscape(val)")
M("N01", PG, "		return urlErr.Err\n", "		return fmt.Errorf(\"%s: %w\", urlErr.URL, urlErr.Err)\n")
M("N01", MY, "	simplelog.StdLogger.Printf(\"Connected to MySQL: %s:%d\", conf.Host, conf.Port)\n	return db\n", "	simplelog.StdLogger.Printf(\"Connected to MySQL: %s:%d %v\", conf.Host, conf.Port, mc)\n	return db\n")
M("N03", HC, "	if tlsConfigured {\n		client.TLSConfig = tlsConfig\n", "	if tlsConfigured && len(tlsConfig.Certificates)+len(hcConf.SslTrustCerts) > 0 {\n		client.TLSConfig = tlsConfig\n")
M("N03", HC, "	} else if hcConf.SslTrustMode == \"INSECURE\" {", "	} else if hcConf.SslTrustMode == \"INSECURE\" || hcConf.SslTrustMode == \"CUSTOM\" {")
M("N03", HC, "		simplelog.ErrLogger.Fatalf(\"load cert %s failed\\n\", file)\n", "		simplelog.ErrLogger.Printf(\"load cert %s failed\\n\", file)\n")
M("N03", HC, "hcConf.CertChain != \"\" || hcConf.PrivateKey != \"\"", "hcConf.CertChain != \"\" && hcConf.PrivateKey != \"\"")
M("N04", PP, "user_pass[0] != conf.Username || user_pass[1] != conf.Password", "user_pass[0] != conf.Username || !strings.HasPrefix(user_pass[1], conf.Password)")
M("N04", PP, "			refuse(ctx)\n			return nil\n		}\n\n		b, err", "			refuse(ctx)\n			return ctx.Next()\n		}\n\n		b, err")
M("N04", PP, "	// 如果没有设置，就不允许访问\n	if conf.Username == \"\" || conf.Password == \"\" {\n		return emptyFasthttpRoutingHandler", "	// 如果没有设置，就不允许访问\n	if conf.Username+conf.Password == \"\" {\n		return emptyFasthttpRoutingHandler")
M("N02", RD, "		MinIdleConns: rc.MinIdle,\n", "		MinIdleConns: rc.MinIdle % (rc.Pool + 1),\n")
M("N05", RD, "	_, err := client.Ping().Result()\n	if err != nil {\n", "	_, err := client.Ping().Result()\n	if err != nil && err != redis.Nil {\n")

E, F, RE, SG, C = ("conf/%s.go" % n for n in ("env", "flag", "reflect", "string", "conf"))
M("F02", E, "		if err := flagSet.Set(env, v); err != nil {", "		if f := flagSet.Lookup(env); f != nil && f.Value.String() == v {\n			continue\n		}\n		if err := flagSet.Set(env, v); err != nil {")
M("F02", F, "				flagSet.UintVar(vi.(*uint), flagName, uint(v.Uint()), path)\n", "				flagSet.UintVar(vi.(*uint), flagName, uint(uint32(v.Uint())), path)\n")
M("F04", RE, "		if path == \"\" {\n			initPtrValue(fv, f.Name)\n", "		if f.Tag.Get(\"yaml\") == \"-\" {\n			continue\n		}\n		if path == \"\" {\n			initPtrValue(fv, f.Name)\n")
M("F03", SG, "		} else if b == '.' {\n			rs = append(rs, '-')\n			prevDot = true\n", "		} else if b == '.' {\n			if !prevDot {\n				rs = append(rs, '-')\n			}\n			prevDot = true\n")
M("F01", C, "			fmt.Println(err.Error())\n			os.Exit(2)\n", "			fmt.Println(err.Error())\n			if resolver != confResolver(er) {\n				os.Exit(2)\n			}\n")
M("F01", C, "	if yamlFile != \"\" {\n", "	if _, err := os.Stat(yamlFile); yamlFile != \"\" && err == nil {\n")
DT = "dto/m.go"
