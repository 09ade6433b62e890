F = "ratelimiter/fixedwindow.go"
M("R01", F, "if s.count < s.capacity {", "if s.count <= s.capacity {")
M("R01", F, "return s.until >= ts", "return s.until > ts")
M("R01", F, "(ts - s.until - 1) /s.windowSize + 1", "(ts - s.until) /s.windowSize + 1")
M("R01", F, "(ts - s.until - 1) /s.windowSize + 1", "(ts - s.until - 1) /s.windowSize")
M("R01", F, "	s.count = 0\n", "	s.count = 1\n")
M("R01", F, "	s.count = 0\n", "	if s.windowSize <= 0 {\n		s.count = 0\n	}\n")
M("R01", F, "		s.until += n * s.windowSize\n", "		_ = n\n		s.until = ts + s.windowSize\n")
M("R01", F, "		s.count++\n", "		if s.count < s.capacity-1 {\n			s.count++\n		}\n")
M("R01", F, "	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	if !s.contains(now) {\n		s.reset(now)\n	}\n", "	s.lock.Lock()\n	if !s.contains(now) {\n		s.reset(now)\n	}\n	s.lock.Unlock()\n	s.lock.Lock()\n	defer s.lock.Unlock()\n")
M("R01", F, "		windowSize: int64(windowSize),", "		windowSize: int64(windowSize) / 1000,")
B(F, "		n := (ts - s.until - 1) /s.windowSize + 1\n		s.until += n * s.windowSize\n", "		diff := ts - s.until\n		n := diff / s.windowSize\n		if diff%s.windowSize > 0 {\n			n++\n		}\n		s.until += n * s.windowSize\n")
B(F, "		n := (ts - s.until - 1) /s.windowSize + 1\n		s.until += n * s.windowSize\n", "		if r := (ts - s.until) % s.windowSize; r == 0 {\n			s.until = ts\n		} else {\n			s.until = ts + s.windowSize - r\n		}\n")
B(F, "		n := (ts - s.until - 1) /s.windowSize + 1\n		s.until += n * s.windowSize\n", "		n := (ts - s.until + s.windowSize - 1) / s.windowSize\n		s.until += n * s.windowSize\n")
B(F, "	if s.count < s.capacity {\n		s.count++\n		return true\n	}\n	return false\n", "	if s.count >= s.capacity {\n		return false\n	}\n	s.count += 1\n	return true\n")
B(F, "	if s.count < s.capacity {\n		s.count++\n		return true\n	}\n	return false\n\n}", "	return s.take()\n}\n\nfunc (s *SyncFixedWindow) take() (ok bool) {\n	if ok = s.count < s.capacity; ok {\n		s.count++\n	}\n	return\n}")
B(F, "	now := s.nowFn().UnixNano()\n\n	s.lock.Lock()\n	defer s.lock.Unlock()\n", "	s.lock.Lock()\n	defer s.lock.Unlock()\n	now := s.nowFn().UnixNano()\n")
S = "ratelimiter/slidingwindow.go"
M("R02", S, "if s.records.Len() < s.capacity {", "if s.records.Len() <= s.capacity {")
M("R02", S, "> s.windowSize {", ">= s.windowSize {")
M("R02", S, "		s.records.Remove(oldestV)\n", "")
M("R02", S, "		s.records.Remove(oldestV)\n		s.records.PushBack(now)\n", "		s.records.PushBack(now)\n		s.records.Remove(s.records.Back())\n")
M("R02", S, "	oldestV := s.records.Front()", "	oldestV := s.records.Back()")
M("R02", S, "		// 未到容量，可以通过\n		s.records.PushBack(now)\n", "		s.records.PushFront(now)\n")
M("R02", S, "	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	// must be taken with lock held, otherwise records may be out of order\n	now := s.nowFn().UnixNano()\n", "	now := s.nowFn().UnixNano()\n	s.lock.Lock()\n	defer s.lock.Unlock()\n")
M("R02", S, "	if s.capacity == 0 {\n		return true\n	}\n", "	if s.capacity <= 1 {\n		return true\n	}\n")
M("R02", S, "	if s.capacity == 0 {\n		return true\n	}\n", "	if s.capacity == 0 {\n		return false\n	}\n")
M("R03", S, "	for s.records.Len() > 0 && s.records.Len() > capacity {", "	for s.records.Len() > 0 && s.records.Len() >= capacity {")
M("R03", S, "	for s.records.Len() > 0 && s.records.Len() > capacity {", "	if s.records.Len() > 0 && s.records.Len() > capacity {")
M("R03", S, "		s.records.Remove(s.records.Front())\n	}\n\n	s.capacity", "		s.records.Remove(s.records.Back())\n	}\n\n	s.capacity")
M("R03", S, "	s.capacity = capacity\n	s.windowSize = int64(windowSize)\n", "	s.capacity = capacity\n	s.lock.Unlock()\n	s.lock.Lock()\n	s.windowSize = int64(windowSize)\n")
M("R03", S, "	s.capacity = capacity\n	s.windowSize = int64(windowSize)\n", "	s.capacity = capacity\n	if capacity > 0 {\n		s.windowSize = int64(windowSize)\n	}\n")
M("R03", S, "	for s.records.Len() > 0 && s.records.Len() > capacity {\n		// 针对缩容的情况\n		s.records.Remove(s.records.Front())\n	}\n", "	if s.records.Len() > capacity {\n		s.records.Init()\n	}\n")
M("R03", S, "	if capacity < 0 {\n		capacity = 0\n	}\n\n	for", "	for")
M("R03", S, "	if capacity < 0 {\n		capacity = 0\n	}\n	return", "	return")
M("R03", S, "	return s.capacity\n", "	return s.records.Len()\n")
M("R02", S, "	s.capacity = capacity\n	s.windowSize", "	s.records = list.New()\n	s.capacity = capacity\n	s.windowSize")
B(S, "	for s.records.Len() > 0 && s.records.Len() > capacity {\n		// 针对缩容的情况\n		s.records.Remove(s.records.Front())\n	}\n", "	for surplus := s.records.Len() - capacity; surplus > 0; surplus-- {\n		s.records.Remove(s.records.Front())\n	}\n")
B(S, "	for s.records.Len() > 0 && s.records.Len() > capacity {\n		// 针对缩容的情况\n		s.records.Remove(s.records.Front())\n	}\n", "	n := s.records.Len() - capacity\n	for i := 0; i < n; i++ {\n		s.records.Remove(s.records.Front())\n	}\n")
B(S, "	for s.records.Len() > 0 && s.records.Len() > capacity {\n		// 针对缩容的情况\n		s.records.Remove(s.records.Front())\n	}\n\n	s.capacity = capacity\n", "	s.capacity = capacity\n	for s.records.Len() > s.capacity {\n		s.records.Remove(s.records.Front())\n	}\n")
B(S, "	for s.records.Len() > 0 && s.records.Len() > capacity {\n		// 针对缩容的情况\n		s.records.Remove(s.records.Front())\n	}\n\n	s.capacity = capacity\n	s.windowSize = int64(windowSize)\n\n}", "	s.trim(capacity)\n	s.windowSize = int64(windowSize)\n	s.capacity = capacity\n}\n\nfunc (s *SyncSlidingWindow) trim(max int) {\n	for s.records.Len() > max {\n		e := s.records.Front()\n		s.records.Remove(e)\n	}\n}")
B(S, "	oldest := time.Duration(oldestV.Value.(int64))\n	if now-int64(oldest) > s.windowSize {\n		// 容量超过，且最远的一次请求超过了windowSize，可以通过\n		s.records.Remove(oldestV)\n		s.records.PushBack(now)\n		return true\n	}\n	return false\n", "	oldest := oldestV.Value.(int64)\n	if now-oldest <= s.windowSize {\n		return false\n	}\n	s.records.PushBack(now)\n	s.records.Remove(oldestV)\n	return true\n")
T = "ratelimiter/tokenbucket.go"
M("R04", T, "	if t.tokens > 0 {\n		t.tokens--", "	if t.tokens >= 0 {\n		t.tokens--")
M("R04", T, "	if t.tokens > t.capacity {\n		t.tokens = t.capacity\n	}\n\n	t.last", "	t.last")
M("R04", T, "			if newTokens > int64(t.capacity) {\n				newTokens = int64(t.capacity)\n			}\n", "")
M("R04", T, "oldTokens := atomic.LoadInt64(&t.tokens); oldTokens > 0 {", "oldTokens := atomic.LoadInt64(&t.tokens); oldTokens >= 0 {")
M("R04", T, "			swapped := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1)\n			if swapped {\n				break\n			}\n", "			atomic.AddInt64(&t.tokens, -1)\n			break\n")
M("R04", T, "		tokens:             int64(capacity),", "		tokens:             0,")
M("R04 R05", T, "			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {\n				return\n			}\n", "			atomic.StoreInt64(&t.tokens, newTokens)\n			return\n")
M("R05", T, "	if delta <= 0 {\n		// delta < 0 when clock went backwards\n		return\n	}\n\n	t.tokens", "	if delta == 0 {\n		return\n	}\n\n	t.tokens")
M("R05", T, "	if delta <= 0 {\n		// delta < 0 when clock went backwards\n		return\n	}\n\n	t.tokens", "	if delta < 0 {\n		return\n	}\n\n	t.tokens")
M("R05", T, "	t.lastIssueTimestamp = now\n}", "	t.lastIssueTimestamp += int64(time.Second)\n}")
M("R05", T, "	t.lastIssueTimestamp = now\n}", "}")
M("R05", T, "		if now > t.lastIssueTimestamp {\n			t.lastIssueTimestamp = now\n		}\n", "")
M("R05", T, "		if now > t.lastIssueTimestamp {\n			t.lastIssueTimestamp = now\n		}\n", "		t.lastIssueTimestamp = now\n")
M("R05", T, "		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {\n			continue\n		}\n", "		atomic.StoreInt64(&t.lastIssueTimestamp, now)\n")
M("R05", T, "		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {\n			continue\n		}\n", "		atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now)\n")
M("R05", T, "		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {\n			continue\n		}\n", "		cur := atomic.LoadInt64(&t.lastIssueTimestamp)\n		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, cur, now) {\n			continue\n		}\n")
M("R05", T, "			if now > oldLit {\n				atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now)\n			}\n", "			atomic.StoreInt64(&t.lastIssueTimestamp, now)\n")
M("R05", T, "			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {\n				return\n			}\n", "			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {\n				return\n			} else {\n				break\n			}\n")
M("R05", T, "	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)", "	delta := elapse * int64(t.issueRatePerSecond) / int64(time.Second)")
M("R05", T, "		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)\n\n		if", "		delta := (elapse / int64(time.Second) + 1) * int64(t.issueRatePerSecond)\n\n		if")
M("R05", T, "		lastIssueTimestamp: gtime.SysNow().UnixNano(),\n		nowFn:              gtime.SysNow,\n	}\n}\n\n// New a Atomic", "		nowFn:              gtime.SysNow,\n	}\n}\n\n// New a Atomic")
B(T, "	if t.tokens > 0 {\n		t.tokens--\n		return true\n	}\n	return false\n", "	if t.tokens < 1 {\n		return false\n	}\n	t.tokens = t.tokens - 1\n	return true\n")
B(T, "	t.tokens += int(delta)\n	if t.tokens > t.capacity {\n		t.tokens = t.capacity\n	}\n\n	t.lastIssueTimestamp = now\n", "	t.lastIssueTimestamp = now\n	if n := t.tokens + int(delta); n < t.capacity {\n		t.tokens = n\n	} else {\n		t.tokens = t.capacity\n	}\n")
B(T, "		if oldTokens := atomic.LoadInt64(&t.tokens); oldTokens > 0 {\n			swapped := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1)\n			if swapped {\n				break\n			}\n		} else {\n			return false\n		}\n	}\n	return true\n", "		oldTokens := atomic.LoadInt64(&t.tokens)\n		if oldTokens <= 0 {\n			return false\n		}\n		if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1) {\n			return true\n		}\n	}\n")
B(T, "		for {\n			oldTokens := atomic.LoadInt64(&t.tokens)\n			newTokens := oldTokens + delta\n			if newTokens > int64(t.capacity) {\n				newTokens = int64(t.capacity)\n			}\n			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {\n				return\n			}\n		}\n	}\n\n}", "		t.add(delta)\n		return\n	}\n\n}\n\nfunc (t *AtomicTokenBucket) add(delta int64) {\n	for done := false; !done; {\n		oldTokens := atomic.LoadInt64(&t.tokens)\n		newTokens := oldTokens + delta\n		if newTokens > int64(t.capacity) {\n			newTokens = int64(t.capacity)\n		}\n		done = atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens)\n	}\n}")
BB((T, "	elapse := now - t.lastIssueTimestamp\n	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)\n\n	if delta <= 0 {\n		// delta < 0 when clock went backwards\n		return\n	}\n", "	delta := t.due(now)\n	if delta <= 0 {\n		return\n	}\n"), (T, "", "\nfunc (t *SyncTokenBucket) due(now int64) int64 {\n	return (now - t.lastIssueTimestamp) / int64(time.Second) * int64(t.issueRatePerSecond)\n}\n"))
