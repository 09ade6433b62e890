# Wider restructurings of the remaining packages: breaker, semaphores, limiters, store, processors, conf, rsa.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    LAST[:] = edits
    BB(*edits)


LAST = []


# the same shape, wrong
def W(props, old, new):
    n = sum(e[2].count(old) for e in LAST)
    assert n == 1, (n, old)
    MM(props, *[(f, o, t.replace(old, new)) for f, o, t in LAST])


def RM(props, path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    MM(props, *edits)


CB = "circuitbreaker/circuitbreaker.go"
HISTORY = '''
type history struct {
	limit   int
	count   int
	last    int64
	timeout int64
}

func (s *SyncCircuitBreaker) history() history {
	s.lock.RLock()
	defer s.lock.RUnlock()
	return history{s.failureThreshold, s.failures, s.lastFailureTs, s.resetTimeout}
}

func (h history) at(now int64) state {
	switch {
	case h.count < h.limit:
		return closed
	case now-h.last > h.timeout:
		return halfOpen
	}
	return open
}
'''
# the outcome of a call is settled in one place, under one lock helper
R(CB, ("func (s *SyncCircuitBreaker) recordFailure(", '''
func (s *SyncCircuitBreaker) recordFailure() {
	s.locked(func() {
		s.failures, s.lastFailureTs = s.failures+1, s.nowFn().UnixNano()
	})
}
'''), ("func (s *SyncCircuitBreaker) reset(", '''
func (s *SyncCircuitBreaker) reset() {
	s.locked(func() {
		s.failures, s.lastFailureTs = 0, 0
	})
}
'''), add='''
// locked runs change with the state of the breaker locked.
func (s *SyncCircuitBreaker) locked(change func()) {
	s.lock.Lock()
	defer s.lock.Unlock()
	change()
}
''')
W("B02", "s.failures, s.lastFailureTs = s.failures+1, s.nowFn().UnixNano()", "s.failures, s.lastFailureTs = s.failures+1, s.lastFailureTs")
W("X02", "	s.lock.Lock()\n	defer s.lock.Unlock()\n	change()", "	s.lock.RLock()\n	defer s.lock.RUnlock()\n	change()")
# the state is computed from a copy of what was recorded
R(CB, ("func (s *SyncCircuitBreaker) state(", '''
func (s *SyncCircuitBreaker) state() state {
	now := s.nowFn().UnixNano()
	return s.history().at(now)
}
'''), add=HISTORY)
W("B02", "return history{s.failureThreshold, s.failures,", "return history{s.failures, s.failureThreshold,")
W("B02", "case now-h.last > h.timeout:", "case now-h.timeout > h.timeout:")
# the time is taken after the record was copied: neither may have allowed the call
RM("B02", CB, ("func (s *SyncCircuitBreaker) state(", '''
func (s *SyncCircuitBreaker) state() state {
	h := s.history()
	return h.at(s.nowFn().UnixNano())
}
'''), add=HISTORY)
# what to do in each state is chosen from a table
R(CB, ("func (s *SyncCircuitBreaker) Do(", '''
func (s *SyncCircuitBreaker) Do(task func() error, onError func(error), onOpen func()) {
	attempt := func() {
		if err := task(); err != nil {
			s.recordFailure()
			onError(err)
			return
		}
		s.reset()
	}
	actions := [...]func(){open: onOpen, closed: attempt, halfOpen: attempt}
	actions[s.state()]()
}
'''))
W("B01", "{open: onOpen, closed: attempt, halfOpen: attempt}", "{open: onOpen, closed: attempt, halfOpen: onOpen}")
W("B01", "{open: onOpen, closed: attempt, halfOpen: attempt}", "{closed: onOpen, open: attempt, halfOpen: attempt}")
R(CB, ("func (s *SyncCircuitBreaker) Do(", '''
func (s *SyncCircuitBreaker) Do(task func() error, onError func(error), onOpen func()) {
	if !s.allows() {
		onOpen()
		return
	}
	c := &call{owner: s, failed: onError}
	c.finish(task())
}
'''), add='''
func (s *SyncCircuitBreaker) allows() bool {
	return s.state() != open
}

// call is one call that was let through.
type call struct {
	owner  *SyncCircuitBreaker
	failed func(error)
}

func (c *call) finish(err error) {
	if err == nil {
		c.owner.reset()
		return
	}
	c.owner.recordFailure()
	c.failed(err)
}
''')

W("B01 B02", "return s.state() != open", "return s.state() == closed")
W("B01", "	c.owner.recordFailure()\n", "	c.owner.recordFailure()\n	if c.owner.state() == open {\n		return\n	}\n")
S = "concurrent/sema.go"
# one guarded change of the count
R(S, ("func (s *LockSemaphore) Release(", '''
func (s *LockSemaphore) Release() {
	s.lock.Lock()
	defer s.lock.Unlock()
	if s.change(-1) {
		s.notFull.Broadcast()
	}
}
'''), ("func (s *LockSemaphore) TryAcquire(", '''
func (s *LockSemaphore) TryAcquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.change(1)
}
'''), ("func (s *LockSemaphore) Acquire(", '''
func (s *LockSemaphore) Acquire() {
	s.lock.Lock()
	defer s.lock.Unlock()
	for !s.change(1) {
		s.notFull.Wait()
	}
}
'''), add='''
// change moves the count by n, unless it would leave its range; the lock is held.
func (s *LockSemaphore) change(n int64) bool {
	if n > 0 && s.isFull() || n < 0 && s.count <= 0 {
		return false
	}
	s.count += n
	return true
}
''')
W("C01", "n > 0 && s.isFull() || n < 0 && s.count <= 0", "s.isFull() || n < 0 && s.count <= 0")
W("C01", "n > 0 && s.isFull() || n < 0 && s.count <= 0", "n > 0 && s.isFull()")
# the count is of what is left
BB((S, "	count   int64\n", "	left    int64\n"),
   (S, "		permits: permits,\n	}\n	s.notFull", "		permits: permits,\n		left:    permits,\n	}\n	s.notFull"),
   (S, src(S, "func (s *LockSemaphore) Acquire("), '''func (s *LockSemaphore) Acquire() {
	s.lock.Lock()
	for s.isFull() {
		s.notFull.Wait()
	}
	s.left--
	s.lock.Unlock()
}
'''),
   (S, src(S, "func (s *LockSemaphore) Release("), '''func (s *LockSemaphore) Release() {
	s.lock.Lock()
	defer s.lock.Unlock()
	if s.left >= s.permits {
		return
	}
	s.left++
	s.notFull.Broadcast()
}
'''),
   (S, src(S, "func (s *LockSemaphore) TryAcquire("), '''func (s *LockSemaphore) TryAcquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	if s.isFull() {
		return false
	}
	s.left--
	return true
}
'''),
   (S, "	return s.count >= s.permits\n", "	return s.left <= 0\n"))
# the lock is taken by a helper that is handed the work
R(S, ("func (s *LockSemaphore) Release(", '''
func (s *LockSemaphore) Release() {
	s.guarded(func() {
		if s.count > 0 {
			s.count--
			s.notFull.Broadcast()
		}
	})
}
'''), ("func (s *LockSemaphore) TryAcquire(", '''
func (s *LockSemaphore) TryAcquire() (ok bool) {
	s.guarded(func() {
		if ok = !s.isFull(); ok {
			s.count++
		}
	})
	return
}
'''), ("func (s *LockSemaphore) Acquire(", '''
func (s *LockSemaphore) Acquire() {
	s.guarded(func() {
		for s.isFull() {
			s.notFull.Wait()
		}
		s.count++
	})
}
'''), add='''
func (s *LockSemaphore) guarded(do func()) {
	s.lock.Lock()
	defer s.lock.Unlock()
	do()
}
''')
W("C01", "if s.count > 0 {\n			s.count--", "if s.count >= 0 {\n			s.count--")
# both channel operations by one helper
R(S, ("func (s *ChanSemaphore) TryAcquire(", '''
func (s *ChanSemaphore) TryAcquire() bool {
	return s.try(func() bool {
		select {
		case s.permits <- 0:
			return true
		default:
			return false
		}
	})
}
'''), add='''
func (s *ChanSemaphore) try(op func() bool) bool {
	return op()
}
''')

TB = "ratelimiter/tokenbucket.go"
# how many tokens are due is worked out by one function for both buckets
R(TB, ("func (t *SyncTokenBucket) issueIfNecessary(", '''
func (t *SyncTokenBucket) issueIfNecessary() {
	due, now := issueRule{t.capacity, t.issueRatePerSecond}.due(int64(t.tokens), t.lastIssueTimestamp, t.nowFn)
	if due.stamp {
		t.lastIssueTimestamp = now
	}
	if due.tokens > 0 {
		if t.tokens += int(due.tokens); t.tokens > t.capacity {
			t.tokens = t.capacity
		}
	}
}
'''), add='''
// issueRule says when tokens are issued.
type issueRule struct {
	capacity, perSecond int
}

type issue struct {
	stamp  bool  // the time is to be written down
	tokens int64 // how many are issued
}

func (r issueRule) due(tokens, last int64, nowFn gtime.NowFunc) (issue, int64) {
	now := nowFn().UnixNano()
	if tokens >= int64(r.capacity) {
		return issue{stamp: now > last}, now
	}
	delta := (now - last) / int64(time.Second) * int64(r.perSecond)
	if delta <= 0 {
		return issue{}, now
	}
	return issue{true, delta}, now
}
''')
W("R05", "return issue{stamp: now > last}, now", "return issue{stamp: true}, now")
W("R05", "return issue{stamp: now > last}, now", "return issue{}, now")
W("R05", "return issue{true, delta}, now", "return issue{tokens: delta}, now")
W("R04", "; t.tokens > t.capacity {", "; t.tokens > t.capacity+1 {")
W("R05", "due.stamp {", "due.tokens == 0 && due.stamp {")
R(TB, ("func (t *AtomicTokenBucket) issueIfNecessary(", '''
func (t *AtomicTokenBucket) issueIfNecessary() {
	for !t.tryIssue() {
	}
}
'''), ("func (t *AtomicTokenBucket) Acquire(", '''
func (t *AtomicTokenBucket) Acquire() bool {
	t.issueIfNecessary()
	_, ok := t.update(func(n int64) (int64, bool) { return n - 1, n > 0 })
	return ok
}
'''), add='''
// tryIssue issues what is due; false if somebody else moved the time meanwhile.
func (t *AtomicTokenBucket) tryIssue() bool {
	now := t.nowFn().UnixNano()
	last := atomic.LoadInt64(&t.lastIssueTimestamp)
	if t.full() {
		if now > last {
			atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now)
		}
		return true
	}
	delta := (now - last) / int64(time.Second) * int64(t.issueRatePerSecond)
	if delta <= 0 {
		return true
	}
	if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now) {
		return false
	}
	t.update(func(n int64) (int64, bool) {
		if n += delta; n > int64(t.capacity) {
			n = int64(t.capacity)
		}
		return n, true
	})
	return true
}

func (t *AtomicTokenBucket) full() bool {
	return atomic.LoadInt64(&t.tokens) >= int64(t.capacity)
}

// update swaps the tokens for what next makes of them, unless it declines.
func (t *AtomicTokenBucket) update(next func(int64) (int64, bool)) (int64, bool) {
	for {
		old := atomic.LoadInt64(&t.tokens)
		n, ok := next(old)
		if !ok {
			return old, false
		}
		if atomic.CompareAndSwapInt64(&t.tokens, old, n) {
			return n, true
		}
	}
}
''')
W("R04", "return n - 1, n > 0 }", "return n - 1, n >= 0 }")
W("R05", "		return false\n	}\n	t.update", "		return true\n	}\n	t.update")
W("R05", "	if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now) {\n		return false\n	}\n	t.update", "	defer atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now)\n	t.update")
R(TB, ("func (t *SyncTokenBucket) Acquire(", '''
func (t *SyncTokenBucket) Acquire() bool {
	t.lock.Lock()
	defer t.lock.Unlock()
	return t.refilled().take()
}

func (t *SyncTokenBucket) refilled() *SyncTokenBucket {
	t.issueIfNecessary()
	return t
}

func (t *SyncTokenBucket) take() (ok bool) {
	if ok = t.tokens > 0; ok {
		t.tokens--
	}
	return ok
}
'''))

SW = "ratelimiter/slidingwindow.go"
# the list of times is worked with through a small view of it
R(SW, ("func (s *SyncSlidingWindow) Acquire(", '''
func (s *SyncSlidingWindow) Acquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	now := s.nowFn().UnixNano()
	if s.capacity == 0 {
		return true
	}
	times := timeline{s.records}
	if !times.shorter(s.capacity) {
		if now-times.first() <= s.windowSize {
			return false
		}
		times.dropFirst()
	}
	times.add(now)
	return true
}
'''), ("func (s *SyncSlidingWindow) UpdateConfig(", '''
func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	s.lock.Lock()
	defer s.lock.Unlock()
	if capacity < 0 {
		capacity = 0
	}
	times := timeline{s.records}
	for !times.shorter(capacity + 1) {
		times.dropFirst()
	}
	s.capacity, s.windowSize = capacity, int64(windowSize)
}
'''), add='''
// timeline is a list of times, the oldest first.
type timeline struct {
	*list.List
}

func (t timeline) shorter(n int) bool { return t.Len() < n }
func (t timeline) first() int64       { return t.Front().Value.(int64) }
func (t timeline) dropFirst()         { t.Remove(t.Front()) }
func (t timeline) add(now int64)      { t.PushBack(now) }
''')
W("R03", "for !times.shorter(capacity + 1)", "for !times.shorter(s.capacity + 1)")
W("R02", "		times.dropFirst()\n	}\n	times.add(now)", "		times.dropFirst()\n		return true\n	}\n	times.add(now)")
W("R02", "Remove(t.Front())", "Remove(t.Back())")
R(SW, ("func (s *SyncSlidingWindow) Acquire(", '''
func (s *SyncSlidingWindow) Acquire() bool {
	return s.admit(func() int64 { return s.nowFn().UnixNano() })
}

func (s *SyncSlidingWindow) admit(clock func() int64) (ok bool) {
	s.lock.Lock()
	defer s.lock.Unlock()
	now := clock()
	switch {
	case s.capacity == 0:
		return true
	case s.records.Len() < s.capacity:
	case now-s.records.Front().Value.(int64) > s.windowSize:
		s.records.Remove(s.records.Front())
	default:
		return false
	}
	s.records.PushBack(now)
	return true
}
'''))

W("R02", "	case s.records.Len() < s.capacity:\n", "	case s.records.Len() <= s.capacity:\n")
TR = "ratelimiter/ttl_ratelimiter_redis.go"
# one method runs either script, one function reads the reply
R(TR, ("func (r *redisTtlRateLimiter) IsBlockedContext(", '''
func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey string) *Result {
	return r.eval(ctx, "eval script2 ", scriptSha2, []string{r.tagged(blockKey + suffix)})
}
'''), ("func (r *redisTtlRateLimiter) ShouldBlock2Context(", '''
func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key string, blockKey string, msg string) *Result {
	if isParamsNotSet(r.params) {
		return new(Result)
	}
	keys := []string{r.tagged(prefix + key), r.tagged(blockKey + suffix)}
	return r.eval(ctx, "eval script1 ", scriptSha1, keys,
		r.params.GetCapacity(),
		r.params.GetWindowSizeSeconds(),
		r.params.GetTimeoutSeconds(),
		time.Now().UnixNano()/int64(time.Second),
		msg)
}
'''), add='''
func (r *redisTtlRateLimiter) tagged(key string) string {
	if r.hashTag == "" {
		return key
	}
	return r.hashTag + key
}

// eval runs the script; nothing is blocked when it fails.
func (r *redisTtlRateLimiter) eval(ctx context.Context, what, sha string, keys []string, args ...interface{}) *Result {
	reply, err := r.redisClient.WithContext(ctx).EvalSha(sha, keys, args...).Result()
	if err != nil {
		simplelog.ErrLogger.Println(what, sha, "error", err)
		return new(Result)
	}
	return readReply(reply.([]interface{}))
}

func readReply(parts []interface{}) *Result {
	flag := func(i int) bool { return parts[i].(int64) == 1 }
	return &Result{
		Block:     flag(0),
		Triggered: flag(1),
		Ttl:       int(parts[2].(int64)),
		Msg:       parts[3].(string),
	}
}
''')
W("R08", "Triggered: flag(1)", "Triggered: flag(0)")
W("R08", "		r.params.GetWindowSizeSeconds(),\n		r.params.GetTimeoutSeconds(),", "		r.params.GetTimeoutSeconds(),\n		r.params.GetWindowSizeSeconds(),")
R(TR, ("func (r *redisTtlRateLimiter) ShouldBlock2Context(", '''
func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key string, blockKey string, msg string) *Result {
	q := &question{limiter: r, window: prefix + key, block: blockKey + suffix, msg: msg}
	return q.ask(ctx)
}
'''), add='''
// question is whether one request is to be blocked.
type question struct {
	limiter       *redisTtlRateLimiter
	window, block string
	msg           string
	answer        Result
}

func (q *question) ask(ctx context.Context) *Result {
	p := q.limiter.params
	if isParamsNotSet(p) {
		return &q.answer
	}
	if tag := q.limiter.hashTag; tag != "" {
		q.window, q.block = tag+q.window, tag+q.block
	}
	args := []interface{}{p.GetCapacity(), p.GetWindowSizeSeconds(), p.GetTimeoutSeconds()}
	args = append(args, time.Now().UnixNano()/int64(time.Second), q.msg)
	raw, err := q.limiter.redisClient.WithContext(ctx).EvalSha(scriptSha1, []string{q.window, q.block}, args...).Result()
	if err != nil {
		simplelog.ErrLogger.Println("eval script1 ", scriptSha1, "error", err)
		return &q.answer
	}
	q.read(raw.([]interface{}))
	return &q.answer
}

func (q *question) read(arr []interface{}) {
	q.answer.Block = arr[0].(int64) == 1
	q.answer.Triggered = arr[1].(int64) == 1
	q.answer.Ttl = int(arr[2].(int64))
	q.answer.Msg = arr[3].(string)
}
''')
W("R09", "q.window, q.block = tag+q.window, tag+q.block", "q.window, q.block = tag+q.window, tag+q.window")
W("R08", "q.msg)\n	raw", "q.block)\n	raw")
# the scripts and where their digests go are listed in a table
R(TR, ("func LoadScript(", '''
func LoadScript(redisClient *redis.Client) {
	for _, s := range []struct {
		text string
		sha  *string
	}{
		{script1, &scriptSha1},
		{script2, &scriptSha2},
	} {
		sha := s.sha
		loadScript(redisClient, s.text, func(v string) { *sha = v })
	}
}
'''))
W("R07", "{script2, &scriptSha2}", "{script2, &scriptSha1}")
R(TR, ("func LoadScript(", '''
func LoadScript(redisClient *redis.Client) {
	texts := [2]string{script1, script2}
	shas := [2]*string{&scriptSha1, &scriptSha2}
	for i, text := range texts {
		sha, err := redisClient.ScriptLoad(text).Result()
		if err != nil {
			panic(err)
		}
		*shas[i] = sha
	}
}
'''), also=((TR, src(TR, "func loadScript("), ""),))

W("R07", "*shas[i] = sha", "*shas[1-i] = sha")
ST = "confstore/store.go"
# the maps are grouped into layers that are asked in turn
R(ST, ("func (m *defaultImpl) GetValue(", '''
func (m *defaultImpl) GetValue(key string) (v interface{}, hit bool) {
	m.loadPolicy.DoLoad(m, m.persister)
	m.kvLock.RLock()
	defer m.kvLock.RUnlock()
	for _, layer := range []map[string]interface{}{m.kv, m.kvDefault} {
		if v, hit = layer[key]; hit {
			return v, true
		}
	}
	return nil, false
}
'''), ("func (m *defaultImpl) GetValueString(", '''
func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {
	m.loadPolicy.DoLoad(m, m.persister)
	m.kvLock.RLock()
	defer m.kvLock.RUnlock()
	layers := [2]map[string]string{m.kvStr, m.kvDefaultStr}
	for i := 0; i < len(layers) && !hit; i++ {
		v, hit = layers[i][key]
	}
	return
}
'''))
W("K02", "{m.kv, m.kvDefault}", "{m.kvDefault, m.kv}")
W("K02", "i < len(layers) && !hit", "i < len(layers)")
# reading many keys with one shared walk
R(ST, ("func (m *defaultImpl) BatchGetValues(", '''
func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
	kvs := make([]*KV, 0, len(keys))
	m.each(keys, func(key string) {
		if v, hit := m.GetValue(key); hit {
			kvs = append(kvs, &KV{key, v})
		}
	})
	return kvs
}
'''), ("func (m *defaultImpl) BatchGetValueString(", '''
func (m *defaultImpl) BatchGetValueString(keys []string) []*KVStr {
	kvs := make([]*KVStr, 0, len(keys))
	m.each(keys, func(key string) {
		if v, hit := m.GetValueString(key); hit {
			kvs = append(kvs, &KVStr{key, v})
		}
	})
	return kvs
}
'''), add='''
func (m *defaultImpl) each(keys []string, visit func(key string)) {
	m.loadPolicy.DoLoad(m, m.persister)
	for _, key := range keys {
		if key != "" {
			visit(key)
		}
	}
}
''')
W("K02", "		if v, hit := m.GetValue(key); hit {", "		if v, _ := m.GetValue(key); v != nil {")
W("K02", "		if key != \"\" {\n			visit(key)\n", "		if key == \"\" {\n			break\n		} else {\n			visit(key)\n")
# accepting and persisting are two objects
R(ST, ("func (m *defaultImpl) BatchUpdate(", '''
func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
	if len(kvStrs) == 0 {
		return nil
	}
	b := &batch{store: m, errs: make([]*KVError, 0, len(kvStrs))}
	for _, kvStr := range kvStrs {
		b.put(kvStr)
	}
	b.persist()
	return b.errs
}
'''), add='''
// batch is one batch of updates.
type batch struct {
	store    *defaultImpl
	accepted []*KVStr
	errs     []*KVError
}

func (b *batch) put(kv *KVStr) {
	switch err := b.store.UpdateNoPersist(kv.Key, kv.Value); {
	case err != nil:
		b.errs = append(b.errs, err)
	case kv.Key != "":
		b.accepted = append(b.accepted, kv)
	}
}

func (b *batch) persist() {
	if err := b.store.persister.BatchSave(b.accepted); err != nil {
		simplelog.ErrLogger.Println("error happened when batch persist keys:", err)
	}
}
''')
W("K03", "	case kv.Key != \"\":\n", "	case kv.Value != \"\":\n")
W("K03", "		b.errs = append(b.errs, err)\n", "		b.errs = append(b.errs, err)\n		b.accepted = b.accepted[:0]\n")
W("K03", "	b.persist()\n	return b.errs", "	if len(b.errs) == 0 {\n		b.persist()\n	}\n	return b.errs")
R(ST, ("func (m *defaultImpl) MustGetValue(", '''
func (m *defaultImpl) MustGetValue(key string) interface{} {
	m.loadPolicy.DoLoad(m, m.persister)
	v, hit := m.GetValue(key)
	return present(key, v, hit)
}
'''), ("func (m *defaultImpl) MustGetValueString(", '''
func (m *defaultImpl) MustGetValueString(key string) string {
	m.loadPolicy.DoLoad(m, m.persister)
	v, hit := m.GetValueString(key)
	return present(key, v, hit).(string)
}
'''), add='''
func present(key string, v interface{}, hit bool) interface{} {
	if !hit {
		panic(fmt.Sprintf("config key[%s] missing", key))
	}
	return v
}
''')

L = "confstore/loader.go"
R(L, ("func (t *defaultLoadPolicy) DoLoad(", '''
func (t *defaultLoadPolicy) DoLoad(s Interface, p Persister) (err error) {
	t.loadLock.Lock()
	defer t.loadLock.Unlock()
	throttled := t.minInterval > 0
	if throttled && t.recent(time.Now()) {
		return nil
	}
	if err = p.Load(s); err == nil && throttled {
		t.lastLoadTs = time.Now()
	}
	return err
}

func (t *defaultLoadPolicy) recent(now time.Time) bool {
	return now.Add(-t.minInterval).Before(t.lastLoadTs)
}
'''))

W("K05", "err == nil && throttled", "err != nil && throttled")
W("K05", "if throttled && t.recent", "if !throttled || t.recent")
PS = "confstore/persister.go"
R(PS, ("func (r *redisPersister) BatchSave(", '''
func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	if len(kvStrs) == 0 {
		return nil
	}
	h := hash{r.redisClient, r.configRootKey}
	return h.set(flatten(kvStrs))
}
'''), ("func (r *redisPersister) Delete(", '''
func (r *redisPersister) Delete(key string) error {
	return hash{r.redisClient, r.configRootKey}.del(key)
}
'''), add='''
// hash is one hash in redis.
type hash struct {
	client *redis.Client
	key    string
}

func (h hash) set(fields []string) error { return h.client.HMSet(h.key, fields).Err() }
func (h hash) del(field string) error    { return h.client.HDel(h.key, field).Err() }

func flatten(kvStrs []*KVStr) []string {
	flat := make([]string, 2*len(kvStrs))
	for i, kv := range kvStrs {
		flat[2*i], flat[2*i+1] = kv.Key, kv.Value
	}
	return flat
}
''')

W("K08", "flat[2*i], flat[2*i+1] = kv.Key, kv.Value", "flat[i], flat[len(kvStrs)+i] = kv.Key, kv.Value")
W("K08", "{ return h.client.HDel(h.key, field).Err() }", "{ return h.client.HDel(field, h.key).Err() }")
PR = "confstore/procs.go"
# texts that are parsed share one shape
R(PR, ("func (d *durationProcessor) Validate(", '''
func (d *durationProcessor) Validate(value string) (ok bool, err string) {
	return durations.validate(value)
}
'''), ("func (d *durationProcessor) Convert(", '''
func (d *durationProcessor) Convert(value string) interface{} {
	return durations.convert(value)
}
'''), ("func (u *urlStringProcessor) Validate(", '''
func (u *urlStringProcessor) Validate(value string) (ok bool, err string) {
	return urls.validate(value)
}
'''), ("func (u *urlProcessor) Validate(", '''
func (u *urlProcessor) Validate(value string) (ok bool, err string) {
	return urls.validate(value)
}
'''), ("func (u *urlProcessor) Convert(", '''
func (u *urlProcessor) Convert(value string) interface{} {
	return urls.convert(value)
}
'''), add='''
// parsed is a kind of value that is read by parse.
type parsed struct {
	complaint string
	optional  bool
	none      interface{}
	parse     func(string) (interface{}, error)
}

var (
	durations = parsed{complaint: "not duration value", parse: func(s string) (interface{}, error) { return time.ParseDuration(s) }}
	urls      = parsed{complaint: "not url value", optional: true, none: (*url.URL)(nil), parse: func(s string) (interface{}, error) { return url.ParseRequestURI(s) }}
)

func (p parsed) validate(value string) (bool, string) {
	if p.optional && value == "" {
		return true, ""
	}
	if _, err := p.parse(value); err != nil {
		return false, p.complaint
	}
	return true, ""
}

func (p parsed) convert(value string) interface{} {
	if p.optional && value == "" {
		return p.none
	}
	v, _ := p.parse(value)
	return v
}
''')
W("K07", "parse: func(s string) (interface{}, error) { return time.ParseDuration(s) }", "parse: func(s string) (interface{}, error) { d, err := time.ParseDuration(s); return d.Round(time.Millisecond), err }")
W("K09", "complaint: \"not duration value\",", "complaint: \"not duration value\", optional: true, none: time.Duration(0),")
# the bounds are two objects
R(PR, ("func (i *intProcessor) Validate(", '''
func (i *intProcessor) Validate(value string) (ok bool, err string) {
	v, e := strconv.Atoi(value)
	if e != nil {
		return false, "not int value"
	}
	for _, rule := range i.rules() {
		if !rule.met(v) {
			return false, "not " + rule.sign + " " + strconv.Itoa(rule.bound)
		}
	}
	return true, ""
}

type intRule struct {
	sign  string
	bound int
	met   func(int) bool
}

func (i *intProcessor) rules() []intRule {
	low := intRule{">", i.min, func(v int) bool { return v > i.min }}
	if i.minInclude {
		low = intRule{">=", i.min, func(v int) bool { return v >= i.min }}
	}
	high := intRule{"<", i.max, func(v int) bool { return v < i.max }}
	if i.maxInclude {
		high = intRule{"<=", i.max, func(v int) bool { return v <= i.max }}
	}
	return []intRule{low, high}
}
'''))
R(PR, ("func (i *intProcessor) Validate(", '''
func (i *intProcessor) Validate(value string) (ok bool, err string) {
	v, e := strconv.Atoi(value)
	switch {
	case e != nil:
		return false, "not int value"
	case v < i.min, v == i.min && !i.minInclude:
		return false, sign("not >", i.minInclude) + strconv.Itoa(i.min)
	case v > i.max, v == i.max && !i.maxInclude:
		return false, sign("not <", i.maxInclude) + strconv.Itoa(i.max)
	}
	return true, ""
}

func sign(s string, inclusive bool) string {
	if inclusive {
		s += "="
	}
	return s + " "
}
'''))
W("K09", "v == i.max && !i.maxInclude", "v == i.max && !i.minInclude")
# keys and colours through a shared "optional" step
R(PR, ("func (c *cssColorHex) Validate(", '''
func (c *cssColorHex) Validate(value string) (ok bool, err string) {
	return optional(value, func() string {
		match, e := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
		if e != nil {
			return e.Error()
		}
		if !match {
			return "not css color hex value"
		}
		return ""
	})
}
'''), add='''
// optional accepts the empty text, and other text check does not complain about.
func optional(value string, check func() string) (bool, string) {
	if value == "" {
		return true, ""
	}
	if complaint := check(); complaint != "" {
		return false, complaint
	}
	return true, ""
}
''')
W("K09", "	if complaint := check(); complaint", "	if complaint := check(); len(value) > 1 && complaint")
EN, FL, RE, SG, CF = ("conf/%s.go" % n for n in ("env", "flag", "reflect", "string", "conf"))
# both resolvers bind their variables by one function
BIND = '''
// bind makes a variable of fs that writes v.
func bind(fs *flag.FlagSet, name, usage string, v reflect.Value) {
	switch p := v.Addr().Interface().(type) {
	case *time.Duration:
		fs.DurationVar(p, name, *p, usage)
	case *bool:
		fs.BoolVar(p, name, *p, usage)
	case *float64:
		fs.Float64Var(p, name, *p, usage)
	case *int:
		fs.IntVar(p, name, *p, usage)
	case *int64:
		fs.Int64Var(p, name, *p, usage)
	case *string:
		fs.StringVar(p, name, *p, usage)
	case *uint:
		fs.UintVar(p, name, *p, usage)
	case *uint64:
		fs.Uint64Var(p, name, *p, usage)
	}
}
'''
R(EN, ("func (r *envResolver) init(", '''
func (r *envResolver) init(p interface{}) {
	if r.environ == nil {
		r.environ = make([]string, 0)
	}
	r.flagSet = flag.NewFlagSet("environ", flag.ContinueOnError)
	visitExportedFields(p, r.add)
}

func (r *envResolver) add(path string, _ reflect.StructField, v reflect.Value) {
	name := envStyle(path)
	r.environ = append(r.environ, name)
	bind(r.flagSet, name, path, v)
}
'''), add=BIND, also=((FL, src(FL, "func (r *flagResolver) init("), '''func (r *flagResolver) init(p interface{}) {
	if r.args == nil {
		r.args = os.Args[1:]
	}
	if r.flagSet == nil {
		r.flagSet = flag.NewFlagSet("flag", flag.ContinueOnError)
	}
	visitExportedFields(p, func(path string, _ reflect.StructField, v reflect.Value) {
		bind(r.flagSet, flagStyle(path), path, v)
	})
}
'''), (FL, "	\"reflect\"\n	\"time\"\n", "	\"reflect\"\n")))
W("F02", "	case *int64:\n		fs.Int64Var(p, name, *p, usage)\n", "")
W("F02", "fs.StringVar(p, name, *p, usage)", "fs.StringVar(p, name, \"\", usage)")
# the two spellings of a path differ in a table
R(SG, ("func flagStyle(", '''
func flagStyle(path string) string {
	return style{'-', lowerASCII, false}.apply(path)
}
'''), ("func envStyle(", '''
func envStyle(path string) string {
	return style{'_', upperASCII, true}.apply(path)
}
'''), add='''
// style is how the words of a path are written.
type style struct {
	sep   byte
	conv  func(byte) byte
	upper bool
}

func (s style) apply(path string) string {
	rs := make([]byte, 0, len(path))
	start := true
	for i := 0; i < len(path); i++ {
		b := path[i]
		if b == '.' {
			rs = append(rs, s.sep)
			start = true
			continue
		}
		if isUpperASCII(b) && !start {
			rs = append(rs, s.sep)
		}
		rs = append(rs, s.conv(b))
		start = false
	}
	return string(rs)
}
''')
W("F03", "if isUpperASCII(b) && !start {", "if isUpperASCII(b) && start {")
# both walks share how a field is reached
R(RE, ("func visitExportedFields(", '''
func visitExportedFields(p interface{}, fn visitor) {
	if v, ok := reach(reflect.ValueOf(p)); ok && v.Kind() == reflect.Struct {
		visitFields(v, "", fn)
	}
}
'''), ("func visitExportedFieldsPath(", '''
func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string, fn visitor) {
	v, ok := reach(v)
	if !ok {
		return
	}
	switch k := v.Kind(); k {
	case reflect.Bool, reflect.Float64, reflect.Int,
		reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:
		if t := v.Type(); t.PkgPath() == "" || t == reflect.TypeOf(time.Nanosecond) {
			fn(path, f, v)
		}
	case reflect.Struct:
		visitFields(v, path, fn)
	}
}

// reach follows a pointer; false if nothing can be set there.
func reach(v reflect.Value) (reflect.Value, bool) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, v.CanSet()
}

func visitFields(v reflect.Value, path string, fn visitor) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		name := path
		if !f.Anonymous {
			name = joinPath(path, f.Name)
		}
		visitExportedFieldsPath(f, v.Field(i), name, fn)
	}
}

func joinPath(path, name string) string {
	if path == "" {
		return name
	}
	return path + "." + name
}
'''))
W("F04", "	return v, v.CanSet()\n", "	return v, v.CanAddr()\n")
W("F04", "			name = joinPath(path, f.Name)\n", "			name = joinPath(f.Name, path)\n")
W("F04", "		name := path\n", "		name := \"\"\n")
# the resolvers are made and run in steps
R(CF, ("func Load(", '''
func Load(p interface{}, yamlFlagName string) {
	initStruct(p)
	l := &loader{conf: p, env: &envResolver{}, flag: &flagResolver{}}
	l.declare(yamlFlagName)
	flag.Parse()
	if err := l.run(); err != nil {
		fmt.Println(err.Error())
		os.Exit(2)
	}
}

type loader struct {
	conf interface{}
	yaml string
	env  *envResolver
	flag *flagResolver
}

func (l *loader) declare(yamlFlagName string) {
	if yamlFlagName != "" {
		flag.StringVar(&l.yaml, yamlFlagName, "", "yaml config file")
	}
	l.env.init(l.conf)
	l.flag.flagSet = flag.CommandLine
	l.flag.init(l.conf)
}

func (l *loader) run() error {
	if l.yaml != "" {
		if err := (&yamlFileResolver{File: l.yaml}).Resolve(l.conf); err != nil {
			return err
		}
	}
	for _, r := range [...]confResolver{l.env, l.flag} {
		if err := r.Resolve(l.conf); err != nil {
			return err
		}
	}
	return nil
}
'''))

W("F01", "{l.env, l.flag}", "{l.flag, l.env}")
W("F01", "		if err := r.Resolve(l.conf); err != nil {\n			return err\n		}\n	}\n	return nil", "		if err := r.Resolve(l.conf); err != nil {\n			return nil\n		}\n	}\n	return nil")
RS = "util/rsa/util.go"
R(RS, ("func ReadPrivateKeyBytes(", '''
func ReadPrivateKeyBytes(pemBytes []byte) (*rsa.PrivateKey, error) {
	der, err := privateKeys.decode(pemBytes)
	if err != nil {
		return nil, err
	}
	return x509.ParsePKCS1PrivateKey(der)
}
'''), ("func ReadPublicKeyBytes(", '''
func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
	der, err := publicKeys.decode(pemBytes)
	if err != nil {
		return nil, err
	}
	pub, err := x509.ParsePKIXPublicKey(der)
	if err != nil {
		return nil, err
	}
	if rsaPub, ok := pub.(*rsa.PublicKey); ok {
		return rsaPub, nil
	}
	return nil, fmt.Errorf("expected RSA PUBLIC KEY, got: %T", pub)
}
'''), ("func ReadX509CertificateBytes(", '''
func ReadX509CertificateBytes(pemBytes []byte) (*x509.Certificate, error) {
	der, err := certificates.decode(pemBytes)
	if err != nil {
		return nil, err
	}
	return x509.ParseCertificate(der)
}
'''), ("func ReadPrivateKey(", '''
func ReadPrivateKey(pem string) (*rsa.PrivateKey, error) {
	return ReadPrivateKeyBytes(privateKeys.wrap(pem))
}
'''), ("func ReadPublicKey(", '''
func ReadPublicKey(pem string) (*rsa.PublicKey, error) {
	return ReadPublicKeyBytes(publicKeys.wrap(pem))
}
'''), ("func ReadX509Certificate(", '''
func ReadX509Certificate(pem string) (*x509.Certificate, error) {
	return ReadX509CertificateBytes(certificates.wrap(pem))
}
'''), add='''
// kind is a kind of pem block.
type kind struct {
	typ, label string
}

var (
	privateKeys  = kind{"RSA PRIVATE KEY", "RSA PRIVATE KEY"}
	publicKeys   = kind{"PUBLIC KEY", "RSA PUBLIC KEY"}
	certificates = kind{"CERTIFICATE", "X509 CERTIFICATE"}
)

func (k kind) wrap(text string) []byte {
	return []byte(normalizePem(text, k.typ))
}

func (k kind) decode(pemBytes []byte) ([]byte, error) {
	switch block, _ := pem.Decode(pemBytes); {
	case block == nil:
		return nil, errors.New("invalid " + k.typ)
	case block.Type != k.typ:
		return nil, errors.New("expected type: " + k.label + ", got: " + block.Type)
	default:
		return block.Bytes, nil
	}
}
''')
W("P02", "certificates = kind{\"CERTIFICATE\", ", "certificates = kind{\"PUBLIC KEY\", ")
W("P02", "	case block.Type != k.typ:\n", "	case block.Type != k.typ && k.typ != k.label:\n")
