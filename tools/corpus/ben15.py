# Rewrites as someone else might make them: helpers, early returns, loops turned over, shared code.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), n) for h, n in pairs]
    if add:
        edits.append((path, "", add))
    BB(*edits, *also)


EB, SW, TB, FW, S = "event/bus.go", "ratelimiter/slidingwindow.go", "ratelimiter/tokenbucket.go", "ratelimiter/fixedwindow.go", "concurrent/sema.go"
R(EB, ("func (b *FanOutBus) Close() {", '''func (b *FanOutBus) Close() {
	close(b.ch)
	close(b.done)
	b.closeReceivers()
}

func (b *FanOutBus) closeReceivers() {
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	for _, recv := range b.recvMap {
		recv.markClosed()
	}
	b.recvMap = make(map[string]*Receiver)
}

// markClosed: recvMapLock must be held
func (r *Receiver) markClosed() {
	r.closed = true
	close(r.ch)
}
'''), ("func (b *FanOutBus) deregisterRecv(", '''func (b *FanOutBus) deregisterRecv(recv *Receiver) {
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()

	if !recv.closed {
		recv.markClosed()
		if cur, ok := b.recvMap[recv.name]; ok && cur == recv {
			delete(b.recvMap, recv.name)
		}
	}
}
'''))
R(EB, ("func (r *Receiver) CollectTimeout(", '''func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
	timer := time.NewTimer(timeout)
	defer timer.Stop()
	data = make([]interface{}, 0, 10)
	for {
		d, ok := r.next(timer.C)
		if !ok {
			return data
		}
		data = append(data, d)
	}
}

func (r *Receiver) next(until <-chan time.Time) (d interface{}, ok bool) {
	select {
	case d, ok = <-r.C:
	case <-until:
	}
	return d, ok
}
'''))
R(EB, ("func (r *Receiver) CollectTimeout(", '''func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	data = make([]interface{}, 0, 10)
	for {
		select {
		case d, ok := <-r.C:
			if !ok {
				return
			}
			data = append(data, d)
		case <-ctx.Done():
			return
		}
	}
}
'''), also=[(EB, "import (\n", "import (\n	\"context\"\n")])
R(EB, ("func (r *Receiver) onEvent(", '''func (r *Receiver) onEvent(v interface{}) {
	if r.strategy == Drop {
		if !r.offer(v) {
			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
		}
		return
	}
	if r.strategy == Block {
		r.deliver(v)
	}
}

func (r *Receiver) offer(v interface{}) (sent bool) {
	select {
	case r.ch <- v:
		sent = true
	default:
	}
	return
}

func (r *Receiver) deliver(v interface{}) {
	select {
	case r.ch <- v:
	case <-r.done:
	case <-r.bus.done:
	}
}
'''), ("func (b *FanOutBus) doDispatch() {", '''func (b *FanOutBus) doDispatch() {
	for {
		event, ok := <-b.ch
		if !ok {
			return
		}
		b.fanOut(event)
	}
}

func (b *FanOutBus) fanOut(event interface{}) {
	b.recvMapLock.RLock()
	defer b.recvMapLock.RUnlock()
	for name := range b.recvMap {
		b.recvMap[name].onEvent(event)
	}
}
'''))
# sliding window
R(SW, ("func (s *SyncSlidingWindow) Acquire() bool {", '''func (s *SyncSlidingWindow) Acquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()

	now := s.nowFn().UnixNano()
	switch {
	case s.capacity == 0:
		return true
	case s.records.Len() >= s.capacity:
		oldest := s.records.Front()
		if age := now - oldest.Value.(int64); age <= s.windowSize {
			return false
		}
		s.records.Remove(oldest)
	}
	s.records.PushBack(now)
	return true
}
'''))
R(SW, ("func (s *SyncSlidingWindow) Acquire() bool {", '''func (s *SyncSlidingWindow) Acquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	now := s.nowFn().UnixNano()
	if s.capacity != 0 {
		if s.full() {
			if !s.dropExpired(now) {
				return false
			}
		}
		s.records.PushBack(now)
	}
	return true
}

func (s *SyncSlidingWindow) full() bool { return s.records.Len() >= s.capacity }

func (s *SyncSlidingWindow) dropExpired(now int64) bool {
	front := s.records.Front()
	if ts := front.Value.(int64); now-ts > s.windowSize {
		s.records.Remove(front)
		return true
	}
	return false
}
'''))
R(SW, ("func (s *SyncSlidingWindow) UpdateConfig(", '''func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	s.lock.Lock()
	defer s.lock.Unlock()

	capacity = atLeastZero(capacity)
	excess := s.records.Len() - capacity
	for ; excess > 0; excess-- {
		s.records.Remove(s.records.Front())
	}
	s.capacity, s.windowSize = capacity, int64(windowSize)
}

func atLeastZero(n int) int {
	if n > 0 {
		return n
	}
	return 0
}
'''), ("func NewSyncSlidingWindow(", '''func NewSyncSlidingWindow(capacity int, windowSize time.Duration) *SyncSlidingWindow {
	s := &SyncSlidingWindow{records: list.New(), nowFn: gtime.SysNow}
	s.capacity, s.windowSize = atLeastZero(capacity), windowSize.Nanoseconds()
	return s
}
'''))
R(SW, ("func (s *SyncSlidingWindow) UpdateConfig(", '''func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	if capacity < 0 {
		capacity = 0
	}
	s.lock.Lock()
	defer s.lock.Unlock()
	s.capacity = capacity
	s.windowSize = int64(windowSize)
	for front := s.records.Front(); front != nil && s.records.Len() > s.capacity; front = s.records.Front() {
		s.records.Remove(front)
	}
}
'''))
# token buckets
R(TB, ("func (t *SyncTokenBucket) issueIfNecessary() {", '''func (t *SyncTokenBucket) issueIfNecessary() {
	now := t.nowFn().UnixNano()
	if t.tokens < t.capacity {
		delta := tokensFor(now-t.lastIssueTimestamp, t.issueRatePerSecond)
		if delta > 0 {
			if t.tokens += int(delta); t.tokens > t.capacity {
				t.tokens = t.capacity
			}
			t.lastIssueTimestamp = now
		}
	} else if now > t.lastIssueTimestamp {
		t.lastIssueTimestamp = now
	}
}

func tokensFor(elapse int64, rate int) int64 {
	seconds := elapse / int64(time.Second)
	return seconds * int64(rate)
}
'''))
R(TB, ("func (t *AtomicTokenBucket) Acquire() bool {", '''func (t *AtomicTokenBucket) Acquire() bool {
	t.issueIfNecessary()
	for old := t.available(); old > 0; old = t.available() {
		if atomic.CompareAndSwapInt64(&t.tokens, old, old-1) {
			return true
		}
	}
	return false
}

func (t *AtomicTokenBucket) available() int64 { return atomic.LoadInt64(&t.tokens) }
'''), ("func (t *AtomicTokenBucket) issueIfNecessary() {", '''func (t *AtomicTokenBucket) issueIfNecessary() {
	limit := int64(t.capacity)
	for {
		now := t.nowFn().UnixNano()
		last := atomic.LoadInt64(&t.lastIssueTimestamp)
		if t.available() >= limit {
			if last < now {
				atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now)
			}
			return
		}
		delta := (now - last) / int64(time.Second) * int64(t.issueRatePerSecond)
		if delta <= 0 {
			return
		}
		if atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now) {
			t.credit(delta, limit)
			return
		}
	}
}

func (t *AtomicTokenBucket) credit(n, limit int64) {
	for done := false; !done; {
		old := t.available()
		sum := old + n
		if sum > limit {
			sum = limit
		}
		done = atomic.CompareAndSwapInt64(&t.tokens, old, sum)
	}
}
'''))
R(TB, ("func (t *SyncTokenBucket) Acquire() bool {", '''func (t *SyncTokenBucket) Acquire() bool {
	t.lock.Lock()
	defer t.lock.Unlock()

	t.issueIfNecessary()

	ok := t.tokens > 0
	if ok {
		t.tokens -= 1
	}
	return ok
}
'''))
# fixed window, semaphores
R(FW, ("func (s *SyncFixedWindow) Acquire() bool {", '''func (s *SyncFixedWindow) Acquire() bool {
	now := s.nowFn().UnixNano()
	s.lock.Lock()
	defer s.lock.Unlock()
	s.reset(now)
	granted := s.count < s.capacity
	if granted {
		s.count++
	}
	return granted
}
'''))
R(FW, ("func (s *SyncFixedWindow) reset(", '''func (s *SyncFixedWindow) reset(ts int64) {
	behind := ts - s.until
	if behind <= 0 {
		return
	}
	s.count = 0
	if s.windowSize <= 0 {
		s.until = ts
		return
	}
	windows := behind / s.windowSize
	if behind%s.windowSize > 0 {
		windows++
	}
	s.until = s.until + windows*s.windowSize
}
'''))
R(S, ("func (s *LockSemaphore) Acquire() {", '''func (s *LockSemaphore) Acquire() {
	s.lock.Lock()
	defer s.lock.Unlock()
	for !s.take() {
		s.notFull.Wait()
	}
}

func (s *LockSemaphore) take() bool {
	if s.isFull() {
		return false
	}
	s.count++
	return true
}
'''), ("func (s *LockSemaphore) TryAcquire() bool {", '''func (s *LockSemaphore) TryAcquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.take()
}
'''), ("func (s *LockSemaphore) Release() {", '''func (s *LockSemaphore) Release() {
	s.lock.Lock()
	if s.count > 0 {
		s.count -= 1
		s.notFull.Broadcast()
	}
	s.lock.Unlock()
}
'''))
MM("C01", (S, src(S, "func (s *LockSemaphore) TryAcquire() bool {"), '''func (s *LockSemaphore) TryAcquire() bool {
	return s.take()
}

func (s *LockSemaphore) take() bool {
	if s.isFull() {
		return false
	}
	s.count++
	return true
}
'''))
# circuit breaker
CB = "circuitbreaker/circuitbreaker.go"
R(CB, ("func (s *SyncCircuitBreaker) Do(", '''func (s *SyncCircuitBreaker) Do(task func() error, onError func(error), onOpen func()) {
	if s.state() == open {
		onOpen()
		return
	}
	s.run(task, onError)
}

func (s *SyncCircuitBreaker) run(task func() error, onError func(error)) {
	err := task()
	if err == nil {
		s.reset()
		return
	}
	s.recordFailure()
	onError(err)
}
'''), ("func (s *SyncCircuitBreaker) state() state {", '''func (s *SyncCircuitBreaker) state() state {
	now := s.nowFn().UnixNano()
	s.lock.RLock()
	failures, last := s.failures, s.lastFailureTs
	s.lock.RUnlock()

	switch {
	case failures < s.failureThreshold:
		return closed
	case now-last > s.resetTimeout:
		return halfOpen
	}
	return open
}
'''))
# schedule
TK = "schedule/task.go"
R(TK, ("func (t *taskCommon) runJob(", '''func (t *taskCommon) runJob(nextNo int64) {
	simplelog.StdLogger.Printf("task[%s] job[#%v] start\\n", t.name, nextNo)

	timeoutCtx, cancel := context.WithTimeout(context.Background(), t.timeout)
	defer cancel()

	fin := make(chan struct{})
	go t.perform(timeoutCtx, nextNo, fin)
	t.await(timeoutCtx, cancel, fin)
}

func (t *taskCommon) await(ctx context.Context, cancel context.CancelFunc, fin <-chan struct{}) {
	select {
	case <-fin:
		return
	case <-t.stopSig:
		cancel()
	case <-ctx.Done():
	}
	<-fin
}

func (t *taskCommon) perform(ctx context.Context, nextNo int64, fin chan<- struct{}) {
	startAt := time.Now()
	err := t.job(ctx.Done())
	elapse := time.Since(startAt)
	close(fin)

	if err != nil {
		simplelog.ErrLogger.Printf("task[%s] job[#%v] error: %v\\n", t.name, nextNo, err)
	}
	switch ctx.Err() {
	case context.Canceled:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled by stop signal, time elapse %v\\n", t.name, nextNo, elapse)
	case context.DeadlineExceeded:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled due to timeout(%v), time elapse %v\\n", t.name, nextNo, t.timeout, elapse)
	default:
		simplelog.StdLogger.Printf("task[%s] job[#%v] finished, time elapse %v\\n", t.name, nextNo, elapse)
	}
}
'''), ("func (t *taskCommon) markStart() error {", '''func (t *taskCommon) markStart() error {
	switch t.status {
	case started:
		return fmt.Errorf("task[%s] start error, you cannot start a Task twice", t.name)
	case stopped:
		return fmt.Errorf("task[%s] start error, you cannot start a stopped Task", t.name)
	}
	t.status = started
	return nil
}
'''), ("func (t *taskCommon) markStopSendSignal() error {", '''func (t *taskCommon) markStopSendSignal() error {
	if t.status == started {
		t.status = stopped
		close(t.stopSig)
		return nil
	}
	reason := errors.New("task is already stopped")
	if t.status == new {
		reason = errors.New("Task is not started")
	}
	return fmt.Errorf("task[%s] stop error, %v", t.name, reason)
}
'''))
MM("S03", (TK, src(TK, "func (t *taskCommon) runJob(")[src(TK, "func (t *taskCommon) runJob(").index("	select {"):], '''	select {
	case <-fin:
	case <-t.stopSig:
		cancel()
	case <-timeoutCtx.Done():
	}
	if timeoutCtx.Err() == context.DeadlineExceeded {
		<-fin
	}
}
'''))
# fixed delay / fixed rate
FD, FR, TM = "schedule/fixed_delay_task.go", "schedule/fixed_rate_task.go", "schedule/task_manager.go"
R(FD, ("func (t *FixedDelayTask) startConsuming() {", '''func (t *FixedDelayTask) startConsuming() {
	for t.awaitTurn() {
		t.runJob(t.nextNo())
		t.appendJobQueueFuture()
	}
}

// awaitTurn returns false once the task is stopped
func (t *FixedDelayTask) awaitTurn() bool {
	select {
	case <-t.stopSig:
		return false
	case <-t.jobQ:
		return t.getStatus() != stopped
	}
}
'''), ("func (t *FixedDelayTask) appendJobQueueFuture() {", '''func (t *FixedDelayTask) appendJobQueueFuture() {
	time.AfterFunc(t.interval, func() { _ = t.appendJobQueue() })
}
'''))
R(FD, ("func (t *FixedDelayTask) startConsuming() {", '''func (t *FixedDelayTask) startConsuming() {
	for {
		select {
		case <-t.jobQ:
		case <-t.stopSig:
			return
		}
		if stopped == t.getStatus() {
			break
		}
		no := t.nextNo()
		t.runJob(no)
		go t.appendJobQueueFuture()
	}
}
'''))
R(FR, ("func (t *FixedRateTask) startProviding() {", '''func (t *FixedRateTask) startProviding() {
	for t.appendJobQueue() {
		select {
		case <-t.ticker.C:
		case <-t.stopSig:
			return
		}
	}
}
'''), ("func (t *FixedRateTask) Stop() error {", '''func (t *FixedRateTask) Stop() (err error) {
	t.lock.Lock()
	defer t.lock.Unlock()
	if err = t.markStopSendSignal(); err == nil {
		t.ticker.Stop()
		simplelog.StdLogger.Printf("task[%s] stop signal sent", t.name)
	}
	return
}
'''))
R(TM, ("func (m *taskManager) Unregister(", '''func (m *taskManager) Unregister(name string) {
	m.lock.Lock()
	defer m.lock.Unlock()
	if task, hit := m.taskMap[name]; hit && task != nil {
		m.drop(name, task)
	}
}

func (m *taskManager) drop(name string, task Task) {
	delete(m.taskMap, name)
	_ = task.Stop()
}
'''), ("func (m *taskManager) UnregisterAll() {", '''func (m *taskManager) UnregisterAll() {
	m.lock.Lock()
	defer m.lock.Unlock()
	for name, task := range m.taskMap {
		m.drop(name, task)
	}
}
'''))
# store
ST = "confstore/store.go"
R(ST, ("func (m *defaultImpl) BatchUpdate(", '''func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
	if len(kvStrs) == 0 {
		return nil
	}
	rejected := make([]*KVError, 0, len(kvStrs))
	accepted := make([]*KVStr, 0, len(kvStrs))
	for i := range kvStrs {
		kv := kvStrs[i]
		switch why := m.UpdateNoPersist(kv.Key, kv.Value); {
		case why != nil:
			rejected = append(rejected, why)
		case kv.Key != "":
			accepted = append(accepted, kv)
		}
	}
	m.persistAll(accepted)
	return rejected
}

func (m *defaultImpl) persistAll(kvStrs []*KVStr) {
	if err := m.persister.BatchSave(kvStrs); err != nil {
		simplelog.ErrLogger.Println("error happened when batch persist keys:", err)
	}
}
'''), ("func (m *defaultImpl) UpdateNoPersist(", '''func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
	if key == "" {
		return nil
	}
	m.kvProcessorLock.RLock()
	defer m.kvProcessorLock.RUnlock()

	why := m.check(key, value)
	if why != "" {
		return &KVError{Key: key, Value: value, Error: why}
	}
	m.put(key, value, m.kvProcessor[key].Convert(value))
	return nil
}

func (m *defaultImpl) check(key, value string) string {
	p, hit := m.kvProcessor[key]
	if !hit {
		return fmt.Sprintf("key[%s] not registered", key)
	}
	ok, why := p.Validate(value)
	if ok {
		return ""
	}
	if why == "" {
		why = "invalid"
	}
	return why
}

func (m *defaultImpl) put(key, str string, v interface{}) {
	m.kvLock.Lock()
	defer m.kvLock.Unlock()
	m.kvStr[key], m.kv[key] = str, v
}
'''))
R(ST, ("func (m *defaultImpl) GetValue(", '''func (m *defaultImpl) GetValue(key string) (interface{}, bool) {
	m.loadPolicy.DoLoad(m, m.persister)
	m.kvLock.RLock()
	defer m.kvLock.RUnlock()
	if v, hit := m.kv[key]; hit {
		return v, true
	}
	d, hit := m.kvDefault[key]
	return d, hit
}
'''), ("func (m *defaultImpl) MustGetValue(", '''func (m *defaultImpl) MustGetValue(key string) interface{} {
	m.loadPolicy.DoLoad(m, m.persister)
	if v, hit := m.GetValue(key); hit {
		return v
	}
	panic(missing(key))
}

func missing(key string) string { return "config key[" + key + "] missing" }
'''), ("func (m *defaultImpl) ResetKey(", '''func (m *defaultImpl) ResetKey(key string) {
	m.kvLock.Lock()
	defer m.kvLock.Unlock()
	m.forget(key)
	m.unsave(key)
}

func (m *defaultImpl) forget(key string) {
	for _, remove := range []func(){func() { delete(m.kv, key) }, func() { delete(m.kvStr, key) }} {
		remove()
	}
}

func (m *defaultImpl) unsave(key string) {
	if err := m.persister.Delete(key); err != nil {
		simplelog.ErrLogger.Println("perister delete key error:", err)
	}
}
'''))
R(ST, ("func (m *defaultImpl) BatchGetValues(", '''func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
	m.loadPolicy.DoLoad(m, m.persister)

	kvs := make([]*KV, 0, len(keys))
	for _, key := range keys {
		if kv := m.entry(key); kv != nil {
			kvs = append(kvs, kv)
		}
	}
	return kvs
}

func (m *defaultImpl) entry(key string) *KV {
	if key == "" {
		return nil
	}
	if v, hit := m.GetValue(key); hit {
		return &KV{key, v}
	}
	return nil
}
'''))
CT = src(EB, "func (r *Receiver) CollectTimeout(")
CTX = (EB, "import (\n", "import (\n	\"context\"\n")
for head, body in (
    ("	ctx, cancel := context.WithTimeout(context.Background(), timeout)\n	defer cancel()\n	cancel()\n", ""),
    ("	ctx, cancel := context.WithTimeout(context.Background(), timeout/2)\n	defer cancel()\n", ""),
    ("", "		ctx, cancel := context.WithTimeout(context.Background(), timeout)\n		defer cancel()\n"),
):
    MM("E04", (EB, CT, "func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {\n" + head + "	data = make([]interface{}, 0, 10)\n	for {\n" + body + "		select {\n		case d, ok := <-r.C:\n			if !ok {\n				return\n			}\n			data = append(data, d)\n		case <-ctx.Done():\n			return\n		}\n	}\n}\n"), CTX)
