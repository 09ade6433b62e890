# whole functions rewritten: limiters, breaker, semaphores, bus, store


def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


F = "ratelimiter/fixedwindow.go"
R(F, ("func (s *SyncFixedWindow) Acquire(", """
func (s *SyncFixedWindow) Acquire() (ok bool) {
	ts := s.nowFn().UnixNano()
	s.lock.Lock()
	if s.until < ts {
		s.advance(ts)
	}
	if ok = s.count < s.capacity; ok {
		s.count += 1
	}
	s.lock.Unlock()
	return
}
"""), ("func (s *SyncFixedWindow) reset(", """
func (s *SyncFixedWindow) reset(ts int64) {
	if s.until < ts {
		s.advance(ts)
	}
}

func (s *SyncFixedWindow) advance(ts int64) {
	s.count = 0
	if s.windowSize <= 0 {
		s.until = ts
		return
	}
	behind := ts - s.until
	windows := behind / s.windowSize
	if behind%s.windowSize != 0 {
		windows++
	}
	s.until += windows * s.windowSize
}
"""))
R(F, ("func (s *SyncFixedWindow) Acquire(", """
func (s *SyncFixedWindow) Acquire() bool {
	return s.acquireAt(s.nowFn().UnixNano())
}

func (s *SyncFixedWindow) acquireAt(ts int64) bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	s.reset(ts)
	if s.count >= s.capacity {
		return false
	}
	s.count = s.count + 1
	return true
}
"""), ("func (s *SyncFixedWindow) reset(", """
func (s *SyncFixedWindow) reset(ts int64) {
	behind := ts - s.until
	switch {
	case behind <= 0:
		return
	case s.windowSize > 0:
		// up to the end of the window
		behind = ((behind-1)/s.windowSize + 1) * s.windowSize
	}
	s.until, s.count = s.until+behind, 0
}
"""))

W = "ratelimiter/slidingwindow.go"
R(W, ("func (s *SyncSlidingWindow) Acquire(", """
func (s *SyncSlidingWindow) Acquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	now := s.nowFn().UnixNano()
	if s.capacity == 0 {
		return true
	}
	if s.records.Len() >= s.capacity && !s.expire(now) {
		return false
	}
	s.records.PushBack(now)
	return true
}

// expire forgets the oldest record if the window has passed it
func (s *SyncSlidingWindow) expire(now int64) bool {
	oldest := s.records.Front()
	if now-oldest.Value.(int64) <= s.windowSize {
		return false
	}
	s.records.Remove(oldest)
	return true
}
"""), ("func (s *SyncSlidingWindow) UpdateConfig(", """
func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	if capacity < 0 {
		capacity = 0
	}
	s.lock.Lock()
	defer s.lock.Unlock()
	s.capacity, s.windowSize = capacity, int64(windowSize)
	for n := s.records.Len() - capacity; n > 0; n-- {
		s.records.Remove(s.records.Front())
	}
}
"""))
R(W, ("func (s *SyncSlidingWindow) Acquire(", """
func (s *SyncSlidingWindow) Acquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.acquire(s.nowFn().UnixNano())
}

func (s *SyncSlidingWindow) acquire(now int64) bool {
	switch l := s.records; {
	case s.capacity == 0:
	case l.Len() < s.capacity:
		l.PushBack(now)
	default:
		front := l.Front()
		at, _ := front.Value.(int64)
		if at >= now-s.windowSize {
			return false
		}
		front.Value = now
		l.MoveToBack(front)
	}
	return true
}
"""), ("func (s *SyncSlidingWindow) UpdateConfig(", """
func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	s.lock.Lock()
	defer s.lock.Unlock()
	if s.capacity = capacity; s.capacity < 0 {
		s.capacity = 0
	}
	for e := s.records.Front(); e != nil && s.records.Len() > s.capacity; e = s.records.Front() {
		s.records.Remove(e)
	}
	s.windowSize = windowSize.Nanoseconds()
}
"""))

K = "ratelimiter/tokenbucket.go"
R(K, ("func (t *SyncTokenBucket) Acquire(", """
func (t *SyncTokenBucket) Acquire() (got bool) {
	t.lock.Lock()
	t.issueIfNecessary()
	if t.tokens >= 1 {
		t.tokens, got = t.tokens-1, true
	}
	t.lock.Unlock()
	return got
}
"""), ("func (t *SyncTokenBucket) issueIfNecessary(", """
func (t *SyncTokenBucket) issueIfNecessary() {
	now := t.nowFn().UnixNano()
	elapse := now - t.lastIssueTimestamp
	if t.tokens >= t.capacity {
		if elapse > 0 {
			t.lastIssueTimestamp = now
		}
		return
	}
	if delta := issued(elapse, t.issueRatePerSecond); delta > 0 {
		t.lastIssueTimestamp = now
		if t.tokens += int(delta); t.tokens > t.capacity {
			t.tokens = t.capacity
		}
	}
}

// issued tells how many tokens a period is worth
func issued(elapse int64, rate int) int64 {
	return elapse / int64(time.Second) * int64(rate)
}
"""), ("func (t *AtomicTokenBucket) Acquire(", """
func (t *AtomicTokenBucket) Acquire() bool {
	t.issueIfNecessary()
	for tokens := atomic.LoadInt64(&t.tokens); tokens > 0; tokens = atomic.LoadInt64(&t.tokens) {
		if atomic.CompareAndSwapInt64(&t.tokens, tokens, tokens-1) {
			return true
		}
	}
	return false
}
"""), ("func (t *AtomicTokenBucket) issueIfNecessary(", """
func (t *AtomicTokenBucket) issueIfNecessary() {
	for !t.tryIssue() {
	}
}

// tryIssue reports whether nothing is left to do
func (t *AtomicTokenBucket) tryIssue() bool {
	now := t.nowFn().UnixNano()
	last := atomic.LoadInt64(&t.lastIssueTimestamp)
	full := atomic.LoadInt64(&t.tokens) >= int64(t.capacity)
	if full {
		if last < now {
			atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now)
		}
		return true
	}
	delta := issued(now-last, t.issueRatePerSecond)
	if delta <= 0 {
		return true
	}
	if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, last, now) {
		return false
	}
	t.add(delta)
	return true
}

func (t *AtomicTokenBucket) add(delta int64) {
	max := int64(t.capacity)
	for {
		old := atomic.LoadInt64(&t.tokens)
		sum := old + delta
		if sum > max {
			sum = max
		}
		if atomic.CompareAndSwapInt64(&t.tokens, old, sum) {
			break
		}
	}
}
"""))

C = "circuitbreaker/circuitbreaker.go"
R(C, ("func (s *SyncCircuitBreaker) Do(", """
func (s *SyncCircuitBreaker) Do(task func() error, onError func(error), onOpen func()) {
	if s.state() == open {
		onOpen()
		return
	}
	err := task()
	if err == nil {
		s.reset()
		return
	}
	s.recordFailure()
	onError(err)
}
"""), ("func (s *SyncCircuitBreaker) state(", """
func (s *SyncCircuitBreaker) state() state {
	now := s.nowFn().UnixNano()
	failures, last := s.history()
	switch {
	case failures < s.failureThreshold:
		return closed
	case now-last <= s.resetTimeout:
		return open
	}
	return halfOpen
}

func (s *SyncCircuitBreaker) history() (int, int64) {
	s.lock.RLock()
	defer s.lock.RUnlock()
	return s.failures, s.lastFailureTs
}
"""), ("func (s *SyncCircuitBreaker) reset(", """
func (s *SyncCircuitBreaker) reset() {
	s.set(0, 0)
}

func (s *SyncCircuitBreaker) set(failures int, ts int64) {
	s.lock.Lock()
	s.failures, s.lastFailureTs = failures, ts
	s.lock.Unlock()
}
"""), ("func (n neverOpen) Do(", """
func (neverOpen) Do(task func() error, onError func(error), _ func()) {
	err := task()
	if err == nil {
		return
	}
	onError(err)
}
"""))
R(C, ("func (s *SyncCircuitBreaker) Do(", """
func (s *SyncCircuitBreaker) Do(task func() error, onError func(error), onOpen func()) {
	switch st := s.state(); {
	case st == open:
		onOpen()
	case st == closed || st == halfOpen:
		neverOpen{}.Do(func() error {
			err := task()
			s.settle(err)
			return err
		}, onError, nil)
	}
}

func (s *SyncCircuitBreaker) settle(err error) {
	if err == nil {
		s.reset()
	} else {
		s.recordFailure()
	}
}
"""), ("func (s *SyncCircuitBreaker) state(", """
func (s *SyncCircuitBreaker) state() (st state) {
	now := s.nowFn()
	s.lock.RLock()
	defer s.lock.RUnlock()
	st = closed
	if s.failures >= s.failureThreshold {
		st = open
		if s.waited(now) > s.resetTimeout {
			st = halfOpen
		}
	}
	return
}

func (s *SyncCircuitBreaker) waited(now time.Time) int64 {
	return now.UnixNano() - s.lastFailureTs
}
"""))

S = "concurrent/sema.go"
R(S, ("func (s *ChanSemaphore) TryAcquire(", """
func (s *ChanSemaphore) TryAcquire() (ok bool) {
	select {
	case s.permits <- 1:
		ok = true
	default:
	}
	return ok
}
"""), ("func (s *LockSemaphore) Acquire(", """
func (s *LockSemaphore) Acquire() {
	s.lock.Lock()
	defer s.lock.Unlock()
	for !s.take() {
		s.notFull.Wait()
	}
}

func (s *LockSemaphore) take() bool {
	if s.count >= s.permits {
		return false
	}
	s.count++
	return true
}
"""), ("func (s *LockSemaphore) Release(", """
func (s *LockSemaphore) Release() {
	s.lock.Lock()
	if s.count > 0 {
		s.count--
		s.notFull.Broadcast()
	}
	s.lock.Unlock()
}
"""), ("func (s *LockSemaphore) TryAcquire(", """
func (s *LockSemaphore) TryAcquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	return s.take()
}
"""))
R(S, ("func (s *LockSemaphore) Release(", """
func (s *LockSemaphore) Release() {
	s.lock.Lock()
	released := s.count > 0
	if released {
		s.count -= 1
	}
	s.lock.Unlock()
	if released {
		s.notFull.Signal()
	}
}
"""), ("func NewLockSemaphore(", """
func NewLockSemaphore(permits int64) *LockSemaphore {
	s := new(LockSemaphore)
	s.permits, s.notFull = permits, sync.NewCond(&s.lock)
	return s
}
"""))

E = "event/bus.go"
R(E, ("func (b *FanOutBus) NewRecvStrategy(", """
func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullStrategy) *Receiver {
	recv := newReceiver(b, name, bufSize)
	recv.strategy = fullStrategy
	b.register(recv)
	return recv
}

func newReceiver(b *FanOutBus, name string, bufSize int) *Receiver {
	r := &Receiver{name: name, bus: b, done: make(chan struct{})}
	r.ch = make(chan interface{}, bufSize)
	r.C = r.ch
	return r
}

func (b *FanOutBus) register(r *Receiver) {
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	b.recvMap[r.name] = r
}
"""), ("func (b *FanOutBus) Close(", """
func (b *FanOutBus) Close() {
	close(b.ch)
	close(b.done)
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	for _, recv := range b.recvMap {
		recv.shut()
	}
	b.recvMap = make(map[string]*Receiver)
}

func (r *Receiver) shut() {
	r.closed = true
	close(r.ch)
}
"""), ("func (b *FanOutBus) deregisterRecv(", """
func (b *FanOutBus) deregisterRecv(recv *Receiver) {
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	if !recv.closed {
		recv.shut()
		if cur, ok := b.recvMap[recv.name]; ok && cur == recv {
			delete(b.recvMap, recv.name)
		}
	}
}
"""), ("func (b *FanOutBus) doDispatch(", """
func (b *FanOutBus) doDispatch() {
	for {
		event, ok := <-b.ch
		if !ok {
			return
		}
		b.dispatch(event)
	}
}

func (b *FanOutBus) dispatch(event interface{}) {
	b.recvMapLock.RLock()
	defer b.recvMapLock.RUnlock()
	for name := range b.recvMap {
		b.recvMap[name].onEvent(event)
	}
}
"""))
R(E, ("func (r *Receiver) Drain(", """
func (r *Receiver) Drain() (data []interface{}) {
	for data = []interface{}{}; ; {
		select {
		case d, ok := <-r.C:
			if ok {
				data = append(data, d)
				continue
			}
		default:
		}
		return data
	}
}
"""), ("func (r *Receiver) CollectTimeout(", """
func (r *Receiver) CollectTimeout(timeout time.Duration) []interface{} {
	data := []interface{}{}
	timer := time.NewTimer(timeout)
	defer timer.Stop()
	for {
		d, ok := r.next(timer.C)
		if !ok {
			return data
		}
		data = append(data, d)
	}
}

func (r *Receiver) next(end <-chan time.Time) (d interface{}, ok bool) {
	select {
	case d, ok = <-r.C:
	case <-end:
	}
	return
}
"""), ("func (r *Receiver) onEvent(", """
func (r *Receiver) onEvent(v interface{}) {
	if r.strategy == Block {
		r.deliver(v)
		return
	}
	if r.strategy != Drop {
		return
	}
	select {
	case r.ch <- v:
		return
	default:
	}
	log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
}

func (r *Receiver) deliver(v interface{}) {
	select {
	case <-r.bus.done:
	case <-r.done:
	case r.ch <- v:
	}
}
"""))
R(E, ("func (r *Receiver) CollectTimeout(", """
func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
	data = []interface{}{}
	deadline := time.After(timeout)
	for open := true; open; {
		var d interface{}
		select {
		case d, open = <-r.C:
			if open {
				data = append(data, d)
			}
		case <-deadline:
			return data
		}
	}
	return data
}
"""))
R(E, ("func (b *FanOutBus) doDispatch(", """
func (b *FanOutBus) doDispatch() {
	send := func(event interface{}) {
		b.recvMapLock.RLock()
		defer b.recvMapLock.RUnlock()
		for _, r := range b.recvMap {
			r.onEvent(event)
		}
	}
	for event := range b.ch {
		send(event)
	}
}
"""), ("func (b *FanOutBus) Close(", """
func (b *FanOutBus) Close() {
	close(b.ch)
	close(b.done)
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	recvs := make([]*Receiver, 0, len(b.recvMap))
	for _, r := range b.recvMap {
		recvs = append(recvs, r)
	}
	b.recvMap = map[string]*Receiver{}
	for _, r := range recvs {
		r.closed = true
		close(r.ch)
	}
}
"""))

ST = "confstore/store.go"
R(ST, ("func (m *defaultImpl) RegisterKey(", """
func (m *defaultImpl) RegisterKey(key string, defaultValue string, vp ValueProcessor) error {
	switch {
	case key == "":
		return errors.New("key is required")
	case reflect2.IsNil(vp):
		return errors.New("ValueProcessor is required")
	}
	m.kvProcessorLock.Lock()
	defer m.kvProcessorLock.Unlock()
	m.kvLock.Lock()
	defer m.kvLock.Unlock()
	if err := m.free(key); err != nil {
		return err
	}
	ok, reason := vp.Validate(defaultValue)
	if !ok {
		return errors.New(reason)
	}
	v := vp.Convert(defaultValue)
	m.kvProcessor[key] = vp
	m.kvDefault[key], m.kvDefaultStr[key] = v, defaultValue
	return nil
}

func (m *defaultImpl) free(key string) error {
	_, processor := m.kvProcessor[key]
	_, value := m.kvDefault[key]
	if processor {
		return fmt.Errorf("key[%s] ValueProcessor duplicated", key)
	}
	if value {
		return fmt.Errorf("key[%s] default value duplicated", key)
	}
	return nil
}
"""), ("func (m *defaultImpl) DeregisterKey(", """
func (m *defaultImpl) DeregisterKey(key string) {
	if len(key) == 0 {
		return
	}
	m.kvProcessorLock.Lock()
	defer m.kvProcessorLock.Unlock()
	m.kvLock.Lock()
	defer m.kvLock.Unlock()
	for _, kv := range []map[string]string{m.kvStr, m.kvDefaultStr} {
		delete(kv, key)
	}
	for _, kv := range []map[string]interface{}{m.kv, m.kvDefault} {
		delete(kv, key)
	}
	delete(m.kvProcessor, key)
	m.unsave(key)
}

func (m *defaultImpl) unsave(key string) {
	if err := m.persister.Delete(key); err != nil {
		simplelog.ErrLogger.Println("perister delete key error:", err)
	}
}
"""), ("func (m *defaultImpl) ResetKey(", """
func (m *defaultImpl) ResetKey(key string) {
	m.kvLock.Lock()
	defer m.kvLock.Unlock()
	defer m.unsave(key)
	delete(m.kvStr, key)
	delete(m.kv, key)
}
"""))
R(ST, ("func (m *defaultImpl) BatchUpdate(", """
func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
	if len(kvStrs) == 0 {
		return nil
	}
	rejected := []*KVError{}
	var accepted []*KVStr
	for i := range kvStrs {
		kv := kvStrs[i]
		if e := m.UpdateNoPersist(kv.Key, kv.Value); e != nil {
			rejected = append(rejected, e)
		} else if kv.Key != "" {
			accepted = append(accepted, kv)
		}
	}
	m.saved(m.persister.BatchSave(accepted), "error happened when batch persist keys:")
	return rejected
}

func (m *defaultImpl) saved(err error, what string) {
	if err != nil {
		simplelog.ErrLogger.Println(what, err)
	}
}
"""), ("func (m *defaultImpl) Update(", """
func (m *defaultImpl) Update(key string, value string) *KVError {
	if kvErr := m.UpdateNoPersist(key, value); kvErr != nil {
		return kvErr
	}
	if key != "" && m.persister.Save(key, value) != nil {
		simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\\n", key, value)
	}
	return nil
}
"""), ("func (m *defaultImpl) UpdateNoPersist(", """
func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
	if key == "" {
		return nil
	}
	m.kvProcessorLock.RLock()
	defer m.kvProcessorLock.RUnlock()
	reason := ""
	p, hit := m.kvProcessor[key]
	if hit {
		var ok bool
		if ok, reason = p.Validate(value); ok {
			m.put(key, value, p.Convert(value))
			return nil
		}
	} else {
		reason = fmt.Sprintf("key[%s] not registered", key)
	}
	return &KVError{key, value, reason}
}

func (m *defaultImpl) put(key, value string, v interface{}) {
	m.kvLock.Lock()
	defer m.kvLock.Unlock()
	m.kv[key], m.kvStr[key] = v, value
}
"""))
R(ST, ("func (m *defaultImpl) BatchGetValues(", """
func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
	m.load()
	kvs := make([]*KV, 0, len(keys))
	for i := 0; i < len(keys); i++ {
		if keys[i] != "" {
			if v, hit := m.GetValue(keys[i]); hit {
				kvs = append(kvs, &KV{Key: keys[i], Value: v})
			}
		}
	}
	return kvs
}

func (m *defaultImpl) load() {
	_ = m.loadPolicy.DoLoad(m, m.persister)
}
"""), ("func (m *defaultImpl) BatchGetValueString(", """
func (m *defaultImpl) BatchGetValueString(keys []string) (kvs []*KVStr) {
	m.load()
	kvs = []*KVStr{}
	for _, key := range keys {
		kv := &KVStr{Key: key}
		var hit bool
		if key != "" {
			kv.Value, hit = m.GetValueString(key)
		}
		if hit {
			kvs = append(kvs, kv)
		}
	}
	return
}
"""), ("func (m *defaultImpl) GetValue(", """
func (m *defaultImpl) GetValue(key string) (interface{}, bool) {
	m.load()
	m.kvLock.RLock()
	defer m.kvLock.RUnlock()
	for _, kv := range []map[string]interface{}{m.kv, m.kvDefault} {
		if v, hit := kv[key]; hit {
			return v, true
		}
	}
	return nil, false
}
"""), ("func (m *defaultImpl) GetValueString(", """
func (m *defaultImpl) GetValueString(key string) (string, bool) {
	m.load()
	m.kvLock.RLock()
	defer m.kvLock.RUnlock()
	if v, set := m.kvStr[key]; set {
		return v, set
	}
	v, def := m.kvDefaultStr[key]
	return v, def
}
"""), ("func (m *defaultImpl) MustGetValue(", """
func (m *defaultImpl) MustGetValue(key string) interface{} {
	v, hit := m.GetValue(key)
	m.must(key, hit)
	return v
}

func (m *defaultImpl) must(key string, hit bool) {
	if !hit {
		panic(fmt.Sprintf("config key[%s] missing", key))
	}
}
"""), ("func (m *defaultImpl) MustGetValueString(", """
func (m *defaultImpl) MustGetValueString(key string) (v string) {
	v, hit := m.GetValueString(key)
	m.must(key, hit)
	return
}
"""))

LD = "confstore/loader.go"
R(LD, ("func (t *defaultLoadPolicy) DoLoad(", """
func (t *defaultLoadPolicy) DoLoad(s Interface, p Persister) (err error) {
	t.loadLock.Lock()
	defer t.loadLock.Unlock()
	throttled := t.minInterval > 0
	if throttled && !t.due(time.Now()) {
		return nil
	}
	if err = p.Load(s); err == nil && throttled {
		t.lastLoadTs = time.Now()
	}
	return
}

func (t *defaultLoadPolicy) due(now time.Time) bool {
	return !now.Add(-t.minInterval).Before(t.lastLoadTs)
}
"""))
R(LD, ("func (t *defaultLoadPolicy) DoLoad(", """
func (t *defaultLoadPolicy) DoLoad(s Interface, p Persister) error {
	t.loadLock.Lock()
	defer t.loadLock.Unlock()
	if t.minInterval > 0 && t.lastLoadTs.After(time.Now().Add(-t.minInterval)) {
		return nil
	}
	if err := p.Load(s); err != nil {
		return err
	}
	t.lastLoadTs = time.Now()
	return nil
}
"""))
P = "confstore/persister.go"
R(P, ("func (r *redisPersister) Load(", """
func (r *redisPersister) Load(s Interface) error {
	all, err := r.redisClient.HGetAll(r.configRootKey).Result()
	if err == nil {
		for key := range all {
			r.loadInto(s, key, all[key])
		}
		simplelog.StdLogger.Printf("%d config keys loaded from redis\\n", len(all))
		return nil
	}
	simplelog.ErrLogger.Println("load configs from redis failed:", err)
	return err
}

func (r *redisPersister) loadInto(s Interface, key, value string) {
	if e := s.UpdateNoPersist(key, value); e != nil {
		simplelog.StdLogger.Printf("warning: load key[%s] value[%s] error: %s\\n", e.Key, e.Value, e.Error)
	}
}
"""), ("func (r *redisPersister) BatchSave(", """
func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	if len(kvStrs) == 0 {
		return nil
	}
	var args []string
	for i := range kvStrs {
		args = append(args, kvStrs[i].Key, kvStrs[i].Value)
	}
	return r.redisClient.HMSet(r.configRootKey, args).Err()
}
"""), ("func (r *redisPersister) Delete(", """
func (r *redisPersister) Delete(key string) error {
	return r.redisClient.HDel(r.configRootKey, key).Err()
}
"""))
R(P, ("func (r *redisPersister) BatchSave(", """
func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	args := make([]string, 2*len(kvStrs))
	for i, kvStr := range kvStrs {
		args[2*i], args[2*i+1] = kvStr.Key, kvStr.Value
	}
	if len(args) > 0 {
		_, err := r.redisClient.HMSet(r.configRootKey, args).Result()
		return err
	}
	return nil
}
"""))
R(P, ("func (r *redisPersister) Save(", """
func (r *redisPersister) Save(key, value string) error {
	return r.save([]string{key, value})
}

func (r *redisPersister) save(pairs []string) error {
	return r.redisClient.HMSet(r.configRootKey, pairs).Err()
}
"""), ("func (r *redisPersister) BatchSave(", """
func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	pairs := make([]string, 0, 2*len(kvStrs))
	for _, kv := range kvStrs {
		pairs = append(pairs, kv.Key, kv.Value)
	}
	if len(pairs) == 0 {
		return nil
	}
	return r.save(pairs)
}
"""))


def RM(props, path, *pairs):
    MM(props, *[(path, src(path, h), new.lstrip("\n")) for h, new in pairs])


RM("R03", W, ("func (s *SyncSlidingWindow) UpdateConfig(", """
func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	s.lock.Lock()
	defer s.lock.Unlock()
	if s.capacity = capacity; s.capacity < 0 {
		s.capacity = 0
	}
	for e := s.records.Front(); e != nil && s.records.Len() > s.capacity; e = e.Next() {
		s.records.Remove(e)
	}
	s.windowSize = windowSize.Nanoseconds()
}
"""))
M("R02", W, "	return false\n}\n\nfunc (s *SyncSlidingWindow) Capacity(", "	oldestV.Value = now\n	return false\n}\n\nfunc (s *SyncSlidingWindow) Capacity(")
M("R02", W, "		s.records.Remove(oldestV)\n		s.records.PushBack(now)\n", "		oldestV.Value = now\n")
M("R02", W, "		s.records.Remove(oldestV)\n		s.records.PushBack(now)\n", "		s.records.MoveToBack(oldestV)\n")
M("E01", E, "		for _, recv := range b.recvMap {\n			recv.onEvent(event)\n", "		for name := range b.recvMap {\n			b.recvMap[\"r-\"+name].onEvent(event)\n")
M("E02", E, "		close(recv.ch)\n		delete(b.recvMap, name)\n	}\n	b.recvMapLock.Unlock()\n", "		close(recv.ch)\n		_ = name\n	}\n	b.recvMapLock.Unlock()\n	b.recvMap = map[string]*Receiver{}\n")
M("E02", E, "	recv.closed = true\n	close(recv.ch)\n	if b.recvMap", "	recv.closed = true\n	close(recv.ch)\n	b.recvMap = map[string]*Receiver{}\n	if b.recvMap")
COLL = """
func (b *FanOutBus) Close() {
	close(b.ch)
	close(b.done)
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	var recvs []*Receiver
	for _, r := range b.recvMap {
		%s
	}
	b.recvMap = map[string]*Receiver{}
	%s
	for _, r := range recvs {
		%s
	}
}
"""
AP = "recvs = append(recvs, r)"
SH = "r.closed = true\n\t\tclose(r.ch)"
RM("E03", E, ("func (b *FanOutBus) Close(", COLL % ("if r.strategy == Block {\n\t\t\t" + AP + "\n\t\t}", "", SH)))
RM("E03", E, ("func (b *FanOutBus) Close(", COLL % (AP, "", "if r.closed {\n\t\t\tbreak\n\t\t}\n\t\t" + SH)))
RM("E02", E, ("func (b *FanOutBus) Close(", COLL % (AP, "b.recvMapLock.Unlock()\n\tb.recvMapLock.Lock()", SH)))
RM("R04", K, ("func (t *AtomicTokenBucket) Acquire(", """
func (t *AtomicTokenBucket) Acquire() bool {
	t.issueIfNecessary()
	for tokens := atomic.LoadInt64(&t.tokens); tokens > 0; tokens-- {
		if atomic.CompareAndSwapInt64(&t.tokens, tokens, tokens-1) {
			return true
		}
	}
	return false
}
"""))
