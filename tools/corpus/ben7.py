# Rewrites that change how the parts are put together: data behind other types, shared helpers across
# packages, dispatch tables, other library calls with the same meaning.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


def RM(props, path, *pairs):
    MM(props, *[(path, src(path, h), new.lstrip("\n")) for h, new in pairs])


S = "confstore/store.go"
# one table of entries instead of two maps side by side
R(S, ("func (m *defaultImpl) UpdateNoPersist(", """
func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
	if key == "" {
		return nil
	}
	m.kvProcessorLock.RLock()
	defer m.kvProcessorLock.RUnlock()

	reject := func(why string) *KVError {
		return &KVError{Key: key, Value: value, Error: why}
	}
	p, hit := m.kvProcessor[key]
	if !hit {
		return reject("key[" + key + "] not registered")
	}
	if ok, why := p.Validate(value); !ok {
		return reject(why)
	}
	converted := p.Convert(value)
	func() {
		m.kvLock.Lock()
		defer m.kvLock.Unlock()
		m.kvStr[key], m.kv[key] = value, converted
	}()
	return nil
}
"""), ("func (m *defaultImpl) GetValue(", """
func (m *defaultImpl) GetValue(key string) (interface{}, bool) {
	m.loadPolicy.DoLoad(m, m.persister)

	m.kvLock.RLock()
	defer m.kvLock.RUnlock()
	for _, table := range []map[string]interface{}{m.kv, m.kvDefault} {
		if v, hit := table[key]; hit {
			return v, true
		}
	}
	return nil, false
}
"""))
R(S, ("func (m *defaultImpl) RegisterKey(", """
func (m *defaultImpl) RegisterKey(key string, defaultValue string, vp ValueProcessor) error {
	switch {
	case key == "":
		return errors.New("key is required")
	case reflect2.IsNil(vp):
		return errors.New("ValueProcessor is required")
	}

	m.kvProcessorLock.Lock()
	defer m.kvProcessorLock.Unlock()
	m.kvLock.Lock()
	defer m.kvLock.Unlock()

	_, processed := m.kvProcessor[key]
	_, defaulted := m.kvDefault[key]
	var err error
	if processed {
		err = fmt.Errorf("key[%s] ValueProcessor duplicated", key)
	} else if defaulted {
		err = fmt.Errorf("key[%s] default value duplicated", key)
	} else if ok, why := vp.Validate(defaultValue); ok {
		m.setDefault(key, defaultValue, vp)
	} else {
		err = errors.New(why)
	}
	return err
}

func (m *defaultImpl) setDefault(key, value string, vp ValueProcessor) {
	converted := vp.Convert(value)
	m.kvProcessor[key] = vp
	m.kvDefaultStr[key] = value
	m.kvDefault[key] = converted
}
"""))
R(S, ("func (m *defaultImpl) BatchUpdate(", """
func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
	if len(kvStrs) == 0 {
		return nil
	}
	rejected := make([]*KVError, 0, len(kvStrs))
	var accepted []*KVStr
	for i := range kvStrs {
		pair := kvStrs[i]
		if err := m.UpdateNoPersist(pair.Key, pair.Value); err != nil {
			rejected = append(rejected, err)
		} else if pair.Key != "" {
			accepted = append(accepted, pair)
		}
	}
	m.persist(accepted)
	return rejected
}

func (m *defaultImpl) persist(pairs []*KVStr) {
	err := m.persister.BatchSave(pairs)
	if err == nil {
		return
	}
	simplelog.ErrLogger.Println("error happened when batch persist keys:", err)
}
"""))

L = "confstore/loader.go"
R(L, ("func (t *defaultLoadPolicy) DoLoad(", """
func (t *defaultLoadPolicy) DoLoad(s Interface, p Persister) error {
	t.loadLock.Lock()
	defer t.loadLock.Unlock()
	if t.minInterval > 0 && t.fresh(time.Now()) {
		return nil
	}
	return t.reload(s, p)
}

// fresh: the last load is less than the interval ago
func (t *defaultLoadPolicy) fresh(now time.Time) bool {
	return t.lastLoadTs.Add(t.minInterval).After(now)
}

func (t *defaultLoadPolicy) reload(s Interface, p Persister) (err error) {
	if err = p.Load(s); err == nil && t.minInterval > 0 {
		t.lastLoadTs = time.Now()
	}
	return
}
"""))

P = "confstore/persister.go"
R(P, ("func (r *redisPersister) BatchSave(", """
func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	if len(kvStrs) == 0 {
		return nil
	}
	fields := make([]interface{}, len(kvStrs)*2)
	for i, pair := range kvStrs {
		fields[2*i] = pair.Key
		fields[2*i+1] = pair.Value
	}
	return r.redisClient.HMSet(r.configRootKey, fields...).Err()
}
"""), ("func (r *redisPersister) Load(", """
func (r *redisPersister) Load(s Interface) error {
	cmd := r.redisClient.HGetAll(r.configRootKey)
	if err := cmd.Err(); err != nil {
		simplelog.ErrLogger.Println("load configs from redis failed:", err)
		return err
	}
	stored := cmd.Val()
	for key := range stored {
		if kvError := s.UpdateNoPersist(key, stored[key]); kvError != nil {
			simplelog.StdLogger.Printf("warning: load key[%s] value[%s] error: %s\\n", kvError.Key, kvError.Value, kvError.Error)
		}
	}
	simplelog.StdLogger.Printf("%d config keys loaded from redis\\n", len(stored))
	return nil
}
"""))

# a package of its own for what the traced clients share
HELP = """package spans

import (
	"time"

	"github.com/SkyAPM/go2sky"
)

// Fail marks the span as failed, with the text if wanted.
func Fail(span go2sky.Span, withText bool, text func() string) {
	var notes []string
	if withText {
		notes = append(notes, text())
	}
	span.Error(time.Now(), notes...)
}
"""
C = "skywalking/fasthttp/client_span.go"
R(C, ("func (fc *ClientSpanHelper) EndSpan(", """
func (fc *ClientSpanHelper) EndSpan(span go2sky.Span, res *fasthttp.Response) {
	if span == nil {
		return
	}
	defer span.End()
	code := res.StatusCode()
	if code >= fasthttp.StatusBadRequest {
		spans.Fail(span, fc.options.log4xxBody, func() string { return string(res.Body()) })
	}
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(code))
}
"""), ("func (fc *ClientSpanHelper) EndSpanError(", """
func (fc *ClientSpanHelper) EndSpanError(span go2sky.Span, err error) {
	if span == nil {
		return
	}
	defer span.End()
	spans.Fail(span, fc.options.logError, err.Error)
}
"""), also=[("skywalking/internal/spans/spans.go", "", HELP), (C, '\t"time"\n)', '\n\t"github.com/chanjarster/gears/skywalking/internal/spans"\n)')])
H = "skywalking/redis/hook.go"
R(H, ("func (h *tracerHook) AfterProcess(", """
func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	h.end(ctx, func() string {
		if err := cmd.Err(); err != nil {
			return err.Error()
		}
		return ""
	}, cmd.Err() != nil)
	return nil
}

func (h *tracerHook) end(ctx context.Context, text func() string, failed bool) {
	span, ok := ctx.Value(h).(go2sky.Span)
	if !ok || span == nil {
		return
	}
	if failed {
		if h.opts.logError {
			span.Error(time.Now(), text())
		} else {
			span.Error(time.Now())
		}
	}
	span.End()
}
"""), ("func (h *tracerHook) AfterProcessPipeline(", """
func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
	errs := quickJoinError(cmds, "|")
	h.end(ctx, func() string { return errs }, errs != "")
	return nil
}
"""))
R(H, ("func (h *tracerHook) BeforeProcess(", """
func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
	statement := cmd.Name
	if h.opts.reportArgs {
		statement = cmd.String
	}
	return h.begin(ctx, cmd.Name, statement), nil
}

func (h *tracerHook) begin(ctx context.Context, name, statement func() string) context.Context {
	if h.tracer == nil {
		return ctx
	}
	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, name(), h.opts.peer, noopInjector)
	if err != nil {
		return ctx
	}
	for _, tag := range []struct {
		tag   go2sky.Tag
		value string
	}{{go2sky.TagDBStatement, statement()}, {go2sky.TagDBInstance, h.opts.Db}, {go2sky.TagDBType, "Redis"}} {
		span.Tag(tag.tag, tag.value)
	}
	span.SetComponent(componentID)
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	return context.WithValue(nCtx, h, span)
}
"""), ("func (h *tracerHook) BeforeProcessPipeline(", """
func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
	joined := func(of stringer) func() string {
		return func() string { return quickJoin(cmds, "|", of) }
	}
	statement := joined(rv7.Cmder.Name)
	if h.opts.reportArgs {
		statement = joined(rv7.Cmder.String)
	}
	return h.begin(ctx, joined(rv7.Cmder.Name), statement), nil
}
"""))

B_ = "event/bus.go"
R(B_, ("func (r *Receiver) onEvent(", """
func (r *Receiver) onEvent(v interface{}) {
	if deliver, known := strategies[r.strategy]; known {
		deliver(r, v)
	}
}

var strategies = map[FullStrategy]func(*Receiver, interface{}){
	Drop:  (*Receiver).offer,
	Block: (*Receiver).put,
}

func (r *Receiver) offer(v interface{}) {
	select {
	case r.ch <- v:
	default:
		log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
	}
}

func (r *Receiver) put(v interface{}) {
	select {
	case <-r.bus.done:
	case <-r.done:
	case r.ch <- v:
	}
}
"""))
R(B_, ("func (b *FanOutBus) doDispatch(", """
func (b *FanOutBus) doDispatch() {
	for {
		event, open := <-b.ch
		if !open {
			return
		}
		b.each(func(recv *Receiver) { recv.onEvent(event) })
	}
}

func (b *FanOutBus) each(f func(*Receiver)) {
	b.recvMapLock.RLock()
	defer b.recvMapLock.RUnlock()
	for name := range b.recvMap {
		f(b.recvMap[name])
	}
}
"""), ("func (b *FanOutBus) Close(", """
func (b *FanOutBus) Close() {
	close(b.ch)
	close(b.done)
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	for _, recv := range b.recvMap {
		b.retire(recv)
	}
}

// retire must be called with the lock held
func (b *FanOutBus) retire(recv *Receiver) {
	if recv.closed {
		return
	}
	close(recv.ch)
	recv.closed = true
	if b.recvMap[recv.name] == recv {
		delete(b.recvMap, recv.name)
	}
}
"""), ("func (b *FanOutBus) deregisterRecv(", """
func (b *FanOutBus) deregisterRecv(recv *Receiver) {
	b.recvMapLock.Lock()
	b.retire(recv)
	b.recvMapLock.Unlock()
}
"""))
R(B_, ("func (r *Receiver) Drain(", """
func (r *Receiver) Drain() []interface{} {
	data := make([]interface{}, 0, 10)
	for more := true; more; {
		select {
		case d, ok := <-r.C:
			if more = ok; ok {
				data = append(data, d)
			}
		default:
			more = false
		}
	}
	return data
}
"""), ("func (r *Receiver) CollectTimeout(", """
func (r *Receiver) CollectTimeout(timeout time.Duration) []interface{} {
	data := make([]interface{}, 0, 10)
	expired := time.After(timeout)
	for {
		select {
		case <-expired:
			return data
		case d, ok := <-r.C:
			if !ok {
				return data
			}
			data = append(data, d)
		}
	}
}
"""))

T = "schedule/task.go"
R(T, ("func (t *taskCommon) runJob(", """
func (t *taskCommon) runJob(nextNo int64) {
	simplelog.StdLogger.Printf("task[%s] job[#%v] start\\n", t.name, nextNo)
	ctx, cancel := context.WithTimeout(context.Background(), t.timeout)
	defer cancel()

	done := make(chan struct{})
	go t.execute(ctx, nextNo, done)

	select {
	case <-done:
		return
	case <-t.stopSig:
		cancel()
	case <-ctx.Done():
	}
	<-done
}

func (t *taskCommon) execute(ctx context.Context, no int64, done chan<- struct{}) {
	began := time.Now()
	err := t.job(ctx.Done())
	elapse := time.Since(began)
	close(done)

	if err != nil {
		simplelog.ErrLogger.Printf("task[%s] job[#%v] error: %v\\n", t.name, no, err)
	}
	switch ctx.Err() {
	case context.Canceled:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled by stop signal, time elapse %v\\n", t.name, no, elapse)
	case context.DeadlineExceeded:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled due to timeout(%v), time elapse %v\\n", t.name, no, t.timeout, elapse)
	default:
		simplelog.StdLogger.Printf("task[%s] job[#%v] finished, time elapse %v\\n", t.name, no, elapse)
	}
}
"""), ("func (t *taskCommon) markStart(", """
func (t *taskCommon) markStart() error {
	return t.advance(new, started, map[int]string{
		started: "start error, you cannot start a Task twice",
		stopped: "start error, you cannot start a stopped Task",
	})
}

func (t *taskCommon) advance(from, to int, refusals map[int]string) error {
	if t.status != from {
		return fmt.Errorf("task[%s] %s", t.name, refusals[t.status])
	}
	t.status = to
	return nil
}
"""), ("func (t *taskCommon) markStopSendSignal(", """
func (t *taskCommon) markStopSendSignal() error {
	err := t.advance(started, stopped, map[int]string{
		new:     "stop error, Task is not started",
		stopped: "stop error, task is already stopped",
	})
	if err == nil {
		close(t.stopSig)
	}
	return err
}
"""), also=[(T, '\t"errors"\n', "")])
M_ = "schedule/task_manager.go"
R(M_, ("func (m *taskManager) UnregisterAll(", """
func (m *taskManager) UnregisterAll() {
	m.lock.Lock()
	defer m.lock.Unlock()
	for name := range m.taskMap {
		m.remove(name)
	}
}

func (m *taskManager) remove(name string) {
	if task := m.taskMap[name]; task != nil {
		task.Stop()
		delete(m.taskMap, name)
	}
}
"""), ("func (m *taskManager) Unregister(", """
func (m *taskManager) Unregister(name string) {
	m.lock.Lock()
	defer m.lock.Unlock()
	m.remove(name)
}
"""))

K = "ratelimiter/tokenbucket.go"
R(K, ("func (t *SyncTokenBucket) issueIfNecessary(", """
func (t *SyncTokenBucket) issueIfNecessary() {
	now := t.nowFn().UnixNano()
	room := t.capacity - t.tokens
	if room <= 0 {
		if t.lastIssueTimestamp < now {
			t.lastIssueTimestamp = now
		}
		return
	}
	seconds := (now - t.lastIssueTimestamp) / int64(time.Second)
	issued := seconds * int64(t.issueRatePerSecond)
	if issued <= 0 {
		return
	}
	t.lastIssueTimestamp = now
	t.tokens += int(issued)
	if t.tokens >= t.capacity {
		t.tokens = t.capacity
	}
}
"""), ("func (t *AtomicTokenBucket) Acquire(", """
func (t *AtomicTokenBucket) Acquire() bool {
	t.issueIfNecessary()
	for n := atomic.LoadInt64(&t.tokens); n > 0; n = atomic.LoadInt64(&t.tokens) {
		if atomic.CompareAndSwapInt64(&t.tokens, n, n-1) {
			return true
		}
	}
	return false
}
"""))
F = "ratelimiter/fixedwindow.go"
W = "ratelimiter/slidingwindow.go"
R(W, ("func (s *SyncSlidingWindow) Acquire(", """
func (s *SyncSlidingWindow) Acquire() bool {
	s.lock.Lock()
	defer s.lock.Unlock()

	now := s.nowFn().UnixNano()
	switch {
	case s.capacity == 0:
		return true
	case s.records.Len() < s.capacity:
	case s.expired(s.records.Front(), now):
		s.records.Remove(s.records.Front())
	default:
		return false
	}
	s.records.PushBack(now)
	return true
}

func (s *SyncSlidingWindow) expired(e *list.Element, now int64) bool {
	at := e.Value.(int64)
	return s.windowSize < now-at
}
"""), ("func (s *SyncSlidingWindow) UpdateConfig(", """
func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	if capacity < 0 {
		capacity = 0
	}
	s.lock.Lock()
	defer s.lock.Unlock()

	s.capacity, s.windowSize = capacity, windowSize.Nanoseconds()
	for excess := s.records.Len() - capacity; excess > 0; excess-- {
		s.records.Remove(s.records.Front())
	}
}
"""))
D = "ratelimiter/ttl_ratelimiter_redis.go"
R(D, ("func (r *redisTtlRateLimiter) IsBlockedContext(", """
func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey string) *Result {
	return r.run(ctx, "eval script2 ", scriptSha2, []string{r.hashTag + blockKey + suffix})
}

func (r *redisTtlRateLimiter) run(ctx context.Context, what, sha string, keys []string, args ...interface{}) *Result {
	reply, err := r.redisClient.WithContext(ctx).EvalSha(sha, keys, args...).Result()
	if err != nil {
		simplelog.ErrLogger.Println(what, sha, "error", err)
		return &Result{}
	}
	parts := reply.([]interface{})
	flag := func(i int) bool { return parts[i].(int64) == 1 }
	return &Result{Block: flag(0), Triggered: flag(1), Ttl: int(parts[2].(int64)), Msg: parts[3].(string)}
}
"""), ("func (r *redisTtlRateLimiter) ShouldBlock2Context(", """
func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key string, blockKey string, msg string) *Result {
	p := r.params
	if isParamsNotSet(p) {
		return new(Result)
	}
	keys := []string{prefix + key, blockKey + suffix}
	for i := range keys {
		keys[i] = r.hashTag + keys[i]
	}
	return r.run(ctx, "eval script1 ", scriptSha1, keys,
		p.GetCapacity(), p.GetWindowSizeSeconds(), p.GetTimeoutSeconds(), time.Now().Unix(), msg)
}
"""), ("func LoadScript(", """
func LoadScript(redisClient *redis.Client) {
	for _, s := range []struct {
		script string
		sha    *string
	}{{script1, &scriptSha1}, {script2, &scriptSha2}} {
		sha := s.sha
		loadScript(redisClient, s.script, func(loaded string) { *sha = loaded })
	}
}
"""))
CB = "circuitbreaker/circuitbreaker.go"
R(CB, ("func (s *SyncCircuitBreaker) Do(", """
func (s *SyncCircuitBreaker) Do(task func() error, onError func(error), onOpen func()) {
	run := map[state]func(){
		open:     onOpen,
		closed:   func() { s.attempt(task, onError) },
		halfOpen: func() { s.attempt(task, onError) },
	}
	run[s.state()]()
}

func (s *SyncCircuitBreaker) attempt(task func() error, onError func(error)) {
	err := task()
	if err == nil {
		s.reset()
		return
	}
	s.recordFailure()
	onError(err)
}
"""), ("func (s *SyncCircuitBreaker) state(", """
func (s *SyncCircuitBreaker) state() (st state) {
	now := s.nowFn()
	s.lock.RLock()
	defer s.lock.RUnlock()

	st = closed
	if s.failures >= s.failureThreshold {
		st = open
		if s.resetTimeout < now.UnixNano()-s.lastFailureTs {
			st = halfOpen
		}
	}
	return
}
"""))
SE = "concurrent/sema.go"
