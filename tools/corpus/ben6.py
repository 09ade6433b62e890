def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


def RM(props, path, *pairs):
    MM(props, *[(path, src(path, h), new.lstrip("\n")) for h, new in pairs])


C = "circuitbreaker/circuitbreaker.go"
R(C, ("func NewSyncCircuitBreaker(", """
func NewSyncCircuitBreaker(failureThreshold int, resetTimeout time.Duration) *SyncCircuitBreaker {
	s := new(SyncCircuitBreaker)
	s.failureThreshold, s.resetTimeout = failureThreshold, resetTimeout.Nanoseconds()
	s.nowFn = gtime.SysNow
	return s
}
"""), ("func (s *SyncCircuitBreaker) recordFailure(", """
func (s *SyncCircuitBreaker) recordFailure() {
	s.locked(func() {
		s.failures, s.lastFailureTs = s.failures+1, s.nowFn().UnixNano()
	})
}

func (s *SyncCircuitBreaker) locked(f func()) {
	s.lock.Lock()
	defer s.lock.Unlock()
	f()
}
"""), ("func (s *SyncCircuitBreaker) reset(", """
func (s *SyncCircuitBreaker) reset() {
	s.locked(func() { s.failures, s.lastFailureTs = 0, 0 })
}
"""))
R(C, ("func (s *SyncCircuitBreaker) Do(", """
func (s *SyncCircuitBreaker) Do(task func() error, onError func(error), onOpen func()) {
	if s.state() == open {
		onOpen()
		return
	}
	err := task()
	if err == nil {
		s.reset()
		return
	}
	s.recordFailure()
	onError(err)
}
"""), ("func (s *SyncCircuitBreaker) state(", """
func (s *SyncCircuitBreaker) state() state {
	now := s.nowFn().UnixNano()
	s.lock.RLock()
	tripped := s.failures >= s.failureThreshold
	since := now - s.lastFailureTs
	s.lock.RUnlock()
	switch {
	case !tripped:
		return closed
	case since > s.resetTimeout:
		return halfOpen
	}
	return open
}
"""))
Z = "concurrent/sema.go"
R(Z, ("func NewChanSemaphore(", """
func NewChanSemaphore(permits int64) *ChanSemaphore {
	s := &ChanSemaphore{}
	s.permits = make(chan int, permits)
	return s
}
"""), ("func (s *ChanSemaphore) Acquire(", """
func (s *ChanSemaphore) Acquire() {
	select {
	case s.permits <- 1:
	}
}
"""), ("func (s *LockSemaphore) isFull(", """
func (s *LockSemaphore) isFull() bool {
	return !(s.free() > 0)
}

func (s *LockSemaphore) free() int64 { return s.permits - s.count }
"""))
R(Z, ("func NewLockSemaphore(", """
func NewLockSemaphore(permits int64) *LockSemaphore {
	s := &LockSemaphore{permits: permits}
	s.notFull = &sync.Cond{L: &s.lock}
	return s
}
"""))
EV = "conf/env.go"
FL = "conf/flag.go"
BIND = """
func bind(flagSet *flag.FlagSet, name, usage string, v reflect.Value) {
	switch p := v.Addr().Interface().(type) {
	case *time.Duration:
		flagSet.DurationVar(p, name, *p, usage)
	case *bool:
		flagSet.BoolVar(p, name, *p, usage)
	case *float64:
		flagSet.Float64Var(p, name, *p, usage)
	case *int:
		flagSet.IntVar(p, name, *p, usage)
	case *int64:
		flagSet.Int64Var(p, name, *p, usage)
	case *string:
		flagSet.StringVar(p, name, *p, usage)
	case *uint:
		flagSet.UintVar(p, name, *p, usage)
	case *uint64:
		flagSet.Uint64Var(p, name, *p, usage)
	}
}
"""
R(EV, ("func (r *envResolver) init(", """
func (r *envResolver) init(p interface{}) {
	r.flagSet = flag.NewFlagSet("environ", flag.ContinueOnError)
	visitExportedFields(p, func(path string, _ reflect.StructField, v reflect.Value) {
		name := envStyle(path)
		r.environ = append(r.environ, name)
		bind(r.flagSet, name, path, v)
	})
}
"""), also=[(FL, src(FL, "func (r *flagResolver) init("), """func (r *flagResolver) init(p interface{}) {
	if r.args == nil {
		r.args = os.Args[1:]
	}
	if r.flagSet == nil {
		r.flagSet = flag.NewFlagSet("flag", flag.ContinueOnError)
	}
	visitExportedFields(p, func(path string, _ reflect.StructField, v reflect.Value) {
		bind(r.flagSet, flagStyle(path), path, v)
	})
}
""" + BIND), (FL, '	"time"\n)', '	"time"\n)\n'), (EV, '	"time"\n', '')])
R(EV, ("func (r *envResolver) init(", """
func (r *envResolver) init(p interface{}) {
	r.flagSet = flag.NewFlagSet("environ", flag.ContinueOnError)
	visitExportedFields(p, r.visit)
}

func (r *envResolver) visit(path string, f reflect.StructField, v reflect.Value) {
	name := envStyle(path)
	r.environ = append(r.environ, name)
	register(r.flagSet, name, path, v)
}

var durationType = reflect.TypeOf(time.Duration(0))

func register(set *flag.FlagSet, name, usage string, v reflect.Value) {
	ptr := v.Addr().Interface()
	if v.Type() == durationType {
		d := ptr.(*time.Duration)
		set.DurationVar(d, name, *d, usage)
		return
	}
	switch v.Kind() {
	case reflect.String:
		set.StringVar(ptr.(*string), name, v.String(), usage)
	case reflect.Bool:
		set.BoolVar(ptr.(*bool), name, v.Bool(), usage)
	case reflect.Int:
		set.IntVar(ptr.(*int), name, int(v.Int()), usage)
	case reflect.Int64:
		set.Int64Var(ptr.(*int64), name, v.Int(), usage)
	case reflect.Uint:
		set.UintVar(ptr.(*uint), name, uint(v.Uint()), usage)
	case reflect.Uint64:
		set.Uint64Var(ptr.(*uint64), name, v.Uint(), usage)
	case reflect.Float64:
		set.Float64Var(ptr.(*float64), name, v.Float(), usage)
	}
}
"""))
R("conf/reflect.go", ("func initStruct(", """
func initStruct(p interface{}) {
	v := reflect.ValueOf(p)
	initPtrValue(v, "")
}
"""))
R("conf/string.go", ("func lowerASCII(", """
func lowerASCII(b byte) byte {
	if !isUpperASCII(b) {
		return b
	}
	return b | 0x20
}
"""), ("func upperASCII(", """
func upperASCII(b byte) byte {
	if b < 'a' || b > 'z' {
		return b
	}
	return b - 'a' + 'A'
}
"""), ("func isUpperASCII(", """
func isUpperASCII(b byte) bool {
	return b-'A' < 26
}
"""))
E_ = "confs/es.go"
R(E_, ("func (m *EsConf) String(", """
func (m *EsConf) String() string {
	const mask = "***"
	var b strings.Builder
	fmt.Fprintf(&b, "{Addrs: %s, Username: %s, Password: %s", m.Addrs, mask, mask)
	fmt.Fprintf(&b, ", MaxConnsPerHost: %d, MaxIdleConnsPerHost: %d}", m.MaxConnsPerHost, m.MaxIdleConnsPerHost)
	return b.String()
}
"""))
R("confs/mysql.go", ("func (m *MysqlConf) String(", """
func (m *MysqlConf) String() string {
	c := *m
	c.Username, c.Password = "***", "***"
	type plain MysqlConf
	return fmt.Sprintf("%+v", plain(c))
}
"""))
PG = "confs/postgresql.go"
R(PG, ("func (c *PostgresqlConf) String(", """
func (c *PostgresqlConf) String() string {
	parts := []string{
		"Host: " + c.Host,
		fmt.Sprintf("Port: %d", c.Port),
		"Username: ***",
		"Password: ***",
		"Database: " + c.Database,
		fmt.Sprint("MaxOpenConns: ", c.MaxOpenConns),
		fmt.Sprint("MaxIdleConns: ", c.MaxIdleConns),
		fmt.Sprint("ConnMaxLifetime: ", c.ConnMaxLifetime),
		fmt.Sprint("ConnectTimeout: ", c.ConnectTimeout),
		"Params: " + c.Params,
	}
	return "{" + strings.Join(parts, ", ") + "}"
}
"""))
R(PG, ("func NewPostgresqlDb(", """
func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) *sql.DB {
	dsn := buildPgDsn(conf, preparePgUrlOptions(conf, customizer))
	db, err := sql.Open("postgres", dsn)
	conf.must("", err)
	conf.tune(db)
	conf.must("Postgresql connection error: ", db.Ping())
	simplelog.StdLogger.Printf("Connected to Postgresql: %s:%d", conf.Host, conf.Port)
	return db
}

func (c *PostgresqlConf) tune(db *sql.DB) {
	db.SetConnMaxLifetime(c.ConnMaxLifetime)
	db.SetMaxIdleConns(c.MaxIdleConns)
	db.SetMaxOpenConns(c.MaxOpenConns)
}

func (c *PostgresqlConf) must(what string, err error) {
	if err == nil {
		return
	}
	err = withoutUrl(err)
	simplelog.ErrLogger.Fatal(what, err)
	panic(err)
}
"""), ("func NewPostgresqlDbWithTracer(", """
func NewPostgresqlDbWithTracer(conf *PostgresqlConf, tracer *go2sky.Tracer, customizer PostgresqlUrlOptionsCustomizer) *sql.DB {
	dsn := buildPgDsn(conf, preparePgUrlOptions(conf, customizer))
	traced, err := sqlPlugin.Open("postgres", dsn, tracer,
		sqlPlugin.WithSQLDBType(sqlPlugin.IPV4), sqlPlugin.WithQueryReport(), sqlPlugin.WithParamReport())
	conf.must("", err)
	db := traced.DB
	conf.tune(db)
	conf.must("Postgresql connection error: ", db.Ping())
	simplelog.StdLogger.Printf("Connected to Postgresql: %s:%d", conf.Host, conf.Port)
	return db
}
"""), ("func preparePgUrlOptions(", """
func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
	options := make(map[string]string)
	if t := conf.ConnectTimeout; t != 0 {
		options["connect_timeout"] = strconv.FormatInt(int64(t), 10)
	}
	if customizer != nil {
		customizer(options)
	}
	if conf.Params == "" {
		return options
	}
	for _, pair := range strings.Split(conf.Params, "&") {
		if p := strings.Split(pair, "="); len(p) == 2 {
			if value, err := url.QueryUnescape(p[1]); err == nil {
				options[p[0]] = value
			}
		}
	}
	return options
}
"""), ("func withoutUrl(", """
func withoutUrl(err error) error {
	if urlErr := new(url.Error); errors.As(err, &urlErr) {
		return urlErr.Err
	}
	return err
}
"""))
R("confs/redis.go", ("func (r *RedisConf) String(", """
func (r *RedisConf) String() string {
	return "{Host: " + r.Host + ", Port: " + strconv.Itoa(r.Port) + ", Password: ***, Pool: " +
		strconv.Itoa(r.Pool) + ", MinIdle: " + strconv.Itoa(r.MinIdle) + "}"
}
"""), also=[("confs/redis.go", '	"fmt"\n', '')])
P = "confstore/procs.go"
R(P, ("func StringProcessor(", """
func StringProcessor(minLength, maxLength int) *stringProcessor {
	s := stringProcessor{minLength, maxLength}
	return &s
}
"""), ("func IntProcessor(", """
func IntProcessor(min int, minInclude bool, max int, maxInclude bool) *intProcessor {
	i := new(intProcessor)
	i.min, i.max = min, max
	i.minInclude, i.maxInclude = minInclude, maxInclude
	return i
}
"""), ("func (i *intProcessor) Convert(", """
func (i *intProcessor) Convert(value string) interface{} {
	n, err := strconv.ParseInt(value, 10, 0)
	if err != nil {
		return 0
	}
	return int(n)
}
"""), ("func (d *durationProcessor) Validate(", """
func (d *durationProcessor) Validate(value string) (bool, string) {
	if _, e := time.ParseDuration(value); e == nil {
		return true, ""
	}
	return false, "not duration value"
}
"""), ("func (r *rsaPrivateKeyPkcs1) Convert(", """
func (r *rsaPrivateKeyPkcs1) Convert(value string) interface{} {
	var key *rsa.PrivateKey
	if value != "" {
		key, _ = rsautil.ReadPrivateKey(value)
	}
	return key
}
"""), ("func (r *rsaPublicKey) Validate(", """
func (r *rsaPublicKey) Validate(value string) (ok bool, err string) {
	if value != "" {
		if _, e := rsautil.ReadPublicKey(value); e != nil {
			err = e.Error()
			return
		}
	}
	return true, err
}
"""))
LD = "confstore/loader.go"
R(LD, ("func NewLoadPolicy(", """
func NewLoadPolicy(minInterval time.Duration) LoadPolicy {
	p := defaultLoadPolicy{minInterval: minInterval}
	p.loadLock = new(sync.Mutex)
	return &p
}
"""), ("func (d *simpleLoadPolicy) DoLoad(", """
func (d *simpleLoadPolicy) DoLoad(s Interface, p Persister) (err error) {
	err = p.Load(s)
	return
}
"""), ("func (t *defaultLoadPolicy) DoLoad(", """
func (t *defaultLoadPolicy) DoLoad(s Interface, p Persister) error {
	t.loadLock.Lock()
	defer t.loadLock.Unlock()
	if t.minInterval > 0 && time.Since(t.lastLoadTs) < t.minInterval {
		return nil
	}
	err := p.Load(s)
	if err == nil {
		t.lastLoadTs = time.Now()
	}
	return err
}
"""))
R(LD, ("func (t *defaultLoadPolicy) DoLoad(", """
func (t *defaultLoadPolicy) DoLoad(s Interface, p Persister) error {
	t.loadLock.Lock()
	defer t.loadLock.Unlock()
	if !t.due(time.Now()) {
		return nil
	}
	if err := p.Load(s); err != nil {
		return err
	}
	t.lastLoadTs = time.Now()
	return nil
}

func (t *defaultLoadPolicy) due(now time.Time) bool {
	return t.minInterval <= 0 || !now.Before(t.lastLoadTs.Add(t.minInterval))
}
"""))
R("confstore/persister.go", ("func NewRedisPersister(", """
func NewRedisPersister(redisClient *redis.Client, configKeyRoot string) Persister {
	var r redisPersister
	r.redisClient, r.configRootKey = redisClient, configKeyRoot
	return &r
}
"""), ("func (r *redisPersister) Delete(", """
func (r *redisPersister) Delete(key string) error {
	return r.redisClient.HDel(r.configRootKey, []string{key}...).Err()
}
"""), ("func (r *redisPersister) BatchSave(", """
func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	if len(kvStrs) == 0 {
		return nil
	}
	var args []interface{}
	for i := range kvStrs {
		args = append(args, kvStrs[i].Key, kvStrs[i].Value)
	}
	return r.redisClient.HMSet(r.configRootKey, args...).Err()
}
"""))
ST = "confstore/store.go"
R(ST, ("func NewStore(", """
func NewStore(persister Persister, policy LoadPolicy) Interface {
	m := &defaultImpl{persister: persister, loadPolicy: policy}
	m.kvLock, m.kvProcessorLock = new(sync.RWMutex), new(sync.RWMutex)
	m.kvProcessor = map[string]ValueProcessor{}
	m.kv, m.kvDefault = map[string]interface{}{}, map[string]interface{}{}
	m.kvStr, m.kvDefaultStr = map[string]string{}, map[string]string{}
	return m
}
"""))
R("dto/m.go", ("func UnmarshalM(", """
func UnmarshalM(jsonB []byte) (M, error) {
	m := M{}
	err := json.Unmarshal(jsonB, &m)
	if err != nil {
		m = nil
	}
	return m, err
}
"""), ("func MarshalM(", """
func MarshalM(m M) (b []byte, err error) {
	b, err = json.Marshal(m)
	return
}
"""))
BU = "event/bus.go"
R(BU, ("func NewFanOutBus(", """
func NewFanOutBus(bufSize int) *FanOutBus {
	b := &FanOutBus{ch: make(chan interface{}, bufSize)}
	b.C = b.ch
	b.done = make(chan struct{})
	b.recvMap = map[string]*Receiver{}
	return b
}
"""), ("func (b *FanOutBus) GoDispatch(", """
func (b *FanOutBus) GoDispatch() {
	go func() {
		b.doDispatch()
	}()
}
"""), ("func (r *Receiver) Close(", """
func (r *Receiver) Close() {
	r.doneOnce.Do(r.release)
	r.bus.deregisterRecv(r)
}

func (r *Receiver) release() { close(r.done) }
"""))
FW = "ratelimiter/fixedwindow.go"
R(FW, ("func NewSyncFixedWindow(", """
func NewSyncFixedWindow(capacity int, windowSize time.Duration) *SyncFixedWindow {
	var s SyncFixedWindow
	s.capacity, s.windowSize = capacity, windowSize.Nanoseconds()
	s.nowFn = gtime.SysNow
	return &s
}
"""), ("func (s *SyncFixedWindow) contains(", """
func (s *SyncFixedWindow) contains(ts int64) bool {
	return !(ts > s.until)
}
"""))
SW = "ratelimiter/slidingwindow.go"
R(SW, ("func NewSyncSlidingWindow(", """
func NewSyncSlidingWindow(capacity int, windowSize time.Duration) *SyncSlidingWindow {
	s := &SyncSlidingWindow{nowFn: gtime.SysNow, records: new(list.List)}
	s.UpdateConfig(capacity, windowSize)
	return s
}
"""), ("func (s *SyncSlidingWindow) Capacity(", """
func (s *SyncSlidingWindow) Capacity() (n int) {
	s.lock.RLock()
	n = s.capacity
	s.lock.RUnlock()
	return
}
"""))
TB = "ratelimiter/tokenbucket.go"
R(TB, ("func NewSyncTokenBucket(", """
func NewSyncTokenBucket(capacity, issueRatePerSecond int) TokenBucket {
	t := &SyncTokenBucket{capacity: capacity, issueRatePerSecond: issueRatePerSecond, nowFn: gtime.SysNow}
	t.tokens = t.capacity
	t.lastIssueTimestamp = t.nowFn().UnixNano()
	return t
}
"""), ("func NewAtomicTokenBucket(", """
func NewAtomicTokenBucket(capacity, issueRatePerSecond int) TokenBucket {
	t := new(AtomicTokenBucket)
	t.capacity, t.tokens = capacity, int64(capacity)
	t.issueRatePerSecond = issueRatePerSecond
	t.nowFn = gtime.SysNow
	t.lastIssueTimestamp = time.Now().UnixNano()
	return t
}
"""))
RL = "ratelimiter/ttl_ratelimiter_redis.go"
R(RL, ("func (r *redisTtlRateLimiter) ShouldBlock2(", """
func (r *redisTtlRateLimiter) ShouldBlock2(key string, blockKey string, msg string) *Result {
	ctx := context.TODO()
	return r.ShouldBlock2Context(ctx, key, blockKey, msg)
}
"""), ("func (r *redisTtlRateLimiter) ShouldBlock(", """
func (r *redisTtlRateLimiter) ShouldBlock(key string, msg string) *Result {
	return r.ShouldBlockContext(context.Background(), key, msg)
}
"""), ("func NewRedisTtlRateLimiterCluster(", """
func NewRedisTtlRateLimiterCluster(redisClient *redis.Client, params TtlRateLimiterParams, hashTag string) TtlRateLimiter {
	r := new(redisTtlRateLimiter)
	r.redisClient, r.params = redisClient, params
	r.hashTag = fmt.Sprintf("{%s}", strings.Trim(hashTag, "{}"))
	return r
}
"""), also=[(RL, 'import (\n', 'import (\n	"fmt"\n')])
FD = "schedule/fixed_delay_task.go"
R(FD, ("func NewFixedDelayTask(", """
func NewFixedDelayTask(name string, job JobFunc, interval time.Duration, timeout time.Duration) Task {
	check(name, job, interval, timeout)
	t := &FixedDelayTask{lock: &sync.Mutex{}}
	t.taskCommon = newCommon(name, job, interval, timeout)
	return t
}

func check(name string, job JobFunc, interval, timeout time.Duration) {
	switch {
	case strings.TrimSpace(name) == "":
		panic("task name must not be blank")
	case timeout <= 0:
		panic("task[" + name + "] timeout must > 0")
	case interval <= 0:
		panic("task[" + name + "] interval must > 0")
	case job == nil:
		panic("task[" + name + "] job must be not nil")
	}
}

func newCommon(name string, job JobFunc, interval, timeout time.Duration) taskCommon {
	return taskCommon{
		name: name, job: job, interval: interval, timeout: timeout,
		stopSig: make(chan struct{}), jobQ: make(chan struct{}),
	}
}
"""), ("func (t *FixedDelayTask) Start(", """
func (t *FixedDelayTask) Start() (err error) {
	t.lock.Lock()
	defer t.lock.Unlock()
	if err = t.markStart(); err == nil {
		go t.startConsuming()
		if t.appendJobQueue() {
			simplelog.StdLogger.Printf("task[%s] started", t.name)
		}
	}
	return
}
"""), ("func (t *FixedDelayTask) Stop(", """
func (t *FixedDelayTask) Stop() (err error) {
	t.lock.Lock()
	if err = t.markStopSendSignal(); err == nil {
		simplelog.StdLogger.Println("task[" + t.name + "] stop signal sent")
	}
	t.lock.Unlock()
	return
}
"""), also=[(FD, '	"fmt"\n', '')])
FR = "schedule/fixed_rate_task.go"
R(FR, ("func NewFixedRateTask(", """
func NewFixedRateTask(name string, job JobFunc, interval time.Duration, timeout time.Duration) Task {
	if blank := strings.TrimSpace(name) == ""; blank {
		panic("task name must not be blank")
	}
	must := func(ok bool, what string) {
		if !ok {
			panic(fmt.Sprintf("task[%s] %s", name, what))
		}
	}
	must(timeout > 0, "timeout must > 0")
	must(interval > 0, "interval must > 0")
	if interval <= timeout {
		simplelog.StdLogger.Printf("task[%s] interval <= timeout, jobs may be overlapped", name)
	}
	must(job != nil, "job must be not nil")
	t := new(FixedRateTask)
	t.lock = new(sync.Mutex)
	t.name, t.job = name, job
	t.interval, t.timeout = interval, timeout
	t.stopSig, t.jobQ = make(chan struct{}), make(chan struct{})
	t.status = new_
	return t
}

const new_ = 0
""" .replace("t := new(FixedRateTask)\n	t.lock = new(sync.Mutex)", "t := &FixedRateTask{lock: &sync.Mutex{}}").replace("new_", "new").replace("\nconst new = 0\n", "")), ("func (t *FixedRateTask) MustStart(", """
func (t *FixedRateTask) MustStart() {
	if err := t.Start(); err != nil {
		panic(err)
	}
}
"""), ("func (t *FixedRateTask) MustStop(", """
func (t *FixedRateTask) MustStop() {
	if err := t.Stop(); err != nil {
		panic(err)
	}
}
"""))
R("skywalking/factory.go", ("func NewGrpcOrNoopReporter(", """
func NewGrpcOrNoopReporter(c *Conf) (go2sky.Reporter, error) {
	if c != nil && c.ServerAddr != "" {
		grpc, err := reporter.NewGRPCReporter(c.ServerAddr, reporter.WithCDS(time.Minute), reporter.WithCheckInterval(10*time.Second))
		if err == nil {
			return grpc, nil
		}
		return nil, err
	}
	return NoopReporter(), nil
}
"""))
SC = "skywalking/fasthttp/client_span.go"
R(SC, ("func WithLogError(", """
func WithLogError() Option {
	return logError
}

func logError(o *options) {
	o.logError = true
}
"""), ("func getOperationNameForReq(", """
func getOperationNameForReq(req *fasthttp.Request) string {
	return string(req.Header.Method()) + ":" + string(req.URI().Path())
}
"""), also=[(SC, '	"fmt"\n', '')])
SR = "skywalking/redis/hook.go"
R(SR, ("func WithArgsReport(", """
func WithArgsReport() Option {
	return (*options).enableArgs
}

func (o *options) enableArgs() { o.reportArgs = true }
"""), ("func noopInjector(", """
func noopInjector(headerKey, headerValue string) (err error) {
	return
}
"""))
TU = "testutil/panic.go"
R(TU, ("func ShouldPanic(", """
func ShouldPanic(t *testing.T, title string, f func()) {
	if _, panicked := try(f); !panicked {
		t.Errorf("%s did not panicked", title)
	}
}

func try(f func()) (value interface{}, panicked bool) {
	panicked = true
	defer func() { value = recover() }()
	f()
	panicked = false
	return
}
"""), ("func ShouldNotPanic(", """
func ShouldNotPanic(t *testing.T, title string, f func()) {
	if r, panicked := try(f); panicked {
		t.Errorf("%s panicked, message: %v", title, r)
	}
}
"""), ("func ExpectPanic(", """
func ExpectPanic(t *testing.T, title string, expected interface{}, f func()) {
	r, panicked := try(f)
	if !panicked {
		t.Errorf("%s did not panicked", title)
	} else if !reflect.DeepEqual(expected, r) {
		t.Errorf("%s panic = [%v], want [%v]", title, r, expected)
	}
}
"""))
RS = "util/rsa/util.go"
R(RS, ("func MustReadPrivateKey(", """
func MustReadPrivateKey(pem string) *rsa.PrivateKey {
	if key, err := ReadPrivateKey(pem); err != nil {
		panic(err)
	} else {
		return key
	}
}
"""), ("func ReadPrivateKey(", """
func ReadPrivateKey(pem string) (*rsa.PrivateKey, error) {
	return ReadPrivateKeyBytes([]byte(normalizePem(pem, privateKeyType)))
}

const privateKeyType = "RSA PRIVATE KEY"
"""), ("func ReadPrivateKeyBytes(", """
func ReadPrivateKeyBytes(pemBytes []byte) (*rsa.PrivateKey, error) {
	der, err := decode(pemBytes, privateKeyType, privateKeyType)
	if err != nil {
		return nil, err
	}
	return x509.ParsePKCS1PrivateKey(der)
}

func decode(text []byte, typ, name string) ([]byte, error) {
	block, _ := pem.Decode(text)
	switch {
	case block == nil:
		return nil, errors.New("invalid " + typ)
	case block.Type != typ:
		return nil, errors.New("expected type: " + name + ", got: " + block.Type)
	}
	return block.Bytes, nil
}
"""), ("func ReadPublicKeyBytes(", """
func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
	der, err := decode(pemBytes, "PUBLIC KEY", "RSA PUBLIC KEY")
	if err != nil {
		return nil, err
	}
	key, err := x509.ParsePKIXPublicKey(der)
	if err != nil {
		return nil, err
	}
	switch key := key.(type) {
	case *rsa.PublicKey:
		return key, nil
	default:
		return nil, fmt.Errorf("expected RSA PUBLIC KEY, got: %T", key)
	}
}
"""), ("func normalizePem(", """
func normalizePem(pemStr string, typ string) string {
	if strings.Contains(pemStr, "-----BEGIN") && strings.Contains(pemStr, "-----END") {
		return pemStr
	}
	return "-----BEGIN " + typ + "-----\\n" + pemStr + "\\n-----END " + typ + "-----"
}
"""), ("func ExtractPublicKeyPem(", """
func ExtractPublicKeyPem(privateKey *rsa.PrivateKey) (string, error) {
	der, err := x509.MarshalPKIXPublicKey(privateKey.Public())
	if err != nil {
		return "", err
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})), nil
}
"""), also=[(RS, '	"bytes"\n', '')])
R(RS, ("func ReadPublicKey(", """
func ReadPublicKey(pem string) (*rsa.PublicKey, error) {
	text := normalizePem(pem, "PUBLIC KEY")
	return ReadPublicKeyBytes([]byte(text))
}
"""), ("func MustReadPublicKey(", """
func MustReadPublicKey(pem string) *rsa.PublicKey {
	return mustPublic(ReadPublicKey(pem))
}

func mustPublic(key *rsa.PublicKey, err error) *rsa.PublicKey {
	if err == nil {
		return key
	}
	panic(err)
}
"""), ("func MustReadPublicKeyBytes(", """
func MustReadPublicKeyBytes(pemBytes []byte) *rsa.PublicKey {
	return mustPublic(ReadPublicKeyBytes(pemBytes))
}
"""))
R("util/time/now.go", ("func FixedNow(", """
func FixedNow(nowTime time.Time) NowFunc {
	fixed := func() time.Time { return nowTime }
	return fixed
}
"""))
BB((Z, "	notFull *sync.Cond\n", "	notFull sync.Cond\n"), (Z, "	s.notFull = sync.NewCond(&s.lock)\n", "	s.notFull.L = &s.lock\n"))
MM("X03", (Z, "	lock    sync.Mutex\n", "	lock    sync.Mutex\n	other   sync.Mutex\n"), (Z, "sync.NewCond(&s.lock)", "&sync.Cond{L: &s.other}"))
