# Wider restructurings: shared bases, method objects, tables, merged critical sections.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


T = "schedule/task.go"
D = "schedule/fixed_delay_task.go"
X = "schedule/fixed_rate_task.go"
# status and number read in one critical section
for f, typ, go in ((D, "FixedDelayTask", "			t.runJob(no)\n			go t.appendJobQueueFuture()\n"), (X, "FixedRateTask", "			go t.runJob(no)\n")):
    R(f, ("func (t *%s) startConsuming(" % typ, '''
func (t *%s) startConsuming() {
	for {
		select {
		case <-t.jobQ:
			no, ok := t.nextRun()
			if !ok {
				return
			}
%s		case <-t.stopSig:
			// task is stopped
			return
		}
	}
}
''' % (typ, go)), ("func (t *%s) nextNo(" % typ, '''
// nextRun counts the run that is about to begin, unless the task is stopped.
func (t *%s) nextRun() (no int64, ok bool) {
	t.lock.Lock()
	defer t.lock.Unlock()
	if t.status == stopped {
		return 0, false
	}
	t.no++
	return t.no, true
}
''' % typ))
# the consumer handed the way to run a job
BB((D, src(D, "func (t *FixedDelayTask) startConsuming("), '''func (t *FixedDelayTask) startConsuming() {
	t.consume(t.getStatus, func() {
		t.runJob(t.nextNo())
		go t.appendJobQueueFuture()
	})
}
'''), (X, src(X, "func (t *FixedRateTask) startConsuming("), '''func (t *FixedRateTask) startConsuming() {
	t.consume(t.getStatus, func() { go t.runJob(t.nextNo()) })
}
'''), (T, "", '''
// consume runs triggered jobs until the task is stopped.
func (t *taskCommon) consume(status func() int, run func()) {
	for {
		select {
		case <-t.stopSig:
			// task is stopped
			return
		case <-t.jobQ:
			if status() == stopped {
				return
			}
			run()
		}
	}
}
'''))
# the lock moves into the common part, with the functions that use it
BB((D, "	lock *sync.Mutex // guard below\n	taskCommon\n", "	taskCommon\n"),
   (X, "	lock *sync.Mutex // guard below\n	taskCommon\n", "	taskCommon\n"),
   (T, "	name     string        // name for the task\n", "	lock     sync.Mutex    // guards no and status\n	name     string        // name for the task\n"),
   (D, "		},\n		lock: &sync.Mutex{},\n", "		},\n"), (X, "		},\n		lock: &sync.Mutex{},\n", "		},\n"),
   (D, src(D, "func (t *FixedDelayTask) getStatus("), ""), (X, src(X, "func (t *FixedRateTask) getStatus("), ""),
   (D, src(D, "func (t *FixedDelayTask) nextNo("), ""), (X, src(X, "func (t *FixedRateTask) nextNo("), ""),
   (D, '	"sync"\n', ""), (X, '	"sync"\n', ""), (T, '	"time"\n', '	"sync"\n	"time"\n'),
   (T, "", '''
func (t *taskCommon) getStatus() int {
	t.lock.Lock()
	defer t.lock.Unlock()
	return t.status
}

func (t *taskCommon) nextNo() int64 {
	t.lock.Lock()
	defer t.lock.Unlock()
	t.no++
	return t.no
}
'''))
# one stop for both, given what else is to be stopped
BB((D, src(D, "func (t *FixedDelayTask) Stop("), '''func (t *FixedDelayTask) Stop() error {
	return t.stopWith(t.lock, func() {})
}
'''), (X, src(X, "func (t *FixedRateTask) Stop("), '''func (t *FixedRateTask) Stop() error {
	return t.stopWith(t.lock, func() { t.ticker.Stop() })
}
'''), (T, "", '''
func (t *taskCommon) stopWith(lock sync.Locker, also func()) error {
	lock.Lock()
	defer lock.Unlock()
	if err := t.markStopSendSignal(); err != nil {
		return err
	}
	also()
	simplelog.StdLogger.Printf("task[%s] stop signal sent", t.name)
	return nil
}
'''), (T, '	"time"\n', '	"sync"\n	"time"\n'))
# Must forms through one helper
BB((D, src(D, "func (t *FixedDelayTask) MustStart("), '''func (t *FixedDelayTask) MustStart() {
	must(t.Start())
}
'''), (D, src(D, "func (t *FixedDelayTask) MustStop("), '''func (t *FixedDelayTask) MustStop() {
	must(t.Stop())
}
'''), (X, src(X, "func (t *FixedRateTask) MustStart("), '''func (t *FixedRateTask) MustStart() {
	must(t.Start())
}
'''), (X, src(X, "func (t *FixedRateTask) MustStop("), '''func (t *FixedRateTask) MustStop() {
	must(t.Stop())
}
'''), (T, "", '''
func must(err error) {
	if err != nil {
		panic(err)
	}
}
'''))
# the run as an object
R(T, ("func (t *taskCommon) runJob(", '''
func (t *taskCommon) runJob(nextNo int64) {
	simplelog.StdLogger.Printf("task[%s] job[#%v] start\\n", t.name, nextNo)
	ctx, cancel := context.WithTimeout(context.Background(), t.timeout)
	r := &run{task: t, no: nextNo, ctx: ctx, fin: make(chan struct{})}
	defer cancel()
	go r.execute()
	r.await(cancel)
}
'''), add='''
type run struct {
	task *taskCommon
	no   int64
	ctx  context.Context
	fin  chan struct{}
}

func (r *run) execute() {
	startAt := time.Now()
	err := r.task.job(r.ctx.Done())
	elapse := time.Since(startAt)
	close(r.fin)
	r.report(err, elapse)
}

func (r *run) await(cancel context.CancelFunc) {
	select {
	case <-r.fin:
		return
	case <-r.ctx.Done():
	case <-r.task.stopSig:
		cancel()
	}
	<-r.fin
}

func (r *run) report(err error, elapse time.Duration) {
	if err != nil {
		simplelog.ErrLogger.Printf("task[%s] job[#%v] error: %v\\n", r.task.name, r.no, err)
	}
	switch r.ctx.Err() {
	case context.Canceled:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled by stop signal, time elapse %v\\n", r.task.name, r.no, elapse)
	case context.DeadlineExceeded:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled due to timeout(%v), time elapse %v\\n", r.task.name, r.no, r.task.timeout, elapse)
	default:
		simplelog.StdLogger.Printf("task[%s] job[#%v] finished, time elapse %v\\n", r.task.name, r.no, elapse)
	}
}
''')
B_ = "event/bus.go"
# the receivers as a type of their own
R(B_, ("func (b *FanOutBus) doDispatch(", '''
func (b *FanOutBus) doDispatch() {
	for event := range b.ch {
		b.offer(event)
	}
}

func (b *FanOutBus) offer(event interface{}) {
	b.recvMapLock.RLock()
	defer b.recvMapLock.RUnlock()
	for name := range b.recvMap {
		b.recvMap[name].onEvent(event)
	}
}
'''))
R(B_, ("func (b *FanOutBus) Close(", '''
func (b *FanOutBus) Close() {
	close(b.ch)
	close(b.done)
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	for _, recv := range b.recvMap {
		recv.shut()
	}
	b.recvMap = make(map[string]*Receiver)
}
'''), ("func (b *FanOutBus) deregisterRecv(", '''
func (b *FanOutBus) deregisterRecv(recv *Receiver) {
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	if !recv.shut() {
		return
	}
	if b.recvMap[recv.name] == recv {
		delete(b.recvMap, recv.name)
	}
}
'''), add='''
// shut closes the channel unless it is closed, called with the map locked
func (r *Receiver) shut() bool {
	if r.closed {
		return false
	}
	r.closed = true
	close(r.ch)
	return true
}
''')
R(B_, ("func (b *FanOutBus) NewRecvStrategy(", '''
func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullStrategy) *Receiver {
	recv := newReceiver(name, bufSize, fullStrategy)
	recv.bus = b
	b.register(recv)
	return recv
}

func (b *FanOutBus) register(recv *Receiver) {
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	b.recvMap[recv.name] = recv
}

func newReceiver(name string, bufSize int, fullStrategy FullStrategy) *Receiver {
	recv := &Receiver{name: name, strategy: fullStrategy}
	recv.ch = make(chan interface{}, bufSize)
	recv.C = recv.ch
	recv.done = make(chan struct{})
	return recv
}
'''))
# one collector for both reading functions
R(B_, ("func (r *Receiver) Drain(", '''
func (r *Receiver) Drain() (data []interface{}) {
	data = make([]interface{}, 0, 10)
	for {
		d, ok := r.pending()
		if !ok {
			return data
		}
		data = append(data, d)
	}
}

func (r *Receiver) pending() (interface{}, bool) {
	select {
	case d, ok := <-r.C:
		return d, ok
	default:
		return nil, false
	}
}
'''), ("func (r *Receiver) CollectTimeout(", '''
func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
	timer := time.NewTimer(timeout)
	defer timer.Stop()
	data = make([]interface{}, 0, 10)
	for open := true; open; {
		var d interface{}
		if d, open = r.next(timer.C); open {
			data = append(data, d)
		}
	}
	return data
}

func (r *Receiver) next(over <-chan time.Time) (interface{}, bool) {
	select {
	case d, ok := <-r.C:
		return d, ok
	case <-over:
		return nil, false
	}
}
'''))
H = "skywalking/redis/hook.go"
# one start and one end for commands and pipelines
R(H, ("func (h *tracerHook) BeforeProcess(", '''
func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
	return h.begin(ctx, cmd.Name, cmd.String)
}

// begin starts a span and describes it
func (h *tracerHook) begin(ctx context.Context, name, full func() string) (context.Context, error) {
	if h.tracer == nil {
		return ctx, nil
	}
	op := name()
	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, op, h.opts.peer, noopInjector)
	if err != nil {
		// tracing failure must not fail the command
		return ctx, nil
	}
	stmt := op
	if h.opts.reportArgs {
		stmt = full()
	}
	tags := [][2]string{{string(go2sky.TagDBStatement), stmt}, {string(go2sky.TagDBInstance), h.opts.Db}, {string(go2sky.TagDBType), "Redis"}}
	for _, tag := range tags {
		span.Tag(go2sky.Tag(tag[0]), tag[1])
	}
	span.SetComponent(componentID)
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	return context.WithValue(nCtx, h, span), nil
}
'''), ("func (h *tracerHook) BeforeProcessPipeline(", '''
func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
	join := func(s stringer) func() string {
		return func() string { return quickJoin(cmds, "|", s) }
	}
	return h.begin(ctx, join(rv7.Cmder.Name), join(rv7.Cmder.String))
}
'''))
R(H, ("func (h *tracerHook) AfterProcess(", '''
func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	text := ""
	err := cmd.Err()
	if err != nil {
		text = err.Error()
	}
	return h.finish(ctx, err != nil, text)
}

// finish ends the span of this hook, the active span may belong to the caller
func (h *tracerHook) finish(ctx context.Context, failed bool, text string) error {
	span, ok := ctx.Value(h).(go2sky.Span)
	if !ok {
		return nil
	}
	defer span.End()
	if !failed {
		return nil
	}
	var details []string
	if h.opts.logError {
		details = append(details, text)
	}
	span.Error(time.Now(), details...)
	return nil
}
'''), ("func (h *tracerHook) AfterProcessPipeline(", '''
func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
	errs := quickJoinError(cmds, "|")
	return h.finish(ctx, errs != "", errs)
}
'''))
F = "confs/fasthttpclient.go"
R(F, ("func NewFastHttpClient(", '''
func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCustomizer) *fasthttp.Client {
	client := &fasthttp.Client{TLSConfig: hcConf.tlsConfig()}
	client.MaxConnsPerHost = hcConf.MaxConnsPerHost
	client.MaxIdleConnDuration, client.MaxConnDuration = hcConf.MaxIdleConnDuration, hcConf.MaxConnDuration
	client.ReadTimeout, client.WriteTimeout = hcConf.ReadTimeout, hcConf.WriteTimeout
	client.MaxConnWaitTimeout = hcConf.MaxConnWaitTimeout
	if customizer != nil {
		customizer(client)
	}
	return client
}

// tlsConfig is nil if nothing but the defaults is asked for
func (c *FastHttpClientConf) tlsConfig() *tls.Config {
	var config *tls.Config
	need := func() *tls.Config {
		if config == nil {
			config = &tls.Config{}
		}
		return config
	}
	if c.CertChain != "" || c.PrivateKey != "" {
		need().Certificates = []tls.Certificate{c.mustKeyPair()}
	}
	switch {
	case c.SslTrustMode == "INSECURE":
		need().InsecureSkipVerify = true
	case c.SslTrustMode == "CUSTOM" && len(c.SslTrustCerts) > 0:
		need().RootCAs = c.mustTrusted()
	}
	return config
}

func (c *FastHttpClientConf) mustKeyPair() tls.Certificate {
	pair, err := tls.LoadX509KeyPair(c.CertChain, c.PrivateKey)
	if err != nil {
		panic(err)
	}
	return pair
}

func (c *FastHttpClientConf) mustTrusted() *x509.CertPool {
	pool := x509.NewCertPool()
	files := strings.Split(c.SslTrustCerts, ",")
	for i := 0; i < len(files); i++ {
		appendCertPool(pool, files[i])
	}
	return pool
}
'''))
ES = "confs/es.go"
R(ES, ("func NewEsClient(", '''
func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Client {
	esConf := elasticsearch.Config{Transport: conf.transport()}
	esConf.Addresses = strings.Split(conf.Addrs, ",")
	esConf.Username, esConf.Password = conf.Username, conf.Password
	if customizer != nil {
		customizer(&esConf)
	}
	es, err := elasticsearch.NewClient(esConf)
	if err == nil {
		err = pingEs(es)
	}
	if err != nil {
		panic(err)
	}
	simplelog.StdLogger.Printf("Connected to Elasticsearch: %s", conf.Addrs)
	return es
}

func (m *EsConf) transport() *http.Transport {
	t := http.DefaultTransport.(*http.Transport).Clone()
	t.MaxConnsPerHost, t.MaxIdleConnsPerHost = m.MaxConnsPerHost, m.MaxIdleConnsPerHost
	t.ResponseHeaderTimeout = time.Minute
	return t
}

// pingEs reports why the server can not be used
func pingEs(es *elasticsearch.Client) error {
	res, err := es.Ping()
	if err != nil {
		return err
	}
	defer func() { _ = res.Body.Close() }()
	if !res.IsError() {
		return nil
	}
	body, err := ioutil.ReadAll(res.Body)
	if err == nil {
		err = fmt.Errorf("Connected to Elasticsearch error: %s", body)
	}
	return err
}
'''))
W = "ratelimiter/fixedwindow.go"
R(W, ("func (s *SyncFixedWindow) reset(", '''
func (s *SyncFixedWindow) reset(ts int64) {
	if s.contains(ts) {
		return
	}
	s.until, s.count = s.endFor(ts), 0
}

// endFor: the first end of a window that is not before ts
func (s *SyncFixedWindow) endFor(ts int64) int64 {
	size := s.windowSize
	if size <= 0 {
		return ts
	}
	behind := ts - s.until
	windows := behind / size
	if behind%size != 0 {
		windows++
	}
	return s.until + windows*size
}
'''))
R(W, ("func (s *SyncFixedWindow) Acquire(", '''
func (s *SyncFixedWindow) Acquire() (granted bool) {
	now := s.nowFn().UnixNano()
	s.lock.Lock()
	defer s.lock.Unlock()
	s.reset(now)
	if granted = s.count < s.capacity; granted {
		s.count += 1
	}
	return
}
'''))
M1 = "confs/mysql.go"
# pool limits and test through an interface both kinds of database have
POOL = '''
type pool interface {
	SetMaxOpenConns(n int)
	SetMaxIdleConns(n int)
	SetConnMaxLifetime(d time.Duration)
	Ping() error
}

// ready applies the limits and tests the connection
func (m *MysqlConf) ready(db pool) {
	db.SetMaxOpenConns(m.MaxOpenConns)
	db.SetMaxIdleConns(m.MaxIdleConns)
	db.SetConnMaxLifetime(m.ConnMaxLifetime)
	if err := db.Ping(); err != nil {
		simplelog.ErrLogger.Fatal("MySQL connection error: ", err)
		panic(err)
	}
	simplelog.StdLogger.Printf("Connected to MySQL: %s:%d", m.Host, m.Port)
}
'''
R(M1, ("func NewMySqlDb(", '''
func NewMySqlDb(conf *MysqlConf, customizer MysqlConfigCustomizer) *sql.DB {
	db, err := sql.Open("mysql", prepareMySqlNativeConfig(conf, customizer).FormatDSN())
	if err != nil {
		simplelog.ErrLogger.Fatal(err)
		panic(err)
	}
	conf.ready(db)
	return db
}
'''), ("func NewMySqlDbWithTracer(", '''
func NewMySqlDbWithTracer(conf *MysqlConf, tracer *go2sky.Tracer, customizer MysqlConfigCustomizer) *sql.DB {
	db, err := sqlPlugin.Open("mysql", prepareMySqlNativeConfig(conf, customizer).FormatDSN(), tracer,
		sqlPlugin.WithSQLDBType(sqlPlugin.MYSQL),
		sqlPlugin.WithQueryReport(),
		sqlPlugin.WithParamReport(),
	)
	if err != nil {
		simplelog.ErrLogger.Fatal(err)
		panic(err)
	}
	conf.ready(db)
	return db.DB
}
'''), add=POOL)
O1 = "confs/oracle.go"
# the traced and the plain one opened by what they are given
R(O1, ("func NewOracleDb(", '''
func NewOracleDb(conf *OracleConf, customizer OracleUrlOptionsCustomizer) *sql.DB {
	return openOracle(conf, customizer, func(url string) (*sql.DB, error) {
		return sql.Open("oracle", url)
	})
}

func openOracle(conf *OracleConf, customizer OracleUrlOptionsCustomizer, open func(url string) (*sql.DB, error)) *sql.DB {
	fatal := func(err error, what ...interface{}) {
		if err == nil {
			return
		}
		err = withoutUrl(err)
		simplelog.ErrLogger.Fatal(append(what, err)...)
		panic(err)
	}
	options := prepareUrlOptions(conf, customizer)
	db, err := open(go_ora.BuildUrl(conf.Host, conf.Port, conf.Service, conf.Username, conf.Password, options))
	fatal(err)
	db.SetMaxOpenConns(conf.MaxOpenConns)
	db.SetMaxIdleConns(conf.MaxIdleConns)
	db.SetConnMaxLifetime(conf.ConnMaxLifetime)
	fatal(db.Ping(), "Oracle connection error: ")
	simplelog.StdLogger.Printf("Connected to Oracle: %s:%d", conf.Host, conf.Port)
	return db
}
'''))
PG = "confs/postgresql.go"
R(PG, ("func buildPgDsn(", '''
func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "postgres://%s@%s:%d/%s", url.UserPassword(conf.Username, conf.Password), conf.Host, conf.Port, url.PathEscape(conf.Database))
	sep := "?"
	for key, val := range options {
		sb.WriteString(sep)
		sb.WriteString(url.QueryEscape(key))
		sb.WriteString("=")
		sb.WriteString(url.QueryEscape(strings.TrimSpace(val)))
		sep = "&"
	}
	return sb.String()
}
'''))
R(PG, ("func preparePgUrlOptions(", '''
func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
	options := make(map[string]string)
	if seconds := conf.ConnectTimeout; seconds != 0 {
		options["connect_timeout"] = fmt.Sprint(seconds)
	}
	if customizer != nil {
		customizer(options)
	}
	for _, pair := range strings.Split(conf.Params, "&") {
		i := strings.Index(pair, "=")
		if i < 0 || i != strings.LastIndex(pair, "=") {
			continue
		}
		if val, err := url.QueryUnescape(pair[i+1:]); err == nil {
			options[pair[:i]] = val
		}
	}
	return options
}
'''), also=[(PG, '	"strconv"\n', "")])
PP = "confs/pprof.go"
R(PP, ("func NewFasthttpRoutingPprofHandler(", '''
func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
	if !conf.enabled() {
		return emptyFasthttpRoutingHandler
	}
	conf.applyRates()
	return func(ctx *routing.Context) error {
		user, pass, ok := basicAuth(ctx)
		if ok && user == conf.Username && pass == conf.Password {
			pprofhandler.PprofHandler(ctx.RequestCtx)
			return nil
		}
		ctx.SetStatusCode(fasthttp.StatusUnauthorized)
		ctx.Response.Header.Add("WWW-Authenticate", `Basic realm="User Visible Realm"`)
		return nil
	}
}

// enabled: 如果没有设置，就不允许访问
func (p *PprofConf) enabled() bool {
	return len(p.Username) > 0 && len(p.Password) > 0
}

// applyRates: 设置Profile相关参数
func (p *PprofConf) applyRates() {
	runtime.SetBlockProfileRate(p.BlockProfileRate)
	runtime.SetMutexProfileFraction(p.MutexProfileFraction)
}

func basicAuth(ctx *routing.Context) (user, pass string, ok bool) {
	header := string(ctx.Request.Header.Peek("Authorization"))
	raw, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(header, "Basic "))
	if err != nil || len(raw) == 0 {
		return "", "", false
	}
	i := strings.IndexByte(string(raw), ':')
	if i < 0 {
		return "", "", false
	}
	return string(raw[:i]), string(raw[i+1:]), true
}
'''), ("func NewGinPprofBasicAuthFilter(", '''
func NewGinPprofBasicAuthFilter(conf *PprofConf) gin.HandlerFunc {
	if conf.enabled() {
		conf.applyRates()
		return gin.BasicAuth(map[string]string{conf.Username: conf.Password})
	}
	return func(c *gin.Context) {
		defer c.Abort()
		c.String(http.StatusNotFound, "404 page not found")
	}
}
'''))
MW = "skywalking/fasthttp-routing/middleware.go"
R(MW, ("func NewMiddleware(", '''
func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
	if tracer == nil {
		return (*routing.Context).Next
	}
	m := &middleware{tracer: tracer}
	for i := range opts {
		opts[i](&m.options)
	}
	return m.handle
}

type middleware struct {
	tracer  *go2sky.Tracer
	options options
}

func (m *middleware) handle(rCtx *routing.Context) error {
	span := m.enter(rCtx)
	nextErr := rCtx.Next()
	if span != nil {
		m.leave(span, rCtx, nextErr)
	}
	return nextErr
}

func (m *middleware) enter(rCtx *routing.Context) go2sky.Span {
	header := func(key string) (string, error) {
		return string(rCtx.Request.Header.Peek(key)), nil
	}
	span, spanCtx, err := m.tracer.CreateEntrySpan(GetSwContext(rCtx), GetOperationName(rCtx), header)
	if err != nil {
		return nil
	}
	SetSwContext(rCtx, spanCtx)
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	span.SetComponent(componentIDGoHttpServer)
	span.Tag(go2sky.TagURL, rCtx.RequestCtx.URI().String())
	span.Tag(go2sky.TagHTTPMethod, string(rCtx.RequestCtx.Method()))
	return span
}

func (m *middleware) leave(span go2sky.Span, rCtx *routing.Context, nextErr error) {
	defer span.End()
	status := rCtx.Response.StatusCode()
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(status))
	if failed, text := m.failure(rCtx, nextErr, status); failed {
		span.Error(time.Now(), text...)
	}
}

// failure tells whether the request failed and what may be said about it
func (m *middleware) failure(rCtx *routing.Context, err error, status int) (failed bool, text []string) {
	if err == nil {
		err = rCtx.Err()
	}
	if err != nil {
		if m.options.logError {
			text = append(text, err.Error())
		}
		return true, text
	}
	if status < 400 {
		return false, nil
	}
	if m.options.log4xxBody {
		text = []string{string(rCtx.Response.Body())}
	}
	return true, text
}
'''))
CS = "skywalking/fasthttp/client_span.go"
R(CS, ("func (fc *ClientSpanHelper) EndSpan(", '''
func (fc *ClientSpanHelper) EndSpan(span go2sky.Span, res *fasthttp.Response) {
	if span == nil {
		return
	}
	status := res.StatusCode()
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(status))
	fc.end(span, status >= 400, fc.options.log4xxBody, func() string { return string(res.Body()) })
}

// end marks the span as failed, with the details if they are wanted, and ends it
func (fc *ClientSpanHelper) end(span go2sky.Span, failed, detailed bool, text func() string) {
	switch {
	case failed && detailed:
		span.Error(time.Now(), text())
	case failed:
		span.Error(time.Now())
	}
	span.End()
}
'''), ("func (fc *ClientSpanHelper) EndSpanError(", '''
func (fc *ClientSpanHelper) EndSpanError(span go2sky.Span, err error) {
	if span != nil {
		fc.end(span, true, fc.options.logError, err.Error)
	}
}
'''))
# pairs told apart in other ways
SPLIT = '''			p := strings.Split(str, "=")
			if len(p) != 2 {
				continue
			}
			unescape, err := url.QueryUnescape(p[1])
			if err != nil {
				continue
			}
'''
def PAIR(f, m, new, key):
    old = SPLIT + "			%s[p[0]] = unescape\n" % m
    assert old in open("/repo/" + f).read()
    return f, old, new + "			%s[%s] = unescape\n" % (m, key)
UN = '''			unescape, err := url.QueryUnescape(%s)
			if err != nil {
				continue
			}
'''
B(*PAIR(M1, "mc.Params", '''			name, val, ok := strings.Cut(str, "=")
			if !ok || strings.Contains(val, "=") {
				continue
			}
''' + UN % "val", "name"))
B(*PAIR(O1, "options", '''			p := strings.SplitN(str, "=", 2)
			if len(p) < 2 || strings.Contains(p[1], "=") {
				continue
			}
''' + UN % "p[1]", "p[0]"))
B(*PAIR(O1, "options", '''			p := strings.SplitN(str, "=", 3)
			if len(p) != 2 {
				continue
			}
''' + UN % "p[1]", "p[0]"))
B(*PAIR(PG, "options", '''			if strings.Count(str, "=") != 1 {
				continue
			}
			at := strings.IndexByte(str, '=')
''' + UN % "str[at+1:]", "str[:at]"))
B(*PAIR(PG, "options", '''			at := strings.IndexByte(str, '=')
			if at < 0 {
				continue
			}
			name, val := str[:at], str[at+1:]
			if strings.IndexByte(val, '=') >= 0 {
				continue
			}
''' + UN % "val", "name"))
for new, key in (('			p := strings.SplitN(str, "=", 2)\n			if len(p) != 2 {\n				continue\n			}\n' + UN % "p[1]", "p[0]"),
                 ('			at := strings.Index(str, "=")\n			if at < 0 {\n				continue\n			}\n' + UN % "str[at+1:]", "str[:at]"),
                 ('			at := strings.LastIndex(str, "=")\n			if at < 0 {\n				continue\n			}\n' + UN % "str[at+1:]", "str[:at]"),
                 ('			at := strings.Index(str, "=")\n			if at <= 0 || at != strings.LastIndex(str, "=") {\n				continue\n			}\n' + UN % "str[at+1:]", "str[:at]"),
                 ('			if strings.Count(str, "=") != 1 {\n				continue\n			}\n			at := strings.IndexByte(str, \'=\')\n' + UN % "str[at:]", "str[:at]"),
                 ('			name, val, ok := strings.Cut(str, "=")\n			if !ok || strings.Contains(name, "=") {\n				continue\n			}\n' + UN % "val", "name"),
                 ('			name, val, ok := strings.Cut(str, "=")\n			if !ok || strings.Contains(str, "==") {\n				continue\n			}\n' + UN % "val", "name")):
    M("N02", *PAIR(O1, "options", new, key))
# wrong tables
HT = src(H, "func (h *tracerHook) BeforeProcess(")
for row in ('{string(go2sky.TagDBStatement), cmd.String()}, {string(go2sky.TagDBInstance), h.opts.Db}', '{string(go2sky.TagDBInstance), cmd.Name()}, {string(go2sky.TagDBStatement), h.opts.Db}'):
    M("W04" if "Name" in row else "W03", H, HT[HT.index("	if h.opts.reportArgs {"):HT.index('	span.Tag(go2sky.TagDBType')], "	for _, tag := range [][2]string{%s} {\n		span.Tag(go2sky.Tag(tag[0]), tag[1])\n	}\n" % row)
