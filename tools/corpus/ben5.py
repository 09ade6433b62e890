# whole functions rewritten: redis limiter, tracing, processors, clients, configuration


def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


def RM(props, path, *pairs):
    MM(props, *[(path, src(path, h), new.lstrip("\n")) for h, new in pairs])


L = "ratelimiter/ttl_ratelimiter_redis.go"
R(L, ("func (r *redisTtlRateLimiter) IsBlockedContext(", """
func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey string) *Result {
	cmd := r.redisClient.WithContext(ctx).EvalSha(scriptSha2, []string{r.hashTag + blockKey + suffix})
	return resultOf(cmd, "eval script2 ", scriptSha2)
}

func resultOf(cmd *redis.Cmd, what, sha string) *Result {
	raw, err := cmd.Result()
	if err != nil {
		simplelog.ErrLogger.Println(what, sha, "error", err)
		return new(Result)
	}
	arr := raw.([]interface{})
	return &Result{
		Block:     arr[0].(int64) == 1,
		Triggered: arr[1].(int64) == 1,
		Ttl:       int(arr[2].(int64)),
		Msg:       arr[3].(string),
	}
}
"""), ("func (r *redisTtlRateLimiter) ShouldBlock2Context(", """
func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key string, blockKey string, msg string) *Result {
	if isParamsNotSet(r.params) {
		return new(Result)
	}
	keys := []string{r.hashTag + prefix + key, r.hashTag + blockKey + suffix}
	args := []interface{}{r.params.GetCapacity(), r.params.GetWindowSizeSeconds(), r.params.GetTimeoutSeconds(), time.Now().Unix(), msg}
	return resultOf(r.redisClient.WithContext(ctx).EvalSha(scriptSha1, keys, args...), "eval script1 ", scriptSha1)
}
"""), ("func NewRedisTtlRateLimiter(", """
func NewRedisTtlRateLimiter(redisClient *redis.Client, params TtlRateLimiterParams) TtlRateLimiter {
	return newLimiter(redisClient, params, "")
}

func newLimiter(redisClient *redis.Client, params TtlRateLimiterParams, tag string) *redisTtlRateLimiter {
	return &redisTtlRateLimiter{params: params, redisClient: redisClient, hashTag: tag}
}
"""), ("func NewRedisTtlRateLimiterCluster(", """
func NewRedisTtlRateLimiterCluster(redisClient *redis.Client, params TtlRateLimiterParams, hashTag string) TtlRateLimiter {
	return newLimiter(redisClient, params, fmt.Sprintf("{%s}", strings.Trim(hashTag, "{}")))
}
"""), also=[(L, '	"context"\n', '	"context"\n	"fmt"\n')])
R(L, ("func (r *redisTtlRateLimiter) ShouldBlock2Context(", """
func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key string, blockKey string, msg string) *Result {
	var result Result
	capacity, window, timeout := r.params.GetCapacity(), r.params.GetWindowSizeSeconds(), r.params.GetTimeoutSeconds()
	if capacity <= 0 || window <= 0 || timeout <= 0 {
		return &result
	}
	client := r.redisClient.WithContext(ctx)
	raw, err := client.EvalSha(scriptSha1, r.keys(prefix+key, blockKey+suffix), capacity, window, timeout, time.Now().Unix(), msg).Result()
	if err != nil {
		simplelog.ErrLogger.Println("eval script1 ", scriptSha1, "error", err)
	} else {
		result.fill(raw.([]interface{}))
	}
	return &result
}

func (r *redisTtlRateLimiter) keys(keys ...string) []string {
	for i := range keys {
		keys[i] = r.hashTag + keys[i]
	}
	return keys
}

func (res *Result) fill(arr []interface{}) {
	if block, ok := arr[0].(int64); ok {
		res.Block = block == 1
	}
	res.Triggered = arr[1].(int64) == 1
	res.Ttl, res.Msg = int(arr[2].(int64)), arr[3].(string)
}
"""))
R("ratelimiter/ttl_ratelimiter.go", ("func isParamsNotSet(", """
func isParamsNotSet(params TtlRateLimiterParams) bool {
	set := params.GetCapacity() > 0 && params.GetTimeoutSeconds() > 0 && params.GetWindowSizeSeconds() > 0
	return !set
}
"""), ("func NewFixedTtlRateLimiterParams(", """
func NewFixedTtlRateLimiterParams(capacity, windowsSizeSec, timeoutSec int) TtlRateLimiterParams {
	p := new(fixedTtlRateLimiterParams)
	p.capacity, p.windowSizeSec, p.timeoutSec = capacity, windowsSizeSec, timeoutSec
	return p
}
"""))
R("ratelimiter/ttl_ratelimiter.go", ("func isParamsNotSet(", """
func isParamsNotSet(params TtlRateLimiterParams) bool {
	for _, n := range []int{params.GetCapacity(), params.GetTimeoutSeconds(), params.GetWindowSizeSeconds()} {
		if n <= 0 {
			return true
		}
	}
	return false
}
"""))
R(L, ("func LoadScript(", """
func LoadScript(redisClient *redis.Client) {
	for _, s := range []struct {
		sha    *string
		script string
	}{{&scriptSha1, script1}, {&scriptSha2, script2}} {
		sha := s.sha
		loadScript(redisClient, s.script, func(v string) { *sha = v })
	}
}
"""))

H = "skywalking/redis/hook.go"
PROC = """
func (h *tracerHook) start(ctx context.Context, op string, stmt func() string) context.Context {
	if h.tracer == nil {
		return ctx
	}
	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, op, h.opts.peer, noopInjector)
	if err != nil {
		return ctx
	}
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	span.SetComponent(componentID)
	span.Tag(go2sky.TagDBType, "Redis")
	span.Tag(go2sky.TagDBInstance, h.opts.Db)
	if !h.opts.reportArgs {
		span.Tag(go2sky.TagDBStatement, op)
	} else {
		span.Tag(go2sky.TagDBStatement, stmt())
	}
	return context.WithValue(nCtx, h, span)
}

func (h *tracerHook) finish(ctx context.Context, failure string, failed bool) {
	span, ok := ctx.Value(h).(go2sky.Span)
	if !ok || span == nil {
		return
	}
	if failed {
		var ll []string
		if h.opts.logError {
			ll = append(ll, failure)
		}
		span.Error(time.Now(), ll...)
	}
	span.End()
}
"""
R(H, ("func (h *tracerHook) BeforeProcess(", """
func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
	return h.start(ctx, cmd.Name(), cmd.String), nil
}
"""), ("func (h *tracerHook) BeforeProcessPipeline(", """
func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
	return h.start(ctx, quickJoin(cmds, "|", rv7.Cmder.Name), func() string {
		return quickJoin(cmds, "|", rv7.Cmder.String)
	}), nil
}
"""), ("func (h *tracerHook) AfterProcess(", """
func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	text := ""
	err := cmd.Err()
	if err != nil {
		text = err.Error()
	}
	h.finish(ctx, text, err != nil)
	return nil
}
"""), ("func (h *tracerHook) AfterProcessPipeline(", """
func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
	errs := quickJoinError(cmds, "|")
	h.finish(ctx, errs, errs != "")
	return nil
}
"""), add=PROC)
R(H, ("func quickJoin(", """
func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
	parts := make([]string, len(objs))
	for i, obj := range objs {
		parts[i] = stringer(obj)
	}
	return strings.Join(parts, sep)
}
"""), ("func quickJoinError(", """
func quickJoinError(objs []rv7.Cmder, sep string) string {
	var errs []string
	for _, obj := range objs {
		if err := obj.Err(); err != nil {
			errs = append(errs, err.Error())
		}
	}
	return strings.Join(errs, sep)
}
"""))
R(H, ("func quickJoin(", """
func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) (s string) {
	for i := range objs {
		if i > 0 {
			s += sep
		}
		s += stringer(objs[i])
	}
	return
}
"""), ("func NewHook(", """
func NewHook(tracer *go2sky.Tracer, opts ...Option) rv7.Hook {
	h := &tracerHook{tracer: tracer, opts: new(options)}
	for i := 0; i < len(opts); i++ {
		opts[i](h.opts)
	}
	return h
}
"""))

S = "skywalking/fasthttp/client_span.go"
R(S, ("func (fc *ClientSpanHelper) CreateSpan(", """
func (fc *ClientSpanHelper) CreateSpan(ctx context.Context, req *fasthttp.Request) (go2sky.Span, error) {
	if fc.tracer == nil {
		return nil, nil
	}
	inject := func(key, value string) error {
		req.Header.Set(key, value)
		return nil
	}
	span, err := fc.tracer.CreateExitSpan(ctx, getOperationNameForReq(req), string(req.Host()), inject)
	if err != nil {
		return span, err
	}
	for _, t := range []struct {
		tag   go2sky.Tag
		value string
	}{
		{go2sky.TagHTTPMethod, string(req.Header.Method())},
		{go2sky.TagURL, req.URI().String()},
	} {
		span.Tag(t.tag, t.value)
	}
	span.SetComponent(componentIDGoHttpClient)
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	return span, nil
}
"""), ("func (fc *ClientSpanHelper) EndSpanError(", """
func (fc *ClientSpanHelper) EndSpanError(span go2sky.Span, err error) {
	if span == nil {
		return
	}
	defer span.End()
	if !fc.options.logError {
		span.Error(time.Now())
		return
	}
	span.Error(time.Now(), err.Error())
}
"""))
R(S, ("func (fc *ClientSpanHelper) EndSpan(", """
func (fc *ClientSpanHelper) EndSpan(span go2sky.Span, res *fasthttp.Response) {
	if span != nil {
		code := res.StatusCode()
		span.Tag(go2sky.TagStatusCode, fmt.Sprint(code))
		switch failed := code >= 400; {
		case failed && fc.options.log4xxBody:
			span.Error(time.Now(), string(res.Body()))
		case failed:
			span.Error(time.Now())
		}
		span.End()
	}
}
"""), ("func NewClientSpanHelper(", """
func NewClientSpanHelper(trace *go2sky.Tracer, opts ...Option) *ClientSpanHelper {
	var o options
	for _, set := range opts {
		set(&o)
	}
	return &ClientSpanHelper{trace, &o}
}
"""), also=[(S, '	"strconv"\n', '')])
W = "skywalking/fasthttp-routing/middleware.go"
R(W, ("func NewMiddleware(", """
func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
	if tracer == nil {
		return func(c *routing.Context) error { return c.Next() }
	}
	options := new(options)
	for _, o := range opts {
		o(options)
	}
	return func(rCtx *routing.Context) (nextErr error) {
		header := &rCtx.Request.Header
		span, spanCtx, err := tracer.CreateEntrySpan(GetSwContext(rCtx), GetOperationName(rCtx), func(key string) (string, error) {
			return string(header.Peek(key)), nil
		})
		if err != nil {
			return rCtx.Next()
		}
		SetSwContext(rCtx, spanCtx)
		span.SetSpanLayer(agentv3.SpanLayer_Http)
		span.SetComponent(componentIDGoHttpServer)
		span.Tag(go2sky.TagURL, rCtx.URI().String())
		span.Tag(go2sky.TagHTTPMethod, string(rCtx.Method()))
		nextErr = rCtx.Next()
		code := rCtx.Response.StatusCode()
		failure := nextErr
		if failure == nil {
			failure = rCtx.Err()
		}
		switch {
		case failure != nil:
			options.fail(span, options.logError, failure.Error)
		case code >= 400:
			options.fail(span, options.log4xxBody, func() string { return string(rCtx.Response.Body()) })
		}
		span.Tag(go2sky.TagStatusCode, strconv.Itoa(code))
		span.End()
		return
	}
}

func (o *options) fail(span go2sky.Span, log bool, text func() string) {
	if !log {
		span.Error(time.Now())
	} else {
		span.Error(time.Now(), text())
	}
}
"""))

P = "confstore/procs.go"
R(P, ("func (i *intProcessor) Validate(", """
func (i *intProcessor) Validate(value string) (bool, string) {
	v, e := strconv.Atoi(value)
	switch {
	case e != nil:
		return false, "not int value"
	case i.minInclude && v < i.min:
		return false, "not >= " + strconv.Itoa(i.min)
	case !i.minInclude && v <= i.min:
		return false, "not > " + strconv.Itoa(i.min)
	case i.maxInclude && v > i.max:
		return false, "not <= " + strconv.Itoa(i.max)
	case !i.maxInclude && v >= i.max:
		return false, "not < " + strconv.Itoa(i.max)
	}
	return true, ""
}
"""), ("func (b *boolProcessor) Validate(", """
func (b *boolProcessor) Validate(value string) (bool, string) {
	switch value {
	case "true", "false":
		return true, ""
	default:
		return false, "not bool value"
	}
}
"""), ("func (b *boolProcessor) Convert(", """
func (b *boolProcessor) Convert(value string) interface{} {
	return value == "true"
}
"""), ("func (s *stringProcessor) Validate(", """
func (s *stringProcessor) Validate(value string) (bool, string) {
	if n := len(value); s.minLength <= n && n <= s.maxLength {
		return true, ""
	}
	return false, fmt.Sprintf("len(value) not >= %d or <= %d", s.minLength, s.maxLength)
}
"""))
R(P, ("func (i *intProcessor) Validate(", """
func (i *intProcessor) Validate(value string) (bool, string) {
	v, err := strconv.Atoi(value)
	if err != nil {
		return false, "not int value"
	}
	if why := i.below(v); why != "" {
		return false, why
	}
	if why := i.above(v); why != "" {
		return false, why
	}
	return true, ""
}

func (i *intProcessor) below(v int) string {
	if v > i.min || v == i.min && i.minInclude {
		return ""
	}
	if i.minInclude {
		return fmt.Sprintf("not >= %d", i.min)
	}
	return fmt.Sprintf("not > %d", i.min)
}

func (i *intProcessor) above(v int) string {
	if v < i.max || v == i.max && i.maxInclude {
		return ""
	}
	if i.maxInclude {
		return fmt.Sprintf("not <= %d", i.max)
	}
	return fmt.Sprintf("not < %d", i.max)
}
"""), ("func EnumProcessor(", """
func EnumProcessor(enums []string) *enumProcessor {
	p := &enumProcessor{enums: map[string]bool{}}
	for i := range enums {
		p.enums[enums[i]] = true
	}
	return p
}
"""), ("func (e *enumProcessor) Validate(", """
func (e *enumProcessor) Validate(value string) (bool, string) {
	if e.enums[value] {
		return true, ""
	}
	var allowed []string
	for enum := range e.enums {
		allowed = append(allowed, enum)
	}
	return false, "only allowed value: [" + strings.Join(allowed, ",") + "]"
}
"""))
R(P, ("func (u *urlProcessor) Validate(", """
func (u *urlProcessor) Validate(value string) (bool, string) {
	return validUrl(value)
}

func validUrl(value string) (ok bool, err string) {
	if ok = value == ""; !ok {
		if _, e := url.ParseRequestURI(value); e != nil {
			return false, "not url value"
		}
		ok = true
	}
	return
}
"""), ("func (u *urlStringProcessor) Validate(", """
func (u *urlStringProcessor) Validate(value string) (bool, string) {
	return validUrl(value)
}
"""), ("func (u *urlProcessor) Convert(", """
func (u *urlProcessor) Convert(value string) interface{} {
	var v *url.URL
	if len(value) > 0 {
		v, _ = url.ParseRequestURI(value)
	}
	return v
}
"""), ("func (c *cssColorHex) Validate(", """
func (c *cssColorHex) Validate(value string) (bool, string) {
	if value == "" || hexColor.MatchString(value) {
		return true, ""
	}
	return false, "not css color hex value"
}

var hexColor = regexp.MustCompile("^#[a-fA-F0-9]{6}$")
"""), ("func (r *rsaPrivateKeyPkcs1) Validate(", """
func (r *rsaPrivateKeyPkcs1) Validate(value string) (bool, string) {
	if value != "" {
		if _, e := rsautil.ReadPrivateKey(value); e != nil {
			return false, e.Error()
		}
	}
	return true, ""
}
"""), ("func (r *rsaPublicKey) Convert(", """
func (r *rsaPublicKey) Convert(value string) interface{} {
	if value == "" {
		return (*rsa.PublicKey)(nil)
	}
	key, err := rsautil.ReadPublicKey(value)
	if err != nil {
		return (*rsa.PublicKey)(nil)
	}
	return key
}
"""))
HC = "confs/fasthttpclient.go"
R(HC, ("func NewFastHttpClient(", """
func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCustomizer) *fasthttp.Client {
	client := new(fasthttp.Client)
	client.ReadTimeout, client.WriteTimeout = hcConf.ReadTimeout, hcConf.WriteTimeout
	client.MaxConnsPerHost = hcConf.MaxConnsPerHost
	client.MaxConnDuration = hcConf.MaxConnDuration
	client.MaxIdleConnDuration = hcConf.MaxIdleConnDuration
	client.MaxConnWaitTimeout = hcConf.MaxConnWaitTimeout
	client.TLSConfig = hcConf.tls()
	if customizer == nil {
		return client
	}
	customizer(client)
	return client
}

// tls is nil if nothing is configured
func (c *FastHttpClientConf) tls() *tls.Config {
	certs := c.certificates()
	roots := c.roots()
	insecure := c.SslTrustMode == "INSECURE"
	if certs == nil && roots == nil && !insecure {
		return nil
	}
	return &tls.Config{Certificates: certs, RootCAs: roots, InsecureSkipVerify: insecure}
}

func (c *FastHttpClientConf) certificates() []tls.Certificate {
	if c.CertChain == "" && c.PrivateKey == "" {
		return nil
	}
	pair, err := tls.LoadX509KeyPair(c.CertChain, c.PrivateKey)
	if err != nil {
		panic(err)
	}
	return []tls.Certificate{pair}
}

func (c *FastHttpClientConf) roots() *x509.CertPool {
	if c.SslTrustMode != "CUSTOM" || c.SslTrustCerts == "" {
		return nil
	}
	pool := x509.NewCertPool()
	for _, file := range strings.Split(c.SslTrustCerts, ",") {
		appendCertPool(pool, file)
	}
	return pool
}
"""), ("func appendCertPool(", """
func appendCertPool(certPool *x509.CertPool, file string) {
	pem, err := ioutil.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if certPool.AppendCertsFromPEM(pem) {
		return
	}
	simplelog.ErrLogger.Fatalf("load cert %s failed\\n", file)
}
"""))
O = "confs/oracle.go"
R(O, ("func prepareUrlOptions(", """
func prepareUrlOptions(conf *OracleConf, customizer OracleUrlOptionsCustomizer) map[string]string {
	if conf.Service == "" && conf.Sid == "" {
		panic("You need to provide either service or sid option")
	}
	options := map[string]string{}
	put := func(name, value string) {
		if value != "" {
			options[name] = value
		}
	}
	put("SID", conf.Sid)
	put("server", conf.Servers)
	if timeout := conf.ConnectTimeout; timeout != 0 {
		put("CONNECTION TIMEOUT", strconv.Itoa(timeout))
	}
	if customizer != nil {
		customizer(options)
	}
	eachParam(conf.Params, func(name, value string) { options[name] = value })
	return options
}

func eachParam(params string, use func(name, value string)) {
	if params == "" {
		return
	}
	for _, param := range strings.Split(params, "&") {
		nv := strings.Split(param, "=")
		if len(nv) == 2 {
			if value, err := url.QueryUnescape(nv[1]); err == nil {
				use(nv[0], value)
			}
		}
	}
}
"""))
MY = "confs/mysql.go"
R(MY, ("func prepareMySqlNativeConfig(", """
func prepareMySqlNativeConfig(conf *MysqlConf, customizer MysqlConfigCustomizer) *mysql.Config {
	mc := mysql.NewConfig()
	mc.User, mc.Passwd = conf.Username, conf.Password
	mc.Net, mc.Addr = "tcp", fmt.Sprint(conf.Host, ":", conf.Port)
	mc.DBName, mc.ParseTime = conf.Database, conf.ParseTime
	mc.Timeout, mc.ReadTimeout, mc.WriteTimeout = conf.Timeout, conf.ReadTimeout, conf.WriteTimeout
	mc.Params = params(conf.Params)
	if loc := location(conf.Loc); loc != nil {
		mc.Loc = loc
	}
	if customizer != nil {
		customizer(mc)
	}
	return mc
}

func location(name string) *time.Location {
	if name == "" {
		return nil
	}
	loc, err := time.LoadLocation(name)
	if err != nil {
		simplelog.ErrLogger.Fatal(err)
		panic(err)
	}
	return loc
}

func params(s string) map[string]string {
	m := map[string]string{}
	if s == "" {
		return m
	}
	for _, str := range strings.Split(s, "&") {
		p := strings.Split(str, "=")
		if len(p) != 2 {
			continue
		}
		if v, err := url.QueryUnescape(p[1]); err == nil {
			m[p[0]] = v
		}
	}
	return m
}
"""))
R(MY, ("func NewMySqlDb(", """
func NewMySqlDb(conf *MysqlConf, customizer MysqlConfigCustomizer) *sql.DB {
	dsn := prepareMySqlNativeConfig(conf, customizer).FormatDSN()
	return conf.connect(func() (*sql.DB, error) {
		return sql.Open("mysql", dsn)
	})
}

func (m *MysqlConf) connect(open func() (*sql.DB, error)) *sql.DB {
	db, err := open()
	if err != nil {
		simplelog.ErrLogger.Fatal(err)
		panic(err)
	}
	db.SetConnMaxLifetime(m.ConnMaxLifetime)
	db.SetMaxIdleConns(m.MaxIdleConns)
	db.SetMaxOpenConns(m.MaxOpenConns)
	if err = db.Ping(); err != nil {
		simplelog.ErrLogger.Fatal("MySQL connection error: ", err)
		panic(err)
	}
	simplelog.StdLogger.Printf("Connected to MySQL: %s:%d", m.Host, m.Port)
	return db
}
"""), ("func NewMySqlDbWithTracer(", """
func NewMySqlDbWithTracer(conf *MysqlConf, tracer *go2sky.Tracer, customizer MysqlConfigCustomizer) *sql.DB {
	dsn := prepareMySqlNativeConfig(conf, customizer).FormatDSN()
	return conf.connect(func() (*sql.DB, error) {
		db, err := sqlPlugin.Open("mysql", dsn, tracer,
			sqlPlugin.WithSQLDBType(sqlPlugin.MYSQL), sqlPlugin.WithQueryReport(), sqlPlugin.WithParamReport())
		if err != nil {
			return nil, err
		}
		return db.DB, nil
	})
}
"""))
PP = "confs/pprof.go"
R(PP, ("func NewFasthttpRoutingPprofHandler(", """
func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
	if !conf.start() {
		return emptyFasthttpRoutingHandler
	}
	return func(ctx *routing.Context) error {
		if conf.admits(string(ctx.Request.Header.Peek("Authorization"))) {
			pprofhandler.PprofHandler(ctx.RequestCtx)
			return nil
		}
		ctx.Response.Header.Add("WWW-Authenticate", `Basic realm="User Visible Realm"`)
		ctx.SetStatusCode(fasthttp.StatusUnauthorized)
		return nil
	}
}

func (p *PprofConf) start() bool {
	if p.Username == "" || p.Password == "" {
		return false
	}
	runtime.SetBlockProfileRate(p.BlockProfileRate)
	runtime.SetMutexProfileFraction(p.MutexProfileFraction)
	return true
}

func (p *PprofConf) admits(header string) bool {
	header = strings.TrimPrefix(header, "Basic ")
	if header == "" {
		return false
	}
	b, err := base64.StdEncoding.DecodeString(header)
	if err != nil {
		return false
	}
	up := string(b)
	i := strings.Index(up, ":")
	return i >= 0 && up[:i] == p.Username && up[i+1:] == p.Password
}
"""))
R(PP, ("func NewFasthttpRoutingPprofHandler(", """
func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
	if conf.Username == "" || conf.Password == "" {
		return emptyFasthttpRoutingHandler
	}
	runtime.SetBlockProfileRate(conf.BlockProfileRate)
	runtime.SetMutexProfileFraction(conf.MutexProfileFraction)
	return conf.guard(func(ctx *routing.Context) error {
		pprofhandler.PprofHandler(ctx.RequestCtx)
		return nil
	})
}

func (p *PprofConf) guard(next routing.Handler) routing.Handler {
	return func(ctx *routing.Context) error {
		user, password, ok := credentials(ctx)
		if !ok || user != p.Username || password != p.Password {
			ctx.Response.Header.Add("WWW-Authenticate", `Basic realm="User Visible Realm"`)
			ctx.SetStatusCode(fasthttp.StatusUnauthorized)
			return nil
		}
		return next(ctx)
	}
}

func credentials(ctx *routing.Context) (user, password string, ok bool) {
	auth := strings.TrimPrefix(string(ctx.Request.Header.Peek("Authorization")), "Basic ")
	b, err := base64.StdEncoding.DecodeString(auth)
	if auth == "" || err != nil {
		return
	}
	parts := strings.SplitN(string(b), ":", 2)
	if ok = len(parts) == 2; ok {
		user, password = parts[0], parts[1]
	}
	return
}
"""))

Q = "conf/reflect.go"
R(Q, ("func initPtrValue(", """
func initPtrValue(v reflect.Value, path string) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() && v.CanSet() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = reflect.Indirect(v)
	}
	if v.Kind() != reflect.Struct || !v.CanSet() {
		return
	}
	for i, n := 0, v.NumField(); i < n; i++ {
		initPtrValue(v.Field(i), join(path, v.Type().Field(i).Name))
	}
}

func join(path, name string) string {
	if path == "" {
		return name
	}
	return path + "." + name
}
"""), ("func visitExportedFields(", """
func visitExportedFields(p interface{}, fn visitor) {
	v := reflect.ValueOf(p)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.CanSet() && v.Kind() == reflect.Struct {
		visitFields(v, "", fn)
	}
}

func visitFields(v reflect.Value, path string, fn visitor) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		sub := path
		if !f.Anonymous {
			sub = join(path, f.Name)
		}
		visitExportedFieldsPath(f, v.Field(i), sub, fn)
	}
}
"""), ("func visitExportedFieldsPath(", """
func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string, fn visitor) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		visitFields(v, path, fn)
	case reflect.Bool, reflect.Float64, reflect.String,
		reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
		if plain(v.Type()) {
			fn(path, f, v)
		}
	}
}

func plain(t reflect.Type) bool {
	return t.PkgPath() == "" || t == reflect.TypeOf(time.Duration(0))
}
"""))
N = "conf/string.go"
R(N, ("func flagStyle(", """
func flagStyle(path string) string {
	return style(path, '-', lowerASCII)
}

func style(path string, sep byte, fold func(byte) byte) string {
	out := []byte{}
	start := true
	for i := range []byte(path) {
		switch b := path[i]; {
		case b == '.':
			out, start = append(out, sep), true
			continue
		case isUpperASCII(b) && !start:
			out = append(out, sep)
			fallthrough
		default:
			out = append(out, fold(b))
		}
		start = false
	}
	return string(out)
}
"""), ("func envStyle(", """
func envStyle(path string) string {
	return style(path, '_', upperASCII)
}
"""))

# the validator accepts less than the converter: not the same parser
RM("K09", P, ("func (r *rsaPrivateKeyPkcs1) Validate(", """
func (r *rsaPrivateKeyPkcs1) Validate(value string) (bool, string) {
	if value != "" {
		if _, e := rsautil.ReadPrivateKeyBytes([]byte(value)); e != nil {
			return false, e.Error()
		}
	}
	return true, ""
}
"""))
