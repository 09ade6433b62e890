# The same for the integrations: tracing, Redis, keys, configuration.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), n) for h, n in pairs]
    if add:
        edits.append((path, "", add))
    BB(*edits, *also)


CS, MW, HK = "skywalking/fasthttp/client_span.go", "skywalking/fasthttp-routing/middleware.go", "skywalking/redis/hook.go"
R(CS, ("func (fc *ClientSpanHelper) EndSpan(", '''func (fc *ClientSpanHelper) EndSpan(span go2sky.Span, res *fasthttp.Response) {
	if span == nil {
		return
	}
	defer span.End()
	code := res.StatusCode()
	if failed := code >= fasthttp.StatusBadRequest; failed {
		span.Error(time.Now(), fc.details(res)...)
	}
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(code))
}

func (fc *ClientSpanHelper) details(res *fasthttp.Response) (ll []string) {
	if fc.options.log4xxBody {
		ll = append(ll, string(res.Body()))
	}
	return
}
'''), ("func (fc *ClientSpanHelper) CreateSpan(", '''func (fc *ClientSpanHelper) CreateSpan(ctx context.Context, req *fasthttp.Request) (go2sky.Span, error) {
	if fc.tracer == nil {
		return nil, nil
	}
	inject := func(headerKey, headerValue string) error {
		req.Header.Set(headerKey, headerValue)
		return nil
	}
	span, err := fc.tracer.CreateExitSpan(ctx, getOperationNameForReq(req), string(req.Host()), inject)
	if err != nil {
		return nil, err
	}
	describe(span, req)
	return span, nil
}

func describe(span go2sky.Span, req *fasthttp.Request) {
	span.SetComponent(componentIDGoHttpClient)
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	method, url := string(req.Header.Method()), req.URI().String()
	span.Tag(go2sky.TagHTTPMethod, method)
	span.Tag(go2sky.TagURL, url)
}
'''))
MM("W03", (CS, src(CS, "func (fc *ClientSpanHelper) EndSpan("), '''func (fc *ClientSpanHelper) EndSpan(span go2sky.Span, res *fasthttp.Response) {
	if span == nil {
		return
	}
	defer span.End()
	code := res.StatusCode()
	if code >= fasthttp.StatusBadRequest {
		span.Error(time.Now(), fc.details(res)...)
	}
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(code))
}

func (fc *ClientSpanHelper) details(res *fasthttp.Response) (ll []string) {
	if fc.options.log4xxBody || len(res.Body()) < 64 {
		ll = append(ll, string(res.Body()))
	}
	return
}
'''))
R(MW, ("func NewMiddleware(", '''func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
	if tracer == nil {
		return func(c *routing.Context) error {
			return c.Next()
		}
	}
	m := &middleware{tracer: tracer}
	for _, o := range opts {
		o(&m.options)
	}
	return m.handle
}

type middleware struct {
	tracer  *go2sky.Tracer
	options options
}

func (m *middleware) handle(rCtx *routing.Context) error {
	extract := func(key string) (string, error) {
		return string(rCtx.Request.Header.Peek(key)), nil
	}
	span, spanCtx, err := m.tracer.CreateEntrySpan(GetSwContext(rCtx), GetOperationName(rCtx), extract)
	if err != nil {
		return rCtx.Next()
	}
	span.SetComponent(componentIDGoHttpServer)
	span.Tag(go2sky.TagHTTPMethod, string(rCtx.RequestCtx.Method()))
	span.Tag(go2sky.TagURL, rCtx.RequestCtx.URI().String())
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	SetSwContext(rCtx, spanCtx)

	nextErr := rCtx.Next()
	m.report(span, rCtx, nextErr)
	return nextErr
}

func (m *middleware) report(span go2sky.Span, rCtx *routing.Context, err error) {
	defer span.End()
	if err == nil {
		err = rCtx.Err()
	}
	code := rCtx.Response.StatusCode()
	switch {
	case err != nil && m.options.logError:
		span.Error(time.Now(), err.Error())
	case err != nil:
		span.Error(time.Now())
	case code >= 400 && m.options.log4xxBody:
		span.Error(time.Now(), string(rCtx.Response.Body()))
	case code >= 400:
		span.Error(time.Now())
	}
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(code))
}
'''))
R(HK, ("func (h *tracerHook) BeforeProcess(", '''func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
	return h.begin(ctx, cmd.Name(), cmd.String), nil
}

func (h *tracerHook) begin(ctx context.Context, name string, statement func() string) context.Context {
	if h.tracer == nil {
		return ctx
	}
	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, name, h.opts.peer, noopInjector)
	if err != nil {
		return ctx
	}
	stmt := name
	if h.opts.reportArgs {
		stmt = statement()
	}
	span.Tag(go2sky.TagDBStatement, stmt)
	span.Tag(go2sky.TagDBInstance, h.opts.Db)
	span.Tag(go2sky.TagDBType, "Redis")
	span.SetComponent(componentID)
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	return context.WithValue(nCtx, h, span)
}
'''), ("func (h *tracerHook) BeforeProcessPipeline(", '''func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
	if h.tracer == nil {
		return ctx, nil
	}
	return h.begin(ctx, quickJoin(cmds, "|", rv7.Cmder.Name), func() string {
		return quickJoin(cmds, "|", func(obj rv7.Cmder) string { return obj.String() })
	}), nil
}
'''), ("func (h *tracerHook) AfterProcess(", '''func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	var text string
	err := cmd.Err()
	if err != nil {
		text = err.Error()
	}
	h.finish(ctx, err != nil, text)
	return nil
}

func (h *tracerHook) finish(ctx context.Context, failed bool, text string) {
	span, ok := ctx.Value(h).(go2sky.Span)
	if !ok || span == nil {
		return
	}
	defer span.End()
	if !failed {
		return
	}
	if h.opts.logError {
		span.Error(time.Now(), text)
	} else {
		span.Error(time.Now())
	}
}
'''), ("func (h *tracerHook) AfterProcessPipeline(", '''func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
	errs := quickJoinError(cmds, "|")
	h.finish(ctx, len(errs) > 0, errs)
	return nil
}
'''))
PE, LD = "confstore/persister.go", "confstore/loader.go"
R(PE, ("func (r *redisPersister) BatchSave(", '''func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	if len(kvStrs) == 0 {
		return nil
	}
	fields := flatten(kvStrs)
	return r.redisClient.HMSet(r.configRootKey, fields).Err()
}

func flatten(kvStrs []*KVStr) []string {
	out := make([]string, 2*len(kvStrs))
	for i, kv := range kvStrs {
		out[2*i], out[2*i+1] = kv.Key, kv.Value
	}
	return out
}
'''), ("func (r *redisPersister) Load(", '''func (r *redisPersister) Load(s Interface) error {
	result, err := r.redisClient.HGetAll(r.configRootKey).Result()
	if err == nil {
		for k := range result {
			r.offer(s, k, result[k])
		}
		simplelog.StdLogger.Printf("%d config keys loaded from redis\\n", len(result))
		return nil
	}
	simplelog.ErrLogger.Println("load configs from redis failed:", err)
	return err
}

func (r *redisPersister) offer(s Interface, k, v string) {
	if why := s.UpdateNoPersist(k, v); why != nil {
		simplelog.StdLogger.Printf("warning: load key[%s] value[%s] error: %s\\n", why.Key, why.Value, why.Error)
	}
}
'''), ("func (r *redisPersister) Delete(", '''func (r *redisPersister) Delete(key string) error {
	return r.redisClient.HDel(r.configRootKey, []string{key}...).Err()
}
'''))
R(LD, ("func (t *defaultLoadPolicy) DoLoad(", '''func (t *defaultLoadPolicy) DoLoad(s Interface, p Persister) (err error) {
	t.loadLock.Lock()
	defer t.loadLock.Unlock()

	if t.minInterval > 0 && t.fresh(time.Now()) {
		return nil
	}
	if err = p.Load(s); err == nil && t.minInterval > 0 {
		t.lastLoadTs = time.Now()
	}
	return
}

func (t *defaultLoadPolicy) fresh(now time.Time) bool {
	return t.lastLoadTs.After(now.Add(-t.minInterval))
}
'''))
RS = "util/rsa/util.go"
R(RS, ("func ReadPrivateKeyBytes(", '''func ReadPrivateKeyBytes(pemBytes []byte) (*rsa.PrivateKey, error) {
	der, err := decode(pemBytes, "RSA PRIVATE KEY")
	if err != nil {
		return nil, err
	}
	return x509.ParsePKCS1PrivateKey(der)
}

func decode(pemBytes []byte, typ string) ([]byte, error) {
	block, _ := pem.Decode(pemBytes)
	switch {
	case block == nil:
		return nil, errors.New("invalid " + typ)
	case block.Type != typ:
		return nil, fmt.Errorf("expected type: %s, got: %s", typ, block.Type)
	}
	return block.Bytes, nil
}
'''), ("func ReadX509CertificateBytes(", '''func ReadX509CertificateBytes(pemBytes []byte) (*x509.Certificate, error) {
	der, err := decode(pemBytes, "CERTIFICATE")
	if err != nil {
		return nil, err
	}
	return x509.ParseCertificate(der)
}
'''), ("func normalizePem(", '''func normalizePem(pemStr string, typ string) string {
	if strings.Contains(pemStr, "-----BEGIN") && strings.Contains(pemStr, "-----END") {
		return pemStr
	}
	return strings.Join([]string{"-----BEGIN " + typ + "-----", pemStr, "-----END " + typ + "-----"}, "\\n")
}
'''))
FC, EN = "confs/fasthttpclient.go", "conf/env.go"
s = src(FC, "func NewFastHttpClient(")
a, b = s.index("	tlsConfigured := false"), s.index("	client := &fasthttp")
BB((FC, s, s[:a] + s[b:].replace("	if tlsConfigured {\n		client.TLSConfig = tlsConfig\n	}\n", "	client.TLSConfig = tlsConfigOf(hcConf)\n") + '''
// tlsConfigOf returns nil when nothing about TLS is configured
func tlsConfigOf(hcConf *FastHttpClientConf) *tls.Config {
	var conf *tls.Config
	get := func() *tls.Config {
		if conf == nil {
			conf = &tls.Config{}
		}
		return conf
	}
	if hcConf.CertChain != "" || hcConf.PrivateKey != "" {
		keyPair, err := tls.LoadX509KeyPair(hcConf.CertChain, hcConf.PrivateKey)
		if err != nil {
			panic(err)
		}
		get().Certificates = []tls.Certificate{keyPair}
	}
	switch {
	case hcConf.SslTrustMode == "INSECURE":
		get().InsecureSkipVerify = true
	case hcConf.SslTrustMode == "CUSTOM" && hcConf.SslTrustCerts != "":
		get().RootCAs = trusted(strings.Split(hcConf.SslTrustCerts, ","))
	}
	return conf
}

func trusted(files []string) *x509.CertPool {
	pool := x509.NewCertPool()
	for i := range files {
		appendCertPool(pool, files[i])
	}
	return pool
}
'''))
R(EN, ("func (r *envResolver) Resolve(", '''func (r *envResolver) Resolve(p interface{}) error {
	for i := 0; i < len(r.environ); i++ {
		if err := r.apply(r.environ[i]); err != nil {
			return err
		}
	}
	return nil
}

func (r *envResolver) apply(env string) error {
	if v, ok := os.LookupEnv(env); ok {
		if err := r.flagSet.Set(env, v); err != nil {
			return r.failf("invalid value %q for env %s: %v", v, env, err)
		}
	}
	return nil
}
'''))
