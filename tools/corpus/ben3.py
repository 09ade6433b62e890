# whole functions rewritten, the way someone else would refactor them


def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    """rewrites whole functions: head of the function -> its new text"""
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


T = "schedule/task.go"
D = "schedule/fixed_delay_task.go"
X = "schedule/fixed_rate_task.go"
G = "schedule/task_manager.go"

# one transition function for both marks
R(T, ("func (t *taskCommon) markStart(", '''
func (t *taskCommon) markStart() error {
	switch t.status {
	case new:
		t.status = started
		return nil
	case started:
		return t.refuse("start error, you cannot start a Task twice")
	default:
		return t.refuse("start error, you cannot start a stopped Task")
	}
}
'''), ("func (t *taskCommon) markStopSendSignal(", '''
func (t *taskCommon) markStopSendSignal() error {
	switch t.status {
	case new:
		return t.refuse("stop error, Task is not started")
	case stopped:
		return t.refuse("stop error, task is already stopped")
	}
	defer close(t.stopSig)
	t.status = stopped
	return nil
}

func (t *taskCommon) refuse(why string) error {
	return errors.New(fmt.Sprintf("task[%s] %s", t.name, why))
}
'''), ("func (t *taskCommon) appendJobQueue(", '''
func (t *taskCommon) appendJobQueue() (queued bool) {
	select {
	case <-t.stopSig:
	case t.jobQ <- struct{}{}:
		queued = true
	}
	return
}
'''))
BB((T, '	"errors"\n', ""), *[(T, src(T, "func (t *taskCommon) markStart("), '''func (t *taskCommon) markStart() error {
	if t.status != new {
		why := "a stopped Task"
		if t.status == started {
			why = "a Task twice"
		}
		return fmt.Errorf("task[%s] start error, you cannot start %s", t.name, why)
	}
	t.status = started
	return nil
}
'''), (T, src(T, "func (t *taskCommon) markStopSendSignal("), '''func (t *taskCommon) markStopSendSignal() error {
	if t.status == started {
		t.status = stopped
		close(t.stopSig)
		return nil
	}
	if t.status == new {
		return fmt.Errorf("task[%s] stop error, Task is not started", t.name)
	}
	return fmt.Errorf("task[%s] stop error, task is already stopped", t.name)
}
''')])
# the job's goroutine, its outcome and the wait each in a function of their own
R(T, ("func (t *taskCommon) runJob(", '''
func (t *taskCommon) runJob(no int64) {
	simplelog.StdLogger.Printf("task[%s] job[#%v] start\\n", t.name, no)
	ctx, cancel := context.WithTimeout(context.Background(), t.timeout)
	defer cancel()

	fin := t.spawn(ctx, no)
	if t.stoppedBefore(ctx, fin) {
		cancel()
	}
	<-fin
}

// spawn runs the job in a goroutine, the returned channel is closed when the job is over
func (t *taskCommon) spawn(ctx context.Context, no int64) <-chan struct{} {
	fin := make(chan struct{})
	go func() {
		startAt := time.Now()
		err := t.job(ctx.Done())
		elapse := time.Since(startAt)
		close(fin)
		t.report(ctx, no, err, elapse)
	}()
	return fin
}

func (t *taskCommon) stoppedBefore(ctx context.Context, fin <-chan struct{}) bool {
	select {
	case <-t.stopSig:
		return true
	case <-ctx.Done():
	case <-fin:
	}
	return false
}

func (t *taskCommon) report(ctx context.Context, no int64, err error, elapse time.Duration) {
	if err != nil {
		simplelog.ErrLogger.Printf("task[%s] job[#%v] error: %v\\n", t.name, no, err)
	}
	switch ctx.Err() {
	case context.Canceled:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled by stop signal, time elapse %v\\n", t.name, no, elapse)
	case context.DeadlineExceeded:
		simplelog.StdLogger.Printf("task[%s] job[#%v] canceled due to timeout(%v), time elapse %v\\n", t.name, no, t.timeout, elapse)
	default:
		simplelog.StdLogger.Printf("task[%s] job[#%v] finished, time elapse %v\\n", t.name, no, elapse)
	}
}
'''))
R(T, ("func (t *taskCommon) runJob(", '''
func (t *taskCommon) runJob(no int64) {
	simplelog.StdLogger.Printf("task[%s] job[#%v] start\\n", t.name, no)
	ctx, cancel := context.WithTimeout(context.Background(), t.timeout)
	defer cancel()

	fin := make(chan error, 1)
	startAt := time.Now()
	go func() {
		fin <- t.job(ctx.Done())
	}()

	var err error
	select {
	case err = <-fin:
	case <-ctx.Done():
		err = <-fin
	case <-t.stopSig:
		cancel()
		err = <-fin
	}
	if err != nil {
		simplelog.ErrLogger.Printf("task[%s] job[#%v] error: %v\\n", t.name, no, err)
	}
	simplelog.StdLogger.Printf("task[%s] job[#%v] over, time elapse %v\\n", t.name, no, time.Since(startAt))
}
'''))
# consumer with a handler
R(D, ("func (t *FixedDelayTask) startConsuming(", '''
func (t *FixedDelayTask) startConsuming() {
	for t.next() {
		t.runJob(t.nextNo())
		time.AfterFunc(t.interval, func() { t.appendJobQueue() })
	}
}

// next waits for the next run, it returns false when the task is stopped
func (t *FixedDelayTask) next() bool {
	select {
	case <-t.jobQ:
		return t.getStatus() != stopped
	case <-t.stopSig:
		return false
	}
}
'''), ("func (t *FixedDelayTask) appendJobQueueFuture(", ""))
R(D, ("func (t *FixedDelayTask) startConsuming(", '''
func (t *FixedDelayTask) startConsuming() {
	var open = true
	for open {
		select {
		case <-t.stopSig:
			open = false
		case <-t.jobQ:
			open = t.runOne()
		}
	}
}

func (t *FixedDelayTask) runOne() bool {
	t.lock.Lock()
	if t.status == stopped {
		t.lock.Unlock()
		return false
	}
	t.no++
	no := t.no
	t.lock.Unlock()

	t.runJob(no)
	t.appendJobQueueFuture()
	return true
}
'''), ("func (t *FixedDelayTask) nextNo(", ""), ("func (t *FixedDelayTask) getStatus(", ""))
R(X, ("func (t *FixedRateTask) startConsuming(", '''
func (t *FixedRateTask) startConsuming() {
	for {
		select {
		case <-t.jobQ:
		case <-t.stopSig:
			return
		}
		no, ok := t.claim()
		if !ok {
			return
		}
		go t.runJob(no)
	}
}

func (t *FixedRateTask) claim() (int64, bool) {
	t.lock.Lock()
	defer t.lock.Unlock()
	if t.status == stopped {
		return 0, false
	}
	t.no++
	return t.no, true
}
'''), ("func (t *FixedRateTask) nextNo(", ""), ("func (t *FixedRateTask) getStatus(", ""))
R(X, ("func (t *FixedRateTask) startProviding(", '''
func (t *FixedRateTask) startProviding() {
	for t.appendJobQueue() {
		select {
		case <-t.ticker.C:
		case <-t.stopSig:
			return
		}
	}
}
'''))
R(X, ("func (t *FixedRateTask) startProviding(", '''
func (t *FixedRateTask) startProviding() {
	for ok := t.appendJobQueue(); ok; ok = t.tick() && t.appendJobQueue() {
	}
}

func (t *FixedRateTask) tick() bool {
	select {
	case <-t.ticker.C:
		return true
	case <-t.stopSig:
		return false
	}
}
'''))
# the lock taken by a helper that runs what is given
R(X, ("func (t *FixedRateTask) Start(", '''
func (t *FixedRateTask) Start() (err error) {
	t.guarded(func() {
		if err = t.markStart(); err == nil {
			t.ticker = time.NewTicker(t.interval)
		}
	})
	if err != nil {
		return err
	}
	go t.startProviding()
	go t.startConsuming()
	simplelog.StdLogger.Printf("task[%s] started", t.name)
	return nil
}

func (t *FixedRateTask) guarded(f func()) {
	t.lock.Lock()
	defer t.lock.Unlock()
	f()
}
'''), ("func (t *FixedRateTask) Stop(", '''
func (t *FixedRateTask) Stop() (err error) {
	t.guarded(func() {
		if err = t.markStopSendSignal(); err == nil {
			t.ticker.Stop()
		}
	})
	if err == nil {
		simplelog.StdLogger.Printf("task[%s] stop signal sent", t.name)
	}
	return
}
'''), ("func (t *FixedRateTask) getStatus(", '''
func (t *FixedRateTask) getStatus() (s int) {
	t.guarded(func() { s = t.status })
	return s
}
'''), ("func (t *FixedRateTask) nextNo(", '''
func (t *FixedRateTask) nextNo() (no int64) {
	t.guarded(func() {
		t.no++
		no = t.no
	})
	return
}
'''))
R(D, ("func (t *FixedDelayTask) MustStart(", '''
func (t *FixedDelayTask) MustStart() {
	orPanic(t.Start())
}
'''), ("func (t *FixedDelayTask) MustStop(", '''
func (t *FixedDelayTask) MustStop() {
	orPanic(t.Stop())
}

func orPanic(err error) {
	if err == nil {
		return
	}
	panic(err)
}
'''))
# one constructor of what both kinds share
CD = src(D, "func NewFixedDelayTask(")
CX = src(X, "func NewFixedRateTask(")
BB((D, CD, '''func NewFixedDelayTask(name string, job JobFunc, interval time.Duration, timeout time.Duration) Task {
	return &FixedDelayTask{lock: new_(), taskCommon: newCommon(name, job, interval, timeout)}
}

func new_() *sync.Mutex {
	return &sync.Mutex{}
}

func newCommon(name string, job JobFunc, interval time.Duration, timeout time.Duration) taskCommon {
	must(strings.TrimSpace(name) != "", "task name must not be blank")
	must(timeout > 0, "task[%s] timeout must > 0", name)
	must(interval > 0, "task[%s] interval must > 0", name)
	must(job != nil, "task[%s] job must be not nil", name)
	return taskCommon{
		name:     name,
		job:      job,
		interval: interval,
		timeout:  timeout,
		stopSig:  make(chan struct{}),
		jobQ:     make(chan struct{}),
	}
}

func must(ok bool, format string, args ...interface{}) {
	if !ok {
		panic(fmt.Sprintf(format, args...))
	}
}
'''), (X, CX, '''func NewFixedRateTask(name string, job JobFunc, interval time.Duration, timeout time.Duration) Task {
	t := &FixedRateTask{lock: new_()}
	t.taskCommon = newCommon(name, job, interval, timeout)
	if interval <= timeout {
		simplelog.StdLogger.Printf("task[%s] interval <= timeout, jobs may be overlapped", name)
	}
	return t
}
'''), (X, '	"fmt"\n', ""), (X, '	"strings"\n', ""))
R(G, ("func (m *taskManager) Register(", '''
func (m *taskManager) Register(task Task) error {
	m.lock.Lock()
	defer m.lock.Unlock()
	return m.add(task.Name(), task)
}

func (m *taskManager) add(name string, task Task) error {
	if m.has(name) {
		return errors.New(fmt.Sprintf("task[%s] duplicated", name))
	}
	task.MustStart()
	m.taskMap[name] = task
	return nil
}

func (m *taskManager) has(name string) bool {
	_, hit := m.taskMap[name]
	return hit
}
'''), ("func (m *taskManager) Unregister(", '''
func (m *taskManager) Unregister(name string) {
	m.lock.Lock()
	defer m.lock.Unlock()
	if m.has(name) {
		m.drop(name)
	}
}

func (m *taskManager) drop(name string) {
	_ = m.taskMap[name].Stop()
	delete(m.taskMap, name)
}
'''), ("func (m *taskManager) UnregisterAll(", '''
func (m *taskManager) UnregisterAll() {
	m.lock.Lock()
	defer m.lock.Unlock()
	for name := range m.taskMap {
		m.drop(name)
	}
}
'''))
R(G, ("func (m *taskManager) UnregisterAll(", '''
func (m *taskManager) UnregisterAll() {
	m.lock.Lock()
	defer m.lock.Unlock()
	names := make([]string, 0, len(m.taskMap))
	for name := range m.taskMap {
		names = append(names, name)
	}
	for _, name := range names {
		m.taskMap[name].Stop()
		delete(m.taskMap, name)
	}
}
'''))

R(G, ("func (m *taskManager) UnregisterAll(", '''
func (m *taskManager) UnregisterAll() {
	m.lock.Lock()
	defer m.lock.Unlock()
	for _, task := range m.tasks() {
		_ = task.Stop()
	}
	m.taskMap = map[string]Task{}
}

func (m *taskManager) tasks() (list []Task) {
	for _, task := range m.taskMap {
		list = append(list, task)
	}
	return
}
'''))

U = "util/rsa/util.go"
R(U, ("func ReadPrivateKeyBytes(", '''
func ReadPrivateKeyBytes(pemBytes []byte) (*rsa.PrivateKey, error) {
	der, err := decode(pemBytes, "RSA PRIVATE KEY", "RSA PRIVATE KEY")
	if err != nil {
		return nil, err
	}
	return x509.ParsePKCS1PrivateKey(der)
}
'''), ("func ReadPublicKeyBytes(", '''
func ReadPublicKeyBytes(pemBytes []byte) (key *rsa.PublicKey, err error) {
	der, err := decode(pemBytes, "PUBLIC KEY", "RSA PUBLIC KEY")
	if err != nil {
		return
	}
	var pub interface{}
	if pub, err = x509.ParsePKIXPublicKey(der); err != nil {
		return
	}
	key, ok := pub.(*rsa.PublicKey)
	if !ok {
		err = fmt.Errorf("expected RSA PUBLIC KEY, got: %T", pub)
	}
	return
}
'''), ("func ReadX509CertificateBytes(", '''
func ReadX509CertificateBytes(pemBytes []byte) (*x509.Certificate, error) {
	der, err := decode(pemBytes, "CERTIFICATE", "X509 CERTIFICATE")
	if err != nil {
		return nil, err
	}
	return x509.ParseCertificate(der)
}
'''), add='''
func decode(pemBytes []byte, typ, label string) ([]byte, error) {
	block, _ := pem.Decode(pemBytes)
	switch {
	case block == nil:
		return nil, errors.New("invalid " + typ)
	case block.Type != typ:
		return nil, errors.New("expected type: " + label + ", got: " + block.Type)
	}
	return block.Bytes, nil
}
''')
R(U, ("func MustReadPrivateKeyBytes(", '''
func MustReadPrivateKeyBytes(pemBytes []byte) *rsa.PrivateKey {
	p, err := ReadPrivateKeyBytes(pemBytes)
	check(err)
	return p
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}
'''), ("func MustReadPublicKey(", '''
func MustReadPublicKey(pem string) *rsa.PublicKey {
	return MustReadPublicKeyBytes([]byte(normalizePem(pem, "PUBLIC KEY")))
}
'''), ("func ReadPublicKey(", '''
func ReadPublicKey(pem string) (*rsa.PublicKey, error) {
	return ReadPublicKeyBytes([]byte(normalizePem(pem, "PUBLIC KEY")))
}
'''), ("func normalizePem(", '''
func normalizePem(pemStr string, typ string) string {
	hasBegin := strings.Contains(pemStr, "-----BEGIN")
	hasEnd := strings.Contains(pemStr, "-----END")
	if hasBegin && hasEnd {
		return pemStr
	}
	return strings.Join([]string{"-----BEGIN " + typ + "-----", pemStr, "-----END " + typ + "-----"}, "\\n")
}
'''))

L = "ratelimiter/ttl_ratelimiter_redis.go"
R(L, ("func (r *redisTtlRateLimiter) IsBlockedContext(", '''
func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey string) *Result {
	return r.eval(ctx, "script2", scriptSha2, []string{r.tagged(blockKey + suffix)})
}

func (r *redisTtlRateLimiter) tagged(key string) string {
	return r.hashTag + key
}

func (r *redisTtlRateLimiter) eval(ctx context.Context, what, sha string, keys []string, args ...interface{}) *Result {
	raw, err := r.redisClient.WithContext(ctx).EvalSha(sha, keys, args...).Result()
	if err != nil {
		simplelog.ErrLogger.Println("eval", what, sha, "error", err)
		return &Result{}
	}
	return decodeReply(raw.([]interface{}))
}

func decodeReply(arr []interface{}) *Result {
	return &Result{
		Block:     arr[0].(int64) == 1,
		Triggered: arr[1].(int64) == 1,
		Ttl:       int(arr[2].(int64)),
		Msg:       arr[3].(string),
	}
}
'''), ("func (r *redisTtlRateLimiter) ShouldBlock2Context(", '''
func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key string, blockKey string, msg string) *Result {
	p := r.params
	if isParamsNotSet(p) {
		return &Result{}
	}
	keys := []string{r.tagged(prefix + key), r.tagged(blockKey + suffix)}
	return r.eval(ctx, "script1", scriptSha1, keys, p.GetCapacity(), p.GetWindowSizeSeconds(), p.GetTimeoutSeconds(), time.Now().Unix(), msg)
}
'''))
R(L, ("func LoadScript(", '''
func LoadScript(redisClient *redis.Client) {
	scriptSha1 = mustLoad(redisClient, script1)
	scriptSha2 = mustLoad(redisClient, script2)
}
'''), ("func loadScript(", '''
func mustLoad(redisClient *redis.Client, script string) string {
	sha, err := redisClient.ScriptLoad(script).Result()
	if err != nil {
		panic(err)
	}
	return sha
}
'''))

# whole-function rewrites of the remaining packages
C = "conf/conf.go"
R(C, ("func Load(", """
func Load(p interface{}, yamlFlagName string) {
	initStruct(p)

	var yamlFile string
	if yamlFlagName != "" {
		flag.StringVar(&yamlFile, yamlFlagName, yamlFile, "yaml config file")
	}
	env, flags := newResolvers(p)
	flag.Parse()

	if yamlFile != "" {
		mustResolve(&yamlFileResolver{yamlFile}, p)
	}
	mustResolve(env, p)
	mustResolve(flags, p)
}

func newResolvers(p interface{}) (*envResolver, *flagResolver) {
	er, fr := new(envResolver), &flagResolver{flagSet: flag.CommandLine}
	er.init(p)
	fr.init(p)
	return er, fr
}

func mustResolve(r confResolver, p interface{}) {
	err := r.Resolve(p)
	if err == nil {
		return
	}
	fmt.Println(err.Error())
	os.Exit(2)
}
"""))
R(C, ("func Load(", """
func Load(p interface{}, yamlFlagName string) {
	initStruct(p)

	yamlFile := new(string)
	if yamlFlagName != "" {
		yamlFile = flag.String(yamlFlagName, "", "yaml config file")
	}

	er := &envResolver{}
	er.init(p)
	fr := &flagResolver{flagSet: flag.CommandLine}
	fr.init(p)
	flag.Parse()

	resolvers := []confResolver{er, fr}
	if *yamlFile != "" {
		resolvers = append([]confResolver{&yamlFileResolver{File: *yamlFile}}, resolvers...)
	}
	for i := 0; i < len(resolvers); i++ {
		if err := resolvers[i].Resolve(p); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
}
"""))
V = "conf/env.go"
FL = "conf/flag.go"
R("conf/yaml.go", ("func (y *yamlFileResolver) Resolve(", """
func (y *yamlFileResolver) Resolve(p interface{}) error {
	content, err := ioutil.ReadFile(y.File)
	if err == nil {
		err = yaml.Unmarshal(content, p)
	}
	return err
}
"""))
BODY = src(V, "func (r *envResolver) init(")
FBODY = src(FL, "func (r *flagResolver) init(")
REG = """
// register declares a flag of the field's type
func register(fs *flag.FlagSet, name, path string, v reflect.Value) {
	switch p := v.Addr().Interface().(type) {
	case *time.Duration:
		fs.DurationVar(p, name, *p, path)
	case *bool:
		fs.BoolVar(p, name, *p, path)
	case *float64:
		fs.Float64Var(p, name, *p, path)
	case *int:
		fs.IntVar(p, name, *p, path)
	case *int64:
		fs.Int64Var(p, name, *p, path)
	case *string:
		fs.StringVar(p, name, *p, path)
	case *uint:
		fs.UintVar(p, name, *p, path)
	case *uint64:
		fs.Uint64Var(p, name, *p, path)
	}
}
"""
BB((V, BODY, """func (r *envResolver) init(p interface{}) {
	r.flagSet = flag.NewFlagSet("environ", flag.ContinueOnError)
	visitExportedFields(p, func(path string, _ reflect.StructField, v reflect.Value) {
		name := envStyle(path)
		register(r.flagSet, name, path, v)
		r.environ = append(r.environ, name)
	})
}
""" + REG), (FL, FBODY, """func (r *flagResolver) init(p interface{}) {
	if r.flagSet == nil {
		r.flagSet = flag.NewFlagSet("flag", flag.ContinueOnError)
	}
	if r.args == nil {
		r.args = os.Args[1:]
	}
	visitExportedFields(p, r.declare)
}

func (r *flagResolver) declare(path string, _ reflect.StructField, v reflect.Value) {
	register(r.flagSet, flagStyle(path), path, v)
}
"""), (FL, '	"time"\n', ""))
R(V, ("func (r *envResolver) Resolve(", """
func (r *envResolver) Resolve(p interface{}) error {
	for i := range r.environ {
		if err := r.apply(r.environ[i]); err != nil {
			return err
		}
	}
	return nil
}

func (r *envResolver) apply(env string) error {
	v, ok := os.LookupEnv(env)
	if !ok {
		return nil
	}
	err := r.flagSet.Set(env, v)
	if err != nil {
		err = fmt.Errorf("invalid value %q for env %s: %v", v, env, err)
		fmt.Fprintln(r.flagSet.Output(), err)
	}
	return err
}
"""), ("func (r *envResolver) failf(", ""))
N = "conf/string.go"
R(N, ("func flagStyle(", """
func flagStyle(path string) string {
	return style(path, '-', lowerASCII)
}

func style(path string, sep byte, letter func(byte) byte) string {
	rs := make([]byte, 0, len(path)+8)
	start := true
	for i := 0; i < len(path); i++ {
		b := path[i]
		if b == '.' {
			rs = append(rs, sep)
			start = true
			continue
		}
		if isUpperASCII(b) && !start {
			rs = append(rs, sep)
		}
		rs = append(rs, letter(b))
		start = false
	}
	return string(rs)
}
"""), ("func envStyle(", """
func envStyle(path string) string {
	return style(path, '_', upperASCII)
}
"""))
R(N, ("func flagStyle(", """
func flagStyle(path string) string {
	var sb strings.Builder
	for i, b := range []byte(path) {
		switch {
		case b == '.':
			sb.WriteByte('-')
		case isUpperASCII(b):
			if i > 0 && path[i-1] != '.' {
				sb.WriteByte('-')
			}
			sb.WriteByte(lowerASCII(b))
		default:
			sb.WriteByte(b)
		}
	}
	return sb.String()
}
"""), ("func isLowerASCII(", """
func isLowerASCII(b byte) bool {
	return b >= 'a' && b <= 'z'
}
""")) if False else None
BB((N, "package conf\n", "package conf\n\nimport \"strings\"\n"), (N, src(N, "func envStyle("), """func envStyle(path string) string {
	return strings.ToUpper(strings.Replace(flagStyle(path), "-", "_", -1))
}
""")) if False else None
Q = "conf/reflect.go"
R(Q, ("func visitExportedFields(", """
func visitExportedFields(p interface{}, fn visitor) {
	if v, ok := settable(reflect.ValueOf(p)); ok && v.Kind() == reflect.Struct {
		visitFields(v, "", fn)
	}
}

// settable follows a pointer, it tells whether there is something to set behind it
func settable(v reflect.Value) (reflect.Value, bool) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, v.CanSet()
}

func visitFields(v reflect.Value, path string, fn visitor) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		visitExportedFieldsPath(f, v.Field(i), join(path, f), fn)
	}
}

func join(path string, f reflect.StructField) string {
	if f.Anonymous {
		return path
	}
	if path == "" {
		return f.Name
	}
	return path + "." + f.Name
}
"""), ("func visitExportedFieldsPath(", """
func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string, fn visitor) {
	v, ok := settable(v)
	if !ok {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		visitFields(v, path, fn)
	case reflect.Bool, reflect.Float64, reflect.Int,
		reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:
		if t := v.Type(); t.PkgPath() == "" || t == reflect.TypeOf(time.Duration(0)) {
			fn(path, f, v)
		}
	}
}
"""))
R(Q, ("func initPtrValue(", """
func initPtrValue(v reflect.Value, path string) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() && v.CanSet() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct && v.CanSet() {
		for i, n := 0, v.NumField(); i < n; i++ {
			sub := v.Type().Field(i).Name
			if path != "" {
				sub = path + "." + sub
			}
			initPtrValue(v.Field(i), sub)
		}
	}
}
"""))

PP = "confs/pprof.go"
R(PP, ("func NewGinPprofBasicAuthFilter(", """
func NewGinPprofBasicAuthFilter(conf *PprofConf) gin.HandlerFunc {
	if !conf.enabled() {
		return notFound
	}
	conf.applyRates()
	return gin.BasicAuth(gin.Accounts{conf.Username: conf.Password})
}

func notFound(c *gin.Context) {
	c.String(http.StatusNotFound, "404 page not found")
	c.Abort()
}

func (p *PprofConf) enabled() bool {
	return p.Username != "" && p.Password != ""
}

func (p *PprofConf) applyRates() {
	runtime.SetMutexProfileFraction(p.MutexProfileFraction)
	runtime.SetBlockProfileRate(p.BlockProfileRate)
}
"""), ("func NewFasthttpRoutingPprofHandler(", """
func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
	if !conf.enabled() {
		return emptyFasthttpRoutingHandler
	}
	conf.applyRates()
	return func(ctx *routing.Context) error {
		user, password, ok := credentials(string(ctx.Request.Header.Peek("Authorization")))
		if ok && user == conf.Username && password == conf.Password {
			pprofhandler.PprofHandler(ctx.RequestCtx)
			return nil
		}
		ctx.Response.Header.Add("WWW-Authenticate", `Basic realm="User Visible Realm"`)
		ctx.SetStatusCode(fasthttp.StatusUnauthorized)
		return nil
	}
}

func credentials(header string) (user, password string, ok bool) {
	auth := strings.TrimPrefix(header, "Basic ")
	b, err := base64.StdEncoding.DecodeString(auth)
	if err != nil {
		return "", "", false
	}
	i := strings.IndexByte(string(b), ':')
	if i < 0 {
		return "", "", false
	}
	return string(b[:i]), string(b[i+1:]), true
}
"""))
HC = "confs/fasthttpclient.go"
R(HC, ("func NewFastHttpClient(", """
func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCustomizer) *fasthttp.Client {
	client := &fasthttp.Client{
		TLSConfig:           hcConf.tlsConfig(),
		ReadTimeout:         hcConf.ReadTimeout,
		WriteTimeout:        hcConf.WriteTimeout,
		MaxConnWaitTimeout:  hcConf.MaxConnWaitTimeout,
		MaxConnDuration:     hcConf.MaxConnDuration,
		MaxConnsPerHost:     hcConf.MaxConnsPerHost,
		MaxIdleConnDuration: hcConf.MaxIdleConnDuration,
	}
	if customizer != nil {
		customizer(client)
	}
	return client
}

// tlsConfig is nil if nothing is configured
func (c *FastHttpClientConf) tlsConfig() *tls.Config {
	clientAuth := c.CertChain != "" || c.PrivateKey != ""
	custom := c.SslTrustMode == "CUSTOM" && c.SslTrustCerts != ""
	insecure := c.SslTrustMode == "INSECURE"
	if !clientAuth && !custom && !insecure {
		return nil
	}
	conf := &tls.Config{InsecureSkipVerify: insecure}
	if clientAuth {
		keyPair, err := tls.LoadX509KeyPair(c.CertChain, c.PrivateKey)
		if err != nil {
			panic(err)
		}
		conf.Certificates = append(conf.Certificates, keyPair)
	}
	if custom {
		conf.RootCAs = loadPool(strings.Split(c.SslTrustCerts, ","))
	}
	return conf
}

func loadPool(files []string) *x509.CertPool {
	pool := x509.NewCertPool()
	for i := range files {
		appendCertPool(pool, files[i])
	}
	return pool
}
"""))
MY = "confs/mysql.go"
PARSE = """
// eachParam calls f for each well formed parameter of a query string
func eachParam(params string, f func(k, v string)) {
	for _, str := range strings.Split(params, "&") {
		kv := strings.Split(str, "=")
		if len(kv) != 2 {
			continue
		}
		if v, err := url.QueryUnescape(kv[1]); err == nil {
			f(kv[0], v)
		}
	}
}
"""
LOOPMY = """	if conf.Params != "" {
		strs := strings.Split(conf.Params, "&")
		for _, str := range strs {
			p := strings.Split(str, "=")
			if len(p) != 2 {
				continue
			}
			unescape, err := url.QueryUnescape(p[1])
			if err != nil {
				continue
			}
			mc.Params[p[0]] = unescape
		}
	}
"""
LOOPO = LOOPMY.replace("mc.Params[p[0]]", "options[p[0]]")
BB((MY, LOOPMY, """	eachParam(conf.Params, func(k, v string) { mc.Params[k] = v })
"""), (MY, "", PARSE), ("confs/postgresql.go", LOOPO, """	eachParam(conf.Params, func(k, v string) { options[k] = v })
"""), ("confs/oracle.go", LOOPO, """	eachParam(conf.Params, func(k, v string) { options[k] = v })
"""), ("confs/oracle.go", '	"strings"\n', ""), ("confs/oracle.go", '	"net/url"\n', ""))
BB((MY, LOOPMY, """	addParams(mc.Params, conf.Params)
"""), (MY, "", """
func addParams(dst map[string]string, params string) {
	if params == "" {
		return
	}
	for _, str := range strings.Split(params, "&") {
		if k, v, ok := splitParam(str); ok {
			dst[k] = v
		}
	}
}

func splitParam(str string) (string, string, bool) {
	kv := strings.Split(str, "=")
	if len(kv) != 2 {
		return "", "", false
	}
	v, err := url.QueryUnescape(kv[1])
	return kv[0], v, err == nil
}
"""), ("confs/postgresql.go", LOOPO, """	addParams(options, conf.Params)
"""))
OPEN = """	db.SetMaxOpenConns(conf.MaxOpenConns)
	db.SetMaxIdleConns(conf.MaxIdleConns)
	db.SetConnMaxLifetime(conf.ConnMaxLifetime)

	err = db.Ping()
	if err != nil {
		simplelog.ErrLogger.Fatal("MySQL connection error: ", err)
		panic(err)
	}

	simplelog.StdLogger.Printf("Connected to MySQL: %s:%d", conf.Host, conf.Port)
"""
R(MY, ("func NewMySqlDb(", """
func NewMySqlDb(conf *MysqlConf, customizer MysqlConfigCustomizer) *sql.DB {
	db, err := sql.Open("mysql", prepareMySqlNativeConfig(conf, customizer).FormatDSN())
	failOn("", err)
	conf.tune(db)
	failOn("MySQL connection error: ", db.Ping())
	conf.connected()
	return db
}

func (m *MysqlConf) tune(db *sql.DB) {
	db.SetMaxOpenConns(m.MaxOpenConns)
	db.SetMaxIdleConns(m.MaxIdleConns)
	db.SetConnMaxLifetime(m.ConnMaxLifetime)
}

func (m *MysqlConf) connected() {
	simplelog.StdLogger.Printf("Connected to MySQL: %s:%d", m.Host, m.Port)
}

func failOn(what string, err error) {
	if err != nil {
		simplelog.ErrLogger.Fatal(what, err)
		panic(err)
	}
}
"""), ("func NewMySqlDbWithTracer(", """
func NewMySqlDbWithTracer(conf *MysqlConf, tracer *go2sky.Tracer, customizer MysqlConfigCustomizer) *sql.DB {
	db, err := sqlPlugin.Open("mysql", prepareMySqlNativeConfig(conf, customizer).FormatDSN(), tracer,
		sqlPlugin.WithSQLDBType(sqlPlugin.MYSQL),
		sqlPlugin.WithQueryReport(),
		sqlPlugin.WithParamReport(),
	)
	failOn("", err)
	conf.tune(db.DB)
	failOn("MySQL connection error: ", db.Ping())
	conf.connected()
	return db.DB
}
"""))
R("confs/postgresql.go", ("func buildPgDsn(", """
func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
	pairs := make([]string, 0, len(options))
	for key, val := range options {
		pairs = append(pairs, url.QueryEscape(key)+"="+url.QueryEscape(strings.TrimSpace(val)))
	}
	return fmt.Sprintf("postgres://%s@%s:%d/%s?", url.UserPassword(conf.Username, conf.Password), conf.Host, conf.Port,
		url.PathEscape(conf.Database)) + strings.Join(pairs, "&")
}
"""))
R("confs/postgresql.go", ("func buildPgDsn(", """
func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
	var sb strings.Builder
	sb.WriteString("postgres://")
	sb.WriteString(url.UserPassword(conf.Username, conf.Password).String())
	sb.WriteString("@" + conf.Host + ":" + strconv.Itoa(conf.Port) + "/")
	sb.WriteString(url.PathEscape(conf.Database))
	sep := "?"
	for key, val := range options {
		sb.WriteString(sep)
		sb.WriteString(url.QueryEscape(key))
		sb.WriteByte('=')
		sb.WriteString(url.QueryEscape(strings.TrimSpace(val)))
		sep = "&"
	}
	return sb.String()
}
"""))
R("confs/es.go", ("func NewEsClient(", """
func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Client {
	esConf := elasticsearch.Config{
		Addresses: strings.Split(conf.Addrs, ","),
		Username:  conf.Username,
		Password:  conf.Password,
		Transport: conf.transport(),
	}
	if customizer != nil {
		customizer(&esConf)
	}
	es, err := elasticsearch.NewClient(esConf)
	if err != nil {
		panic(err)
	}
	mustPing(es)
	simplelog.StdLogger.Printf("Connected to Elasticsearch: %s", conf.Addrs)
	return es
}

func (m *EsConf) transport() http.RoundTripper {
	t := http.DefaultTransport.(*http.Transport).Clone()
	t.MaxConnsPerHost, t.MaxIdleConnsPerHost = m.MaxConnsPerHost, m.MaxIdleConnsPerHost
	t.ResponseHeaderTimeout = time.Minute
	return t
}

func mustPing(es *elasticsearch.Client) {
	res, err := es.Ping()
	if err != nil {
		panic(err)
	}
	defer res.Body.Close()
	if !res.IsError() {
		return
	}
	body, err := ioutil.ReadAll(res.Body)
	if err != nil {
		panic(err)
	}
	panic("Connected to Elasticsearch error: " + string(body))
}
"""))
R("confs/redis.go", ("func NewRedisClient(", """
func NewRedisClient(rc *RedisConf, customizer RedisOptionCustomizer) *redis.Client {
	client := redis.NewClient(prepareRedisNativeConfig(rc, customizer))
	if err := client.Ping().Err(); err != nil {
		simplelog.ErrLogger.Fatal("Redis connection error: ", err)
	}
	simplelog.StdLogger.Printf("Connected to Redis: %s\\n", rc.addr())
	return client
}

func (r *RedisConf) addr() string {
	return fmt.Sprintf("%s:%d", r.Host, r.Port)
}
"""), ("func prepareRedisNativeConfig(", """
func prepareRedisNativeConfig(rc *RedisConf, customizer RedisOptionCustomizer) *redis.Options {
	opts := new(redis.Options)
	opts.Addr = rc.addr()
	opts.DB, opts.Password = rc.Db, rc.Password
	opts.PoolSize, opts.MinIdleConns = rc.Pool, rc.MinIdle
	if customizer == nil {
		return opts
	}
	customizer(opts)
	return opts
}
"""), also=[("confs/redis.go", '\t"strconv"\n', "")])

W = "skywalking/fasthttp-routing/middleware.go"
R(W, ("func NewMiddleware(", """
func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
	if tracer == nil {
		return (*routing.Context).Next
	}
	m := &middleware{tracer: tracer}
	for i := range opts {
		opts[i](&m.options)
	}
	return m.handle
}

type middleware struct {
	tracer *go2sky.Tracer
	options
}

func (m *middleware) handle(rCtx *routing.Context) error {
	span, err := m.enter(rCtx)
	if err != nil {
		return rCtx.Next()
	}
	nextErr := rCtx.Next()
	m.leave(rCtx, span, nextErr)
	return nextErr
}

func (m *middleware) enter(rCtx *routing.Context) (go2sky.Span, error) {
	extract := func(key string) (string, error) {
		return string(rCtx.Request.Header.Peek(key)), nil
	}
	span, spanCtx, err := m.tracer.CreateEntrySpan(GetSwContext(rCtx), GetOperationName(rCtx), extract)
	if err != nil {
		return nil, err
	}
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	span.SetComponent(componentIDGoHttpServer)
	span.Tag(go2sky.TagURL, rCtx.RequestCtx.URI().String())
	span.Tag(go2sky.TagHTTPMethod, string(rCtx.RequestCtx.Method()))
	SetSwContext(rCtx, spanCtx)
	return span, nil
}

func (m *middleware) leave(rCtx *routing.Context, span go2sky.Span, nextErr error) {
	defer span.End()
	status := rCtx.Response.StatusCode()
	err := nextErr
	if err == nil {
		err = rCtx.Err()
	}
	switch {
	case err != nil && m.logError:
		span.Error(time.Now(), err.Error())
	case err == nil && status >= 400 && m.log4xxBody:
		span.Error(time.Now(), string(rCtx.Response.Body()))
	case err != nil || status >= 400:
		span.Error(time.Now())
	}
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(status))
}
"""))
R(W, ("func NewMiddleware(", src(W, "func NewMiddleware(").replace("""		if nextErr != nil {
			if options.logError {
				span.Error(time.Now(), nextErr.Error())
			} else {
				span.Error(time.Now())
			}
		} else if err = rCtx.Err(); err != nil {
			if options.logError {
				span.Error(time.Now(), err.Error())
			} else {
				span.Error(time.Now())
			}
		} else if rCtx.Response.StatusCode() >= 400 {
			if options.log4xxBody {
				span.Error(time.Now(), string(rCtx.Response.Body()))
			} else {
				span.Error(time.Now())
			}
		}
""", """		if failed, details := outcome(rCtx, nextErr, options); failed {
			span.Error(time.Now(), details...)
		}
""")), add="""
// outcome tells whether the request failed and what may be traced about it
func outcome(rCtx *routing.Context, err error, o *options) (failed bool, details []string) {
	if err == nil {
		err = rCtx.Err()
	}
	if err != nil {
		if o.logError {
			details = append(details, err.Error())
		}
		return true, details
	}
	if rCtx.Response.StatusCode() < 400 {
		return false, nil
	}
	if o.log4xxBody {
		details = []string{string(rCtx.Response.Body())}
	}
	return true, details
}
""")
H = "skywalking/redis/hook.go"
R(H, ("func (h *tracerHook) BeforeProcess(", """
func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
	return h.before(ctx, []rv7.Cmder{cmd}), nil
}

func (h *tracerHook) before(ctx context.Context, cmds []rv7.Cmder) context.Context {
	if h.tracer == nil {
		return ctx
	}
	name := quickJoin(cmds, "|", rv7.Cmder.Name)
	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, name, h.opts.peer, noopInjector)
	if err != nil {
		// tracing failure must not fail the commands
		return ctx
	}
	statement := name
	if h.opts.reportArgs {
		statement = quickJoin(cmds, "|", func(c rv7.Cmder) string { return c.String() })
	}
	for _, tag := range []struct {
		key   go2sky.Tag
		value string
	}{{go2sky.TagDBStatement, statement}, {go2sky.TagDBInstance, h.opts.Db}, {go2sky.TagDBType, "Redis"}} {
		span.Tag(tag.key, tag.value)
	}
	span.SetComponent(componentID)
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	return context.WithValue(nCtx, h, span)
}

func (h *tracerHook) after(ctx context.Context, errs string) error {
	span, ok := ctx.Value(h).(go2sky.Span)
	if !ok || span == nil {
		return nil
	}
	if errs != "" {
		var details []string
		if h.opts.logError {
			details = append(details, errs)
		}
		span.Error(time.Now(), details...)
	}
	span.End()
	return nil
}
"""), ("func (h *tracerHook) AfterProcess(", """
func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	return h.after(ctx, quickJoinError([]rv7.Cmder{cmd}, "|"))
}
"""), ("func (h *tracerHook) BeforeProcessPipeline(", """
func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
	return h.before(ctx, cmds), nil
}
"""), ("func (h *tracerHook) AfterProcessPipeline(", """
func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
	return h.after(ctx, quickJoinError(cmds, "|"))
}
"""))
R(H, ("func quickJoin(", """
func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
	parts := make([]string, len(objs))
	for i := range objs {
		parts[i] = stringer(objs[i])
	}
	return strings.Join(parts, sep)
}
"""), ("func quickJoinError(", """
func quickJoinError(objs []rv7.Cmder, sep string) string {
	var parts []string
	for _, obj := range objs {
		if err := obj.Err(); err != nil {
			parts = append(parts, err.Error())
		}
	}
	return strings.Join(parts, sep)
}
"""))
S = "skywalking/fasthttp/client_span.go"
R(S, ("func (fc *ClientSpanHelper) EndSpan(", """
func (fc *ClientSpanHelper) EndSpan(span go2sky.Span, res *fasthttp.Response) {
	if span == nil {
		return
	}
	defer span.End()
	code := res.StatusCode()
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(code))
	if code < 400 {
		return
	}
	var body []string
	if fc.options.log4xxBody {
		body = append(body, string(res.Body()))
	}
	span.Error(time.Now(), body...)
}
"""), ("func (fc *ClientSpanHelper) EndSpanError(", """
func (fc *ClientSpanHelper) EndSpanError(span go2sky.Span, err error) {
	if span != nil {
		fc.fail(span, err)
		span.End()
	}
}

func (fc *ClientSpanHelper) fail(span go2sky.Span, err error) {
	if !fc.options.logError {
		span.Error(time.Now())
		return
	}
	span.Error(time.Now(), err.Error())
}
"""), ("func (fc *ClientSpanHelper) CreateSpan(", """
func (fc *ClientSpanHelper) CreateSpan(ctx context.Context, req *fasthttp.Request) (go2sky.Span, error) {
	if fc.tracer == nil {
		return nil, nil
	}
	inject := func(key, value string) error {
		req.Header.Set(key, value)
		return nil
	}
	span, err := fc.tracer.CreateExitSpan(ctx, getOperationNameForReq(req), string(req.Host()), inject)
	if err != nil {
		return span, err
	}
	describe(span, req)
	return span, nil
}

func describe(span go2sky.Span, req *fasthttp.Request) {
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	span.SetComponent(componentIDGoHttpClient)
	span.Tag(go2sky.TagURL, req.URI().String())
	span.Tag(go2sky.TagHTTPMethod, string(req.Header.Method()))
}
"""))
TP = "testutil/panic.go"
R(TP, ("func ShouldNotPanic(", """
func ShouldNotPanic(t *testing.T, title string, f func()) {
	if r, panicked := try(f); panicked {
		t.Errorf("%s panicked, message: %v", title, r)
	}
}

func try(f func()) (r interface{}, panicked bool) {
	defer func() {
		if r = recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return
}
"""))

# a loop that collects and leaves some out
def RM(props, path, *pairs):
    MM(props, *[(path, src(path, h), new.lstrip("\n")) for h, new in pairs])


for cond, rest in (("if task.Name() != \"\" {\n\t\t\tlist = append(list, task)\n\t\t}", "_ = task.Stop()"),
                   ("list = append(list, task)", "if task.Stop() != nil {\n\t\t\tbreak\n\t\t}")):
    RM("S06", G, ("func (m *taskManager) UnregisterAll(", """
func (m *taskManager) UnregisterAll() {
	m.lock.Lock()
	defer m.lock.Unlock()
	var list []Task
	for _, task := range m.taskMap {
		%s
	}
	for _, task := range list {
		%s
	}
	m.taskMap = map[string]Task{}
}
""" % (cond, rest)))
