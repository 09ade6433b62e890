# What operations are given (X06): rewrites that work on copies, and mutants that do not.
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


def RM(props, path, *pairs, also=()):
    MM(props, *([(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)))


S = "confstore/store.go"
UPD = src(S, "func (m *defaultImpl) BatchUpdate(")
# a method object that holds the list while it works
R(S, ("func (m *defaultImpl) BatchUpdate(", '''
func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
	if len(kvStrs) == 0 {
		return nil
	}
	b := &batch{entries: kvStrs, errors: make([]*KVError, 0, len(kvStrs))}
	b.apply(m)
	if err := m.persister.BatchSave(b.accepted); err != nil {
		simplelog.ErrLogger.Println("error happened when batch persist keys:", err)
	}
	return b.errors
}
'''), add='''
type batch struct {
	entries  []*KVStr
	errors   []*KVError
	accepted []*KVStr
}

func (b *batch) apply(m *defaultImpl) {
	for _, kvStr := range b.entries {
		if err := m.UpdateNoPersist(kvStr.Key, kvStr.Value); err != nil {
			b.errors = append(b.errors, err)
		} else if kvStr.Key != "" {
			b.accepted = append(b.accepted, kvStr)
		}
	}
}
''')
# a copy, filtered in place
B(S, "	okKvStrs := make([]*KVStr, 0, len(kvStrs))\n	for _, kvStr := range kvStrs {\n", "	okKvStrs := append([]*KVStr(nil), kvStrs...)[:0]\n	for _, kvStr := range kvStrs {\n")
# no room behind the end: append makes a new list
B(S, "	okKvStrs := make([]*KVStr, 0, len(kvStrs))\n	for _, kvStr := range kvStrs {\n", "	okKvStrs := kvStrs[:0:0]\n	for _, kvStr := range kvStrs {\n")
# a copy of the configuration
M1 = "confs/mysql.go"
B(M1, "	mc := prepareMySqlNativeConfig(conf, customizer)\n", "	c := *conf\n	conf = &c\n	mc := prepareMySqlNativeConfig(conf, customizer)\n")
F1 = "confs/fasthttpclient.go"
B(F1, "	tlsConfigured := false\n", "	own := *hcConf\n	hcConf = &own\n	hcConf.SslTrustMode = strings.TrimSpace(hcConf.SslTrustMode[:len(hcConf.SslTrustMode):len(hcConf.SslTrustMode)])\n	tlsConfigured := false\n") if False else None
SK = "skywalking/factory.go"
R(SK, ("func NewTracer(", '''
func NewTracer(c *Conf, rep go2sky.Reporter) (*go2sky.Tracer, error) {
	named := *c
	named.ServiceName = named.ServiceNamespace + "::" + named.ServiceName
	return go2sky.NewTracer(named.ServiceName,
		go2sky.WithReporter(rep),
		go2sky.WithInstance(named.ServiceInstance),
	)
}
'''))
R(SK, ("func NewTracer(", '''
func NewTracer(c *Conf, rep go2sky.Reporter) (*go2sky.Tracer, error) {
	opts := make([]go2sky.TracerOption, 0, 2)
	opts = append(opts, go2sky.WithReporter(rep))
	opts = append(opts, go2sky.WithInstance(c.ServiceInstance))
	return go2sky.NewTracer(c.ServiceNamespace+"::"+c.ServiceName, opts...)
}
'''))
K = "skywalking/redis/hook.go"
R(K, ("func NewHook(", '''
func NewHook(tracer *go2sky.Tracer, opts ...Option) rv7.Hook {
	h := &tracerHook{tracer: tracer, opts: &options{}}
	for len(opts) > 0 {
		opts[0](h.opts)
		opts = opts[1:]
	}
	return h
}
'''))
E1 = "confs/es.go"
ES = "	transport := http.DefaultTransport.(*http.Transport).Clone()\n"

MM("X06", (S, "	kvs := make([]*KV, 0, len(keys))\n	for _, key := range keys {\n", "	kvs := make([]*KV, 0, len(keys))\n	for i, key := range keys {\n		keys[i] = strings.TrimSpace(key)\n"), (S, "import (\n", "import (\n	\"strings\"\n"))
MM("X06", (S, "	kvs := make([]*KVStr, 0, len(keys))\n", "	sort.Strings(keys)\n	kvs := make([]*KVStr, 0, len(keys))\n"), (S, "import (\n", "import (\n	\"sort\"\n"))
MM("X06", ("dto/m.go", "	return json.Marshal(m)\n", "	for k, v := range m {\n		if v == nil {\n			delete(m, k)\n		}\n	}\n	return json.Marshal(m)\n"))
MM("X06", (E1, ES, ES.replace(".Clone()", "")))
MM("X06", ("confs/pprof.go", "func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {\n", "func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {\n	if conf.Username == \"\" {\n		conf.Username = \"pprof\"\n	}\n"))
MM("X06", (K, "	options := &options{}\n	for _, o := range opts {\n", "	options := &options{}\n	opts = append(opts, WithDb(0))\n	for _, o := range opts {\n"))
MM("X06", ("confstore/persister.go", "	args := make([]string, 0, 2*len(kvStrs))\n", "	if n := len(kvStrs); n > 1 && kvStrs[n-1].Key == kvStrs[n-2].Key {\n		kvStrs[n-2] = kvStrs[n-1]\n	}\n	args := make([]string, 0, 2*len(kvStrs))\n"))
MM("X06", ("confs/redis.go", "	return fmt.Sprintf(\"{Host: %s, Port: %d, Password: ***", "	defer func(p string) { r.Password = p }(\"\")\n	return fmt.Sprintf(\"{Host: %s, Port: %d, Password: ***"))
MM("X06", ("confs/oracle.go", "	options := prepareUrlOptions(conf, customizer)\n", "	os.Setenv(\"NLS_LANG\", \"AMERICAN_AMERICA.AL32UTF8\")\n	options := prepareUrlOptions(conf, customizer)\n"), ("confs/oracle.go", "import (\n", "import (\n	\"os\"\n"))
# the method object gets it wrong
def OBJ(apply, props):
    RM(props, S, ("func (m *defaultImpl) BatchUpdate(", '''
func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
	if len(kvStrs) == 0 {
		return nil
	}
	b := &batch{entries: kvStrs, errors: make([]*KVError, 0, len(kvStrs))}
	b.apply(m)
	if err := m.persister.BatchSave(b.accepted); err != nil {
		simplelog.ErrLogger.Println("error happened when batch persist keys:", err)
	}
	return b.errors
}
'''), also=[(S, "", '''
type batch struct {
	entries  []*KVStr
	errors   []*KVError
	accepted []*KVStr
}

func (b *batch) apply(m *defaultImpl) {
	for _, kvStr := range b.entries {
''' + apply + '''	}
}
''')])
OBJ("		if err := m.UpdateNoPersist(kvStr.Key, kvStr.Value); err != nil {\n			b.errors = append(b.errors, err)\n		}\n		if kvStr.Key != \"\" {\n			b.accepted = append(b.accepted, kvStr)\n		}\n", "K03")
OBJ("		if err := m.UpdateNoPersist(kvStr.Key, kvStr.Value); err != nil {\n			if len(b.accepted) > 0 {\n				b.errors = append(b.errors, err)\n			}\n		} else if kvStr.Key != \"\" {\n			b.accepted = append(b.accepted, kvStr)\n		}\n", "K03")
OBJ("		if err := m.UpdateNoPersist(kvStr.Key, kvStr.Value); err != nil {\n			b.errors = append(b.errors, err)\n			break\n		} else if kvStr.Key != \"\" {\n			b.accepted = append(b.accepted, kvStr)\n		}\n", "K03")
OBJ("		if err := m.UpdateNoPersist(kvStr.Key, kvStr.Value); err != nil {\n			b.errors = append(b.errors, err)\n			b.accepted = nil\n		} else if kvStr.Key != \"\" {\n			b.accepted = append(b.accepted, kvStr)\n		}\n", "K03")
