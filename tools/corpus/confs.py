MY = "confs/mysql.go"
OR = "confs/oracle.go"
PG = "confs/postgresql.go"
RE = "confs/redis.go"
ES = "confs/es.go"
FH = "confs/fasthttpclient.go"
PP = "confs/pprof.go"
PLOOP = "			p := strings.Split(str, \"=\")\n			if len(p) != 2 {\n				continue\n			}\n			unescape, err := url.QueryUnescape(p[1])\n			if err != nil {\n				continue\n			}\n			%s[p[0]] = unescape\n"
# N01
M("N01", MY, "simplelog.StdLogger.Printf(\"Connected to MySQL: %s:%d\", conf.Host, conf.Port)\n	return db\n", "simplelog.StdLogger.Printf(\"Connected to MySQL: %s\", dsn)\n	return db\n")
M("N01", MY, "Username: ***, Password: ***, Database: %s, MaxOpenConns: %v", "Username: %s, Password: ***, Database: %s, MaxOpenConns: %v") if False else None
M("N01", RE, "Password: ***, Pool: %d, MinIdle: %d}\",\n		r.Host, r.Port, r.Pool", "Password: %s, Pool: %d, MinIdle: %d}\",\n		r.Host, r.Port, r.Password, r.Pool")
M("N01", PG, "		simplelog.ErrLogger.Fatal(withoutUrl(err))\n", "		simplelog.ErrLogger.Fatal(err)\n")
M("N01", PG, "Fatal(\"Postgresql connection error: \", withoutUrl(err))", "Fatal(\"Postgresql connection error: \", err)")
M("N01", PG, "	if errors.As(err, &urlErr) {\n		return urlErr.Err\n	}\n", "	if errors.As(err, &urlErr) {\n		return urlErr\n	}\n")
M("N01", PG, "	if errors.As(err, &urlErr) {\n		return urlErr.Err\n	}\n	return err\n", "	if e, ok := err.(*url.Error); ok {\n		urlErr = e\n		return urlErr.Err\n	}\n	return err\n") if False else None
M("N01", ES, "simplelog.StdLogger.Printf(\"Connected to Elasticsearch: %s\", conf.Addrs)", "simplelog.StdLogger.Printf(\"Connected to Elasticsearch: %s (%v)\", conf.Addrs, *conf)")
M("N01", MY, "Fatal(\"MySQL connection error: \", err)", "Fatal(\"MySQL connection error: \", err, \" with \", mc.FormatDSN())")
M("N01", MY, "Fatal(\"MySQL connection error: \", err)", "Fatalf(\"MySQL connection error: %v %+v\", err, mc)")
M("N01", OR, "panic(\"You need to provide either service or sid option\")", "panic(fmt.Sprintf(\"You need to provide either service or sid option: %+v\", *conf))")
M("N01", PP, "{Username: ***, Password: ***, BlockProfileRate: %d, MutexProfileFraction: %d}\",\n		p.B", "{Username: %s, Password: ***, BlockProfileRate: %d, MutexProfileFraction: %d}\",\n		p.Username, p.B")
M("N01", MY, "MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout", "MaxIdleConns: %v, MaxOpenConns: %v, ConnMaxLifetime: %v, ReadTimeout")
M("N01", PG, "c.ConnMaxLifetime, c.ConnectTimeout, c.Params)", "c.ConnectTimeout, c.ConnMaxLifetime, c.Params)")
M("N01", FH, "c.CertChain, c.PrivateKey, c.SslTrustMode", "c.PrivateKey, c.CertChain, c.SslTrustMode")
M("N01", ES, "panic(fmt.Sprintf(\"Connected to Elasticsearch error: %s\", string(body)))", "panic(fmt.Sprintf(\"Connected to Elasticsearch error: %s %v\", string(body), esConf))")
M("N01", RE, "simplelog.ErrLogger.Fatal(\"Redis connection error: \", err)", "simplelog.ErrLogger.Fatal(\"Redis connection error: \", err, redisOpts)")
# N02
M("N02", MY, "mc.ReadTimeout = conf.ReadTimeout\n	mc.WriteTimeout = conf.WriteTimeout", "mc.ReadTimeout = conf.WriteTimeout\n	mc.WriteTimeout = conf.ReadTimeout")
M("N02", MY, "	mc.ParseTime = conf.ParseTime\n", "	mc.ParseTime = conf.ParseTime || conf.Loc != \"\"\n")
M("N02", MY, "	mc.ParseTime = conf.ParseTime\n", "")
M("N02", MY, "			mc.Loc = loc\n", "			_ = loc\n			mc.Loc = time.Local\n")
M("N02", MY, "	mc.Timeout = conf.Timeout\n", "	if conf.Timeout > time.Second {\n		mc.Timeout = conf.Timeout\n	}\n")
M("N02", MY, "	mc.DBName = conf.Database\n", "	mc.DBName = strings.ToLower(conf.Database)\n")
M("N02", MY, "strings.Split(conf.Params, \"&\")", "strings.Split(conf.Params, \";\")")
M("N02", MY, "			if len(p) != 2 {\n				continue", "			if len(p) != 2 {\n				break")
M("N02", MY, "			if len(p) != 2 {\n", "			if len(p) < 2 {\n")
M("N02", MY, "url.QueryUnescape(p[1])", "url.PathUnescape(p[1])")
M("N02", MY, "			mc.Params[p[0]] = unescape\n", "			_ = unescape\n			mc.Params[p[0]] = p[1]\n")
M("N02", MY, "			mc.Params[p[0]] = unescape\n", "			if _, ok := mc.Params[p[0]]; !ok {\n				mc.Params[p[0]] = unescape\n			}\n")
M("N02", MY, "		for _, str := range strs {\n", "		for _, str := range strs[1:] {\n")
M("N02", MY, "Sprintf(\"%s:%d\", conf.Host, conf.Port)\n	mc.DBName", "Sprintf(\"%s:%d\", conf.Host, 3306)\n	mc.DBName") if False else None
M("N02", OR, "	if conf.Sid != \"\" {\n", "	if conf.Sid != \"\" && conf.Service == \"\" {\n")
M("N02", OR, "options[\"server\"] = conf.Servers", "options[\"servers\"] = conf.Servers")
M("N02", OR, "BuildUrl(conf.Host, conf.Port, conf.Service, conf.Username, conf.Password, options)\n	db, err := sqlPlugin", "BuildUrl(conf.Host, conf.Port, conf.Sid, conf.Username, conf.Password, options)\n	db, err := sqlPlugin")
M("N02", OR, "options[\"CONNECTION TIMEOUT\"] = strconv.Itoa(conf.ConnectTimeout)", "options[\"CONNECTION TIMEOUT\"] = strconv.Itoa(conf.ConnectTimeout / 1000)")
M("N02", OR, "	if conf.ConnectTimeout != 0 {\n", "	if conf.ConnectTimeout > 1 {\n")
M("N02", PG, "options[\"connect_timeout\"]", "options[\"timeout\"]")
M("N02", PG, "			options[p[0]] = unescape\n", "			options[strings.ToLower(p[0])] = unescape\n")
M("N02", PG, "			if err != nil {\n				continue\n			}\n			options", "			if err != nil {\n				return options\n			}\n			options")
M("N02", RE, "PoolSize:     rc.Pool,\n		MinIdleConns: rc.MinIdle,", "PoolSize:     rc.MinIdle,\n		MinIdleConns: rc.Pool,")
M("N02", RE, "		DB:           rc.Db,\n", "")
M("N02", RE, "		Password:     rc.Password,\n", "		Password:     rc.Password,\n		Username:     rc.Password,\n") if False else None
M("N02", ES, "transport.MaxConnsPerHost = conf.MaxConnsPerHost\n	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost", "transport.MaxConnsPerHost = conf.MaxIdleConnsPerHost\n	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost")
M("N02", ES, "	esConf.Transport = transport\n", "	if conf.MaxConnsPerHost > 0 {\n		esConf.Transport = transport\n	}\n")
M("N02", ES, "strings.Split(conf.Addrs, \",\")", "strings.Split(conf.Addrs, \";\")")
M("N02", FH, "MaxIdleConnDuration: hcConf.MaxIdleConnDuration,\n		MaxConnDuration:     hcConf.MaxConnDuration,", "MaxIdleConnDuration: hcConf.MaxConnDuration,\n		MaxConnDuration:     hcConf.MaxIdleConnDuration,")
M("N02", FH, "		MaxConnWaitTimeout:  hcConf.MaxConnWaitTimeout,\n", "		MaxConnWaitTimeout:  hcConf.MaxConnWaitTimeout,\n		RetryIf:             func(*fasthttp.Request) bool { return true },\n")
# N03
M("N03", FH, "} else if hcConf.SslTrustMode == \"INSECURE\" {", "} else if hcConf.SslTrustMode != \"OS\" && hcConf.SslTrustMode != \"\" {")
M("N03", FH, "} else if hcConf.SslTrustMode == \"INSECURE\" {", "} else if hcConf.SslTrustMode != \"OS\" {")
M("N03", FH, "hcConf.SslTrustMode == \"CUSTOM\" && hcConf.SslTrustCerts != \"\"", "hcConf.SslTrustCerts != \"\"")
M("N03", FH, "		tlsConfig.InsecureSkipVerify = true\n		tlsConfigured = true\n", "		tlsConfig.InsecureSkipVerify = true\n")
M("N03", FH, "		tlsConfig.RootCAs = certPool\n		tlsConfigured = true\n", "		tlsConfig.RootCAs = certPool\n")
M("N03", FH, "		tlsConfig.RootCAs = certPool\n", "		tlsConfig.ClientCAs = certPool\n")
MM("N03", (FH, "		certPool := x509.NewCertPool()\n", "		certPool, err := x509.SystemCertPool()\n		if err != nil {\n			panic(err)\n		}\n"))
M("N03", FH, "		appendCertPool(certPool, cert)\n", "		appendCertPool(certPool, cert)\n		break\n")
M("N03", FH, "		appendCertPool(certPool, cert)\n", "		if strings.HasSuffix(cert, \".pem\") {\n			appendCertPool(certPool, cert)\n		}\n")
M("N03", FH, "	if err != nil {\n		panic(err)\n	}\n	if !certPool", "	if err != nil {\n		simplelog.ErrLogger.Println(err)\n		return\n	}\n	if !certPool")
M("N03", FH, "	if !certPool.AppendCertsFromPEM(cert) {\n		simplelog.ErrLogger.Fatalf(", "	if !certPool.AppendCertsFromPEM(cert) {\n		simplelog.ErrLogger.Printf(")
M("N03", FH, "	if hcConf.CertChain != \"\" || hcConf.PrivateKey != \"\" {", "	if hcConf.CertChain != \"\" && hcConf.PrivateKey != \"\" {")
M("N03", FH, "		if err != nil {\n			panic(err)\n		}\n		tlsConfig.Cert", "		if err != nil {\n			simplelog.ErrLogger.Println(err)\n		}\n		tlsConfig.Cert")
M("N03", FH, "LoadX509KeyPair(hcConf.CertChain, hcConf.PrivateKey)", "LoadX509KeyPair(hcConf.PrivateKey, hcConf.CertChain)")
M("N03", FH, "		tlsConfig.Certificates = []tls.Certificate{keyPair}\n", "		if hcConf.SslTrustMode != \"INSECURE\" {\n			tlsConfig.Certificates = []tls.Certificate{keyPair}\n		}\n")
M("N03", FH, "	tlsConfig := &tls.Config{}\n", "	tlsConfig := &tls.Config{VerifyPeerCertificate: func([][]byte, [][]*x509.Certificate) error { return nil }}\n") if False else None
M("N03", FH, "	tlsConfig := &tls.Config{}\n", "	tlsConfig := &tls.Config{MinVersion: tls.VersionSSL30}\n")
M("N03", FH, "	if customizer != nil {\n		customizer(client)\n	}\n\n	return client", "	if customizer != nil {\n		customizer(client)\n		tlsConfig.InsecureSkipVerify = hcConf.SslTrustMode == \"INSECURE\" || hcConf.SslTrustMode == \"NONE\"\n	}\n\n	return client")
M("N03", FH, "	if tlsConfigured {\n", "	if tlsConfigured && hcConf.MaxConnDuration >= 0 {\n")
M("N03", FH, "		tlsConfig.InsecureSkipVerify = true\n", "		tlsConfig.InsecureSkipVerify = len(tlsConfig.Certificates) == 0\n")
# N04
M("N04", PP, "	if conf.Username == \"\" || conf.Password == \"\" {\n		return func", "	if conf.Username == \"\" && conf.Password == \"\" {\n		return func")
M("N04", PP, "			c.Abort()\n", "")
M("N04", PP, "			c.Abort()\n", "			if !c.IsWebsocket() {\n				c.Abort()\n			}\n")
M("N04", PP, "			c.Abort()\n", "			c.Next()\n			c.Abort()\n")
M("N04", PP, "		conf.Username: conf.Password,\n", "		conf.Username: conf.Password,\n		\"admin\":       \"admin\",\n")
M("N04", PP, "		conf.Username: conf.Password,\n", "		conf.Password: conf.Username,\n")
M("N04", PP, "	if conf.Username == \"\" || conf.Password == \"\" {\n		return empty", "	if conf.Username == \"\" {\n		return empty")
M("N04", PP, "user_pass[0] != conf.Username || user_pass[1] != conf.Password", "user_pass[0] != conf.Username && user_pass[1] != conf.Password")
M("N04", PP, "user_pass[0] != conf.Username || user_pass[1] != conf.Password", "user_pass[1] != conf.Password")
M("N04", PP, "user_pass[0] != conf.Username || user_pass[1] != conf.Password", "!strings.HasPrefix(conf.Username, user_pass[0]) || user_pass[1] != conf.Password")
M("N04", PP, "user_pass[0] != conf.Username || user_pass[1] != conf.Password", "!strings.EqualFold(user_pass[0], conf.Username) || user_pass[1] != conf.Password")
M("N04", PP, "user_pass[0] != conf.Username || user_pass[1] != conf.Password", "user_pass[0] != conf.Username || user_pass[1] != conf.Username")
M("N04", PP, "SplitN(string(b), \":\", 2)", "Split(string(b), \":\")")
M("N04", PP, "strings.TrimPrefix(string(", "strings.TrimLeft(string(")
M("N04", PP, "		if auth == \"\" {\n			refuse(ctx)\n", "		if auth == \"\" {\n			if ctx.IsHead() {\n				pprofhandler.PprofHandler(ctx.RequestCtx)\n				return nil\n			}\n			refuse(ctx)\n")
M("N04", PP, "		b, err := base64.StdEncoding.DecodeString(auth)\n		if err != nil {\n			refuse(ctx)\n			return nil\n", "		b, err := base64.StdEncoding.DecodeString(auth)\n		if err != nil {\n			return nil\n")
M("N04", PP, "		if len(user_pass) != 2 {\n			refuse(ctx)\n			return nil\n", "		if len(user_pass) != 2 {\n			refuse(ctx)\n")
M("N04", PP, "			refuse(ctx)\n			return nil\n		}\n\n		pprof", "			refuse(ctx)\n		}\n\n		pprof")
M("N04", PP, "ctx.SetStatusCode(fasthttp.StatusUnauthorized)", "ctx.SetStatusCode(fasthttp.StatusOK)")
M("N04", PP, "	return nil\n}\n\n// create a fasthttp", "	if ctx.IsHead() {\n		return nil\n	}\n	pprofhandler.PprofHandler(ctx.RequestCtx)\n	return nil\n}\n\n// create a fasthttp")
M("N04", PP, "		b, err := base64.StdEncoding.DecodeString(auth)\n		if err != nil {\n			refuse(ctx)\n			return nil\n		}\n", "		b, err := base64.StdEncoding.DecodeString(auth)\n		if err != nil && len(b) == 0 {\n			refuse(ctx)\n			return nil\n		}\n")
M("N04", PP, "ctx.Request.Header.Peek(\"Authorization\")", "ctx.QueryArgs().Peek(\"Authorization\")")
# N05
M("N05", MY, "	err = db.Ping()\n", "	go db.Ping()\n")
M("N05", MY, "	err = db.Ping()\n", "	db.Ping()\n")
M("N05", PG, "		simplelog.ErrLogger.Fatal(\"Postgresql connection error: \", withoutUrl(err))\n		panic(withoutUrl(err))\n", "		simplelog.ErrLogger.Print(\"Postgresql connection error: \", withoutUrl(err))\n")
M("N05", OR, "	db.SetConnMaxLifetime(conf.ConnMaxLifetime)\n", "")
M("N05", OR, "	db.SetMaxIdleConns(conf.MaxIdleConns)\n", "	db.SetMaxIdleConns(conf.MaxOpenConns)\n")
M("N05", MY, "	db.SetMaxOpenConns(conf.MaxOpenConns)\n	db.SetMaxIdleConns(conf.MaxIdleConns)\n", "	db.SetMaxIdleConns(conf.MaxIdleConns)\n	if conf.MaxOpenConns < conf.MaxIdleConns {\n		db.SetMaxOpenConns(conf.MaxOpenConns)\n	}\n")
M("N05", RE, "simplelog.ErrLogger.Fatal(\"Redis", "simplelog.ErrLogger.Print(\"Redis")
M("N05", RE, "	if err != nil {\n", "	if err != nil && rc.MinIdle > 0 {\n")
M("N05", RE, "	_, err := client.Ping().Result()\n", "	_, err := redis.NewClient(redisOpts).Ping().Result()\n")
M("N05", ES, "	if pingRes.IsError() {\n", "	if pingRes.StatusCode >= 500 {\n")
M("N05", ES, "		if err != nil {\n			panic(err)\n		}\n		panic(fmt", "		if err != nil {\n			return es\n		}\n		panic(fmt")
M("N05", MY, "	err = db.Ping()\n	if err != nil {\n", "	if conf.MaxIdleConns > 0 {\n		err = db.Ping()\n	}\n	if err != nil {\n")
# N06
M("N06", PG, "url.PathEscape(conf.Database)", "conf.Database")
M("N06", PG, "url.PathEscape(conf.Database)", "url.QueryEscape(conf.Database)")
M("N06", PG, "url.QueryEscape(key), url.QueryEscape(val)", "key, url.QueryEscape(val)")
M("N06", PG, "url.QueryEscape(key), url.QueryEscape(val)", "url.QueryEscape(key), val")
M("N06", PG, "url.QueryEscape(key), url.QueryEscape(val)", "url.QueryEscape(key), url.PathEscape(val)")
M("N06", PG, "\"%s=%s&\"", "\"%s=%s\"")
M("N06", PG, "		val = strings.TrimSpace(val)\n", "		val = strings.Fields(val)[0]\n")
M("N06", PG, "		val = strings.TrimSpace(val)\n", "		val = strings.TrimSpace(val)\n		if val == \"\" {\n			break\n		}\n")
M("N06", PG, "url.UserPassword(conf.Username, conf.Password)", "url.User(conf.Username + \":\" + conf.Password)")
M("N06", PG, "	userInfo := url.UserPassword(conf.Username, conf.Password)\n", "	userInfo := url.QueryEscape(conf.Username) + \":\" + url.QueryEscape(conf.Password)\n")
M("N06", PG, "url.UserPassword(conf.Username, conf.Password)", "url.UserPassword(conf.Password, conf.Username)")
M("N06", PG, "%s@%s:%d/%s?\", userInfo, conf.Host, conf.Port", "%s@%s:%d/%s?\", userInfo, conf.Host, 5432") if False else None
M("N06", PG, "strings.TrimRight(ret, \"&\")", "strings.TrimRight(ret, \"=&\")")
# N07
M("N07", MY, "	if customizer != nil {\n		customizer(mc)\n	}\n", "	if customizer != nil {\n		c := *mc\n		customizer(&c)\n	}\n")
M("N07", MY, "	if customizer != nil {\n		customizer(mc)\n	}\n	return mc\n", "	if customizer != nil {\n		defer customizer(mc)\n	}\n	return mc.Clone()\n")
M("N07", MY, "	mc := prepareMySqlNativeConfig(conf, customizer)\n\n	dsn := mc.FormatDSN()\n	db, err := sqlPlugin", "	mc := prepareMySqlNativeConfig(conf, nil)\n\n	dsn := mc.FormatDSN()\n	if customizer != nil {\n		customizer(mc)\n	}\n	db, err := sqlPlugin")
M("N07", MY, "	mc := prepareMySqlNativeConfig(conf, customizer)\n\n	dsn := mc.FormatDSN()\n	db, err := sqlPlugin", "	mc := prepareMySqlNativeConfig(conf, nil)\n\n	dsn := mc.FormatDSN()\n	db, err := sqlPlugin")
M("N07", RE, "	if customizer != nil {\n		customizer(redisOpts)\n	}\n", "	customizer(redisOpts)\n")
M("N07", RE, "	if customizer != nil {\n		customizer(redisOpts)\n	}\n", "	if customizer != nil {\n		customizer(redisOpts)\n	}\n	redisOpts.PoolSize = rc.Pool\n")
M("N07", RE, "	redisOpts := prepareRedisNativeConfig(rc, customizer)\n", "	redisOpts := prepareRedisNativeConfig(rc, customizer)\n	if customizer != nil {\n		customizer(redisOpts)\n	}\n")
M("N07", ES, "	if customizer != nil {\n		customizer(esConf)\n	}\n\n	es, err := elasticsearch.NewClient(*esConf)\n", "	es, err := elasticsearch.NewClient(*esConf)\n	if customizer != nil {\n		customizer(esConf)\n	}\n")
M("N07", ES, "	esConf.Transport = transport\n	if customizer != nil {\n		customizer(esConf)\n	}\n", "	if customizer != nil {\n		customizer(esConf)\n	}\n	esConf.Transport = transport\n")
M("N07", FH, "	if customizer != nil {\n		customizer(client)\n	}\n\n	return client", "	if customizer != nil {\n		customizer(client)\n		client.ReadTimeout = hcConf.ReadTimeout\n	}\n\n	return client")
M("N07", FH, "	if tlsConfigured {\n		client.TLSConfig = tlsConfig\n	}\n	if customizer != nil {\n		customizer(client)\n	}\n", "	if customizer != nil {\n		customizer(client)\n	}\n	if tlsConfigured {\n		client.TLSConfig = tlsConfig\n	}\n")
M("N07", OR, "	if customizer != nil {\n		customizer(options)\n	}\n", "	if customizer != nil && len(options) > 0 {\n		customizer(options)\n	}\n")
M("N07", PG, "	if customizer != nil {\n		customizer(options)\n	}\n", "	if customizer != nil {\n		customizer(map[string]string{})\n	}\n")
# benign
HELPER = "\nfunc parseParams(text string, into map[string]string) {\n	if text == \"\" {\n		return\n	}\n	for _, str := range strings.Split(text, \"&\") {\n		kv := strings.Split(str, \"=\")\n		if len(kv) == 2 {\n			if v, err := url.QueryUnescape(kv[1]); err == nil {\n				into[kv[0]] = v\n			}\n		}\n	}\n}\n"
PBLOCK = "	if conf.Params != \"\" {\n		strs := strings.Split(conf.Params, \"&\")\n		for _, str := range strs {\n" + PLOOP + "		}\n	}\n"
BB((OR, PBLOCK % "options", "	parseParams(conf.Params, options)\n"), (OR, "", HELPER), (PG, PBLOCK % "options", "	parseParams(conf.Params, options)\n"), (MY, PBLOCK % "mc.Params", "	parseParams(conf.Params, mc.Params)\n"),
   (MY, "	\"net/url\"\n	\"strings\"\n", ""))
HELPER2 = "\nfunc parseParams(text string) map[string]string {\n	out := make(map[string]string)\n	if text == \"\" {\n		return out\n	}\n	strs := strings.Split(text, \"&\")\n	for i := 0; i < len(strs); i++ {\n		p := strings.Split(strs[i], \"=\")\n		if len(p) != 2 {\n			continue\n		}\n		key, raw := p[0], p[1]\n		v, err := url.QueryUnescape(raw)\n		if err != nil {\n			continue\n		}\n		out[key] = v\n	}\n	return out\n}\n"
BB((MY, PBLOCK % "mc.Params", ""), (MY, "	mc.Params = make(map[string]string, 0)\n", "	mc.Params = parseParams(conf.Params)\n"), (MY, "", HELPER2))
B(MY, "mc.Addr = fmt.Sprintf(\"%s:%d\", conf.Host, conf.Port)", "mc.Addr = conf.Host + \":\" + fmt.Sprint(conf.Port)")
BB((MY, "mc.Addr = fmt.Sprintf(\"%s:%d\", conf.Host, conf.Port)", "mc.Addr = conf.Host + \":\" + strconv.Itoa(conf.Port)"), (MY, "	\"strings\"\n", "	\"strconv\"\n	\"strings\"\n"))
BB((MY, "		if loc, err := time.LoadLocation(conf.Loc); err != nil {\n			simplelog.ErrLogger.Fatal(err)\n			panic(err)\n		} else {\n			mc.Loc = loc\n		}\n", "		mc.Loc = mustLocation(conf.Loc)\n"), (MY, "", "\nfunc mustLocation(name string) *time.Location {\n	loc, err := time.LoadLocation(name)\n	if err != nil {\n		simplelog.ErrLogger.Fatal(err)\n		panic(err)\n	}\n	return loc\n}\n"))
POOL = "	db.SetMaxOpenConns(conf.MaxOpenConns)\n	db.SetMaxIdleConns(conf.MaxIdleConns)\n	db.SetConnMaxLifetime(conf.ConnMaxLifetime)\n"
BB((MY, POOL, "	limitPool(db, conf.MaxOpenConns, conf.MaxIdleConns, conf.ConnMaxLifetime)\n"), (MY, "", "\nfunc limitPool(db *sql.DB, open, idle int, life time.Duration) {\n	db.SetConnMaxLifetime(life)\n	db.SetMaxOpenConns(open)\n	db.SetMaxIdleConns(idle)\n}\n"))
BB((MY, POOL + "\n	err = db.Ping()\n	if err != nil {\n		simplelog.ErrLogger.Fatal(\"MySQL connection error: \", err)\n		panic(err)\n	}\n", "	applyPool(db, conf)\n	mustPing(db, \"MySQL\")\n"), (MY, POOL + "\n	err = db.Ping()\n	if err != nil {\n		simplelog.ErrLogger.Fatal(\"MySQL connection error: \", err)\n		panic(err)\n	}\n", "	applyPool(db.DB, conf)\n	mustPing(db, \"MySQL\")\n"), (MY, "", "\nfunc applyPool(db *sql.DB, conf *MysqlConf) {\n	db.SetMaxOpenConns(conf.MaxOpenConns)\n	db.SetMaxIdleConns(conf.MaxIdleConns)\n	db.SetConnMaxLifetime(conf.ConnMaxLifetime)\n}\n\nfunc mustPing(db interface{ Ping() error }, what string) {\n	if err := db.Ping(); err != nil {\n		simplelog.ErrLogger.Fatal(what, \" connection error: \", err)\n		panic(err)\n	}\n}\n"))
B(PG, "	for key, val := range options {\n		val = strings.TrimSpace(val)\n		ret += fmt.Sprintf(\"%s=%s&\", url.QueryEscape(key), url.QueryEscape(val))\n	}\n	ret = strings.TrimRight(ret, \"&\")\n	return ret\n", "	pairs := []string{}\n	for key, val := range options {\n		pairs = append(pairs, url.QueryEscape(key)+\"=\"+url.QueryEscape(strings.TrimSpace(val)))\n	}\n	return ret + strings.Join(pairs, \"&\")\n")
B(PG, "	for key, val := range options {\n		val = strings.TrimSpace(val)\n		ret += fmt.Sprintf(\"%s=%s&\", url.QueryEscape(key), url.QueryEscape(val))\n	}\n	ret = strings.TrimRight(ret, \"&\")\n	return ret\n", "	var sb strings.Builder\n	sb.WriteString(ret)\n	for key, val := range options {\n		val = strings.TrimSpace(val)\n		sb.WriteString(url.QueryEscape(key))\n		sb.WriteByte('=')\n		sb.WriteString(url.QueryEscape(val))\n		sb.WriteByte('&')\n	}\n	return strings.TrimRight(sb.String(), \"&\")\n")
B(PG, "	for key, val := range options {\n		val = strings.TrimSpace(val)\n		ret += fmt.Sprintf(\"%s=%s&\", url.QueryEscape(key), url.QueryEscape(val))\n	}\n	ret = strings.TrimRight(ret, \"&\")\n	return ret\n", "	q := url.Values{}\n	for key, val := range options {\n		q.Set(key, strings.TrimSpace(val))\n	}\n	return ret + q.Encode()\n")
B(PG, "	ret := fmt.Sprintf(\"postgres://%s@%s:%d/%s?\", userInfo, conf.Host, conf.Port, url.PathEscape(conf.Database))\n", "	ret := \"postgres://\" + userInfo.String() + \"@\" + conf.Host + \":\" + strconv.Itoa(conf.Port) + \"/\" + url.PathEscape(conf.Database) + \"?\"\n")
B(PG, "	options := preparePgUrlOptions(conf, customizer)\n	dsn := buildPgDsn(conf, options)\n	db, err := sql.Open(\"postgres\", dsn)\n", "	db, err := sql.Open(\"postgres\", buildPgDsn(conf, preparePgUrlOptions(conf, customizer)))\n")
BB((RE, "	redisOpts := &redis.Options{\n		Addr:         rc.Host + \":\" + strconv.Itoa(rc.Port),\n		Password:     rc.Password,\n		PoolSize:     rc.Pool,\n		MinIdleConns: rc.MinIdle,\n		DB:           rc.Db,\n	}\n", "	redisOpts := new(redis.Options)\n	redisOpts.DB = rc.Db\n	redisOpts.Addr = fmt.Sprintf(\"%s:%d\", rc.Host, rc.Port)\n	redisOpts.Password = rc.Password\n	redisOpts.PoolSize = rc.Pool\n	redisOpts.MinIdleConns = rc.MinIdle\n"), (RE, "	\"strconv\"\n", ""))
B(RE, "	_, err := client.Ping().Result()\n	if err != nil {\n", "	if err := client.Ping().Err(); err != nil {\n")
B(RE, "	if customizer != nil {\n		customizer(redisOpts)\n	}\n	return redisOpts\n", "	if customizer == nil {\n		return redisOpts\n	}\n	customizer(redisOpts)\n	return redisOpts\n")
B(ES, "	transport := http.DefaultTransport.(*http.Transport).Clone()\n	transport.MaxConnsPerHost = conf.MaxConnsPerHost\n	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost\n	transport.ResponseHeaderTimeout = time.Second * 60\n\n	esConf.Transport = transport\n", "	esConf.Transport = esTransport(conf)\n") if False else None
BB((ES, "	transport := http.DefaultTransport.(*http.Transport).Clone()\n	transport.MaxConnsPerHost = conf.MaxConnsPerHost\n	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost\n	transport.ResponseHeaderTimeout = time.Second * 60\n\n	esConf.Transport = transport\n", "	esConf.Transport = esTransport(conf)\n"), (ES, "", "\nfunc esTransport(conf *EsConf) *http.Transport {\n	t := http.DefaultTransport.(*http.Transport).Clone()\n	t.ResponseHeaderTimeout = time.Minute\n	t.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost\n	t.MaxConnsPerHost = conf.MaxConnsPerHost\n	return t\n}\n"))
BB((ES, "	pingRes, err := es.Ping()\n	if err != nil {\n		panic(err)\n	}\n	defer pingRes.Body.Close()\n\n	if pingRes.IsError() {\n		body, err := ioutil.ReadAll(pingRes.Body)\n		if err != nil {\n			panic(err)\n		}\n		panic(fmt.Sprintf(\"Connected to Elasticsearch error: %s\", string(body)))\n	}\n", "	mustPingEs(es)\n"), (ES, "", "\nfunc mustPingEs(es *elasticsearch.Client) {\n	pingRes, err := es.Ping()\n	if err != nil {\n		panic(err)\n	}\n	defer pingRes.Body.Close()\n\n	if !pingRes.IsError() {\n		return\n	}\n	body, err := ioutil.ReadAll(pingRes.Body)\n	if err != nil {\n		panic(err)\n	}\n	panic(fmt.Sprintf(\"Connected to Elasticsearch error: %s\", string(body)))\n}\n"))
TLS = "	tlsConfigured := false\n	tlsConfig := &tls.Config{}\n"
BB((FH, "	if hcConf.SslTrustMode == \"CUSTOM\" && hcConf.SslTrustCerts != \"\" {\n		certPool := x509.NewCertPool()\n		for _, cert := range strings.Split(hcConf.SslTrustCerts, \",\") {\n			appendCertPool(certPool, cert)\n		}\n		tlsConfig.RootCAs = certPool\n		tlsConfigured = true\n	} else if hcConf.SslTrustMode == \"INSECURE\" {\n		tlsConfig.InsecureSkipVerify = true\n		tlsConfigured = true\n	}\n", "	switch hcConf.SslTrustMode {\n	case \"CUSTOM\":\n		if hcConf.SslTrustCerts != \"\" {\n			tlsConfig.RootCAs = certPoolOf(hcConf.SslTrustCerts)\n			tlsConfigured = true\n		}\n	case \"INSECURE\":\n		tlsConfig.InsecureSkipVerify, tlsConfigured = true, true\n	}\n"), (FH, "", "\nfunc certPoolOf(names string) *x509.CertPool {\n	pool := x509.NewCertPool()\n	files := strings.Split(names, \",\")\n	for i := 0; i < len(files); i++ {\n		appendCertPool(pool, files[i])\n	}\n	return pool\n}\n"))
B(FH, "	} else if hcConf.SslTrustMode == \"INSECURE\" {\n		tlsConfig.InsecureSkipVerify = true\n		tlsConfigured = true\n	}\n", "	}\n	insecure := hcConf.SslTrustMode == \"INSECURE\"\n	tlsConfig.InsecureSkipVerify = insecure\n	tlsConfigured = tlsConfigured || insecure\n")
BB((FH, "	tlsConfigured := false\n	tlsConfig := &tls.Config{}\n\n", "	client := &fasthttp.Client{\n		MaxConnsPerHost:     hcConf.MaxConnsPerHost,\n		MaxIdleConnDuration: hcConf.MaxIdleConnDuration,\n		MaxConnDuration:     hcConf.MaxConnDuration,\n		ReadTimeout:         hcConf.ReadTimeout,\n		WriteTimeout:        hcConf.WriteTimeout,\n		MaxConnWaitTimeout:  hcConf.MaxConnWaitTimeout,\n	}\n	client.TLSConfig = tlsOf(hcConf)\n	if customizer != nil {\n		customizer(client)\n	}\n	return client\n}\n\nfunc tlsOf(hcConf *FastHttpClientConf) *tls.Config {\n	tlsConfigured := false\n	tlsConfig := &tls.Config{}\n\n"), (FH, "	client := &fasthttp.Client{\n		MaxConnsPerHost:     hcConf.MaxConnsPerHost,\n		MaxIdleConnDuration: hcConf.MaxIdleConnDuration,\n		MaxConnDuration:     hcConf.MaxConnDuration,\n		ReadTimeout:         hcConf.ReadTimeout,\n		WriteTimeout:        hcConf.WriteTimeout,\n		MaxConnWaitTimeout:  hcConf.MaxConnWaitTimeout,\n	}\n\n	if tlsConfigured {\n		client.TLSConfig = tlsConfig\n	}\n	if customizer != nil {\n		customizer(client)\n	}\n\n	return client\n", "	if !tlsConfigured {\n		return nil\n	}\n	return tlsConfig\n")) if False else None
BB((FH, "	if tlsConfigured {\n		client.TLSConfig = tlsConfig\n	}\n", "	if !tlsConfigured {\n		tlsConfig = nil\n	}\n	client.TLSConfig = tlsConfig\n"))
B(FH, "	if !certPool.AppendCertsFromPEM(cert) {\n		simplelog.ErrLogger.Fatalf(\"load cert %s failed\\n\", file)\n	}\n", "	ok := certPool.AppendCertsFromPEM(cert)\n	if ok {\n		return\n	}\n	simplelog.ErrLogger.Fatalf(\"load cert %s failed\\n\", file)\n")
BB((FH, "	if !certPool.AppendCertsFromPEM(cert) {\n		simplelog.ErrLogger.Fatalf(\"load cert %s failed\\n\", file)\n	}\n", "	if !certPool.AppendCertsFromPEM(cert) {\n		panic(fmt.Sprintf(\"load cert %s failed\\n\", file))\n	}\n"), (FH, "	\"github.com/chanjarster/gears/simplelog\"\n", ""))
# pprof
OLD = PP_OLD = "		auth := strings.TrimPrefix(string(ctx.Request.Header.Peek(\"Authorization\")), \"Basic \")\n		if auth == \"\" {\n			refuse(ctx)\n			return nil\n		}\n\n		b, err := base64.StdEncoding.DecodeString(auth)\n		if err != nil {\n			refuse(ctx)\n			return nil\n		}\n\n		user_pass := strings.SplitN(string(b), \":\", 2)\n		if len(user_pass) != 2 {\n			refuse(ctx)\n			return nil\n		}\n\n		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {\n			refuse(ctx)\n			return nil\n		}\n\n		pprofhandler.PprofHandler(ctx.RequestCtx)\n		return nil\n"
BB((PP, OLD, "		if authorized(ctx, conf) {\n			pprofhandler.PprofHandler(ctx.RequestCtx)\n		} else {\n			refuse(ctx)\n		}\n		return nil\n"), (PP, "", "\nfunc authorized(ctx *routing.Context, conf *PprofConf) bool {\n	auth := strings.TrimPrefix(string(ctx.Request.Header.Peek(\"Authorization\")), \"Basic \")\n	if auth == \"\" {\n		return false\n	}\n	b, err := base64.StdEncoding.DecodeString(auth)\n	if err != nil {\n		return false\n	}\n	cred := string(b)\n	i := strings.IndexByte(cred, ':')\n	if i < 0 {\n		return false\n	}\n	return cred[:i] == conf.Username && cred[i+1:] == conf.Password\n}\n"))
BB((PP, OLD, "		user, pass, ok := credentials(ctx)\n		if !ok || user != username || pass != password {\n			refuse(ctx)\n			return nil\n		}\n		pprofhandler.PprofHandler(ctx.RequestCtx)\n		return nil\n"), (PP, "	if conf.Username == \"\" || conf.Password == \"\" {\n		return empty", "	username, password := conf.Username, conf.Password\n	if username == \"\" || password == \"\" {\n		return empty"), (PP, "", "\nfunc credentials(ctx *routing.Context) (user, pass string, ok bool) {\n	auth := strings.TrimPrefix(string(ctx.Request.Header.Peek(\"Authorization\")), \"Basic \")\n	if auth == \"\" {\n		return\n	}\n	b, err := base64.StdEncoding.DecodeString(auth)\n	if err != nil {\n		return\n	}\n	parts := strings.SplitN(string(b), \":\", 2)\n	if len(parts) < 2 {\n		return\n	}\n	return parts[0], parts[1], true\n}\n"))
BB((PP, "		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {\n", "		if subtle.ConstantTimeCompare([]byte(user_pass[0]), []byte(conf.Username)) != 1 || subtle.ConstantTimeCompare([]byte(user_pass[1]), []byte(conf.Password)) != 1 {\n"), (PP, "	\"encoding/base64\"\n", "	\"crypto/subtle\"\n	\"encoding/base64\"\n"))
B(PP, "			c.String(http.StatusNotFound, \"404 page not found\")\n			c.Abort()\n			return\n", "			c.Abort()\n			c.String(http.StatusNotFound, \"404 page not found\")\n")
BB((PP, "		return func(c *gin.Context) {\n			// do nothing cut the chain\n			c.String(http.StatusNotFound, \"404 page not found\")\n			c.Abort()\n			return\n		}\n", "		return closedEndpoint\n"), (PP, "", "\nfunc closedEndpoint(c *gin.Context) {\n	c.String(http.StatusNotFound, \"404 page not found\")\n	c.Abort()\n}\n"))
B(PP, "			c.String(http.StatusNotFound, \"404 page not found\")\n			c.Abort()\n			return\n", "			c.AbortWithStatus(http.StatusNotFound)\n")
BB((PP, "	if conf.Username == \"\" || conf.Password == \"\" {\n		return func", "	if !conf.protected() {\n		return func"), (PP, "	if conf.Username == \"\" || conf.Password == \"\" {\n		return empty", "	if !conf.protected() {\n		return empty"), (PP, "", "\nfunc (p *PprofConf) protected() bool {\n	return len(p.Username) > 0 && len(p.Password) > 0\n}\n"))
BB((PP, "	return gin.BasicAuth(gin.Accounts{\n		conf.Username: conf.Password,\n	})\n", "	accounts := make(gin.Accounts, 1)\n	accounts[conf.Username] = conf.Password\n	return gin.BasicAuth(accounts)\n"))
BB((PP, "		refuse := func(ctx *routing.Context) {\n			ctx.Response.Header.Add(\"WWW-Authenticate\", `Basic realm=\"User Visible Realm\"`)\n			ctx.SetStatusCode(fasthttp.StatusUnauthorized)\n		}\n\n", ""), (PP, "", "\nfunc refuse(ctx *routing.Context) {\n	ctx.Response.Header.Add(\"WWW-Authenticate\", `Basic realm=\"User Visible Realm\"`)\n	ctx.SetStatusCode(fasthttp.StatusUnauthorized)\n}\n"))
BB((RE, "	return fmt.Sprintf(\"{Host: %s, Port: %d, Password: ***, Pool: %d, MinIdle: %d}\",\n		r.Host, r.Port, r.Pool, r.MinIdle)\n", "	return \"{Host: \" + r.Host + \", Port: \" + strconv.Itoa(r.Port) + \", Password: ***, Pool: \" + strconv.Itoa(r.Pool) + \", MinIdle: \" + strconv.Itoa(r.MinIdle) + \"}\"\n"), (RE, "	\"fmt\"\n", ""))
B(MY, "		simplelog.ErrLogger.Fatal(err)\n		panic(err)\n	}\n	db.Set", "		fatal(err)\n	}\n	db.Set") if False else None
BB((OR, "		simplelog.ErrLogger.Fatal(withoutUrl(err))\n		panic(withoutUrl(err))\n", "		fatal(\"\", err)\n"), (OR, "		simplelog.ErrLogger.Fatal(\"Oracle connection error: \", withoutUrl(err))\n		panic(withoutUrl(err))\n", "		fatal(\"Oracle connection error: \", err)\n"), (OR, "", "\nfunc fatal(msg string, err error) {\n	safe := withoutUrl(err)\n	simplelog.ErrLogger.Fatal(msg, safe)\n	panic(safe)\n}\n"))
BB((OR, "	if conf.Sid != \"\" {\n		options[\"SID\"] = conf.Sid\n	}\n	if conf.Servers != \"\" {\n		options[\"server\"] = conf.Servers\n	}\n", "	setOption(options, \"SID\", conf.Sid)\n	setOption(options, \"server\", conf.Servers)\n"), (OR, "", "\nfunc setOption(options map[string]string, key, value string) {\n	if value != \"\" {\n		options[key] = value\n	}\n}\n"))

M("N05", ES, "\tdefer pingRes.Body.Close()\n", "")
M("N05", ES, "\tdefer pingRes.Body.Close()\n\n\tif pingRes.IsError() {\n", "\tif pingRes.IsError() {\n\t\tdefer pingRes.Body.Close()\n")
B(ES, "\tdefer pingRes.Body.Close()\n", "\tif pingRes.Body != nil {\n\t\tdefer pingRes.Body.Close()\n\t}\n")
B(ES, "\tdefer pingRes.Body.Close()\n", "\tdefer func() { _ = pingRes.Body.Close() }()\n")
BB((ES, "\tdefer pingRes.Body.Close()\n", "\tdefer closeBody(pingRes.Body)\n"), (ES, "", "\nfunc closeBody(c interface{ Close() error }) {\n\tif c != nil {\n\t\t_ = c.Close()\n\t}\n}\n"))
M("N04", PP, "		if auth == \"\" {", "		if auth != \"\" {")
M("N04", PP, "		if auth == \"\" {", "		if len(auth) < 12 {")
M("N04", PP, "			ctx.Response.Header.Add(\"WWW-Authenticate\", `Basic realm=\"User Visible Realm\"`)\n", "")
M("N04", PP, "fasthttp.StatusUnauthorized", "fasthttp.StatusForbidden")
M("N04", PP, "	runtime.SetMutexProfileFraction(conf.MutexProfileFraction)\n\n	return func", "	runtime.SetMutexProfileFraction(conf.BlockProfileRate)\n\n	return func")
M("N04", PP, "	runtime.SetBlockProfileRate(conf.BlockProfileRate)\n	runtime.SetMutexProfileFraction(conf.MutexProfileFraction)\n\n	return gin", "	return gin")
M("N04", PP, "		if len(user_pass) != 2 {", "		if len(user_pass) != 2 || user_pass[0] != strings.TrimSpace(user_pass[0]) {")
M("N04", PP, "strings.SplitN(string(b), \":\", 2)", "strings.Split(string(b), \":\")")
M("N04", PP, "			ctx.SetStatusCode(fasthttp.StatusUnauthorized)", "			ctx.Error(\"unauthorized\", fasthttp.StatusUnauthorized)")
BB((PP, "			ctx.Response.Header.Add(\"WWW-Authenticate\", `Basic realm=\"User Visible Realm\"`)\n			ctx.SetStatusCode(fasthttp.StatusUnauthorized)", "			ctx.Response.SetStatusCode(401)\n			ctx.Response.Header.Set(fasthttp.HeaderWWWAuthenticate, `Basic realm=\"User Visible Realm\"`)"))
BB((PP, "		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {\n			refuse(ctx)\n			return nil\n		}\n\n		pprofhandler.PprofHandler(ctx.RequestCtx)\n		return nil", "		same := user_pass[0] == conf.Username && user_pass[1] == conf.Password\n		if same {\n			pprofhandler.PprofHandler(ctx.RequestCtx)\n			return nil\n		}\n		refuse(ctx)\n		return nil"))
BB((PP, "	runtime.SetBlockProfileRate(conf.BlockProfileRate)\n	runtime.SetMutexProfileFraction(conf.MutexProfileFraction)\n\n	return gin", "	applyRates(conf)\n\n	return gin"), (PP, "	runtime.SetBlockProfileRate(conf.BlockProfileRate)\n	runtime.SetMutexProfileFraction(conf.MutexProfileFraction)\n\n	return func", "	applyRates(conf)\n\n	return func"), (PP, "", "\nfunc applyRates(conf *PprofConf) {\n	runtime.SetMutexProfileFraction(conf.MutexProfileFraction)\n	runtime.SetBlockProfileRate(conf.BlockProfileRate)\n}\n"))
BB((PP, "		user_pass := strings.SplitN(string(b), \":\", 2)\n		if len(user_pass) != 2 {\n			refuse(ctx)\n			return nil\n		}\n\n		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {", "		user, pass, found := strings.Cut(string(b), \":\")\n		if !found {\n			refuse(ctx)\n			return nil\n		}\n\n		if user != conf.Username || pass != conf.Password {"))
BB((PP, "		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {", "		if subtle.ConstantTimeCompare([]byte(user_pass[0]), []byte(conf.Username)) != 1 || subtle.ConstantTimeCompare([]byte(user_pass[1]), []byte(conf.Password)) != 1 {"), (PP, "\t\"net/http\"\n", "\t\"crypto/subtle\"\n\t\"net/http\"\n"))

OR = "confs/oracle.go"
M("N05", OR, "conf.Sid == \"\" && conf.Service == \"\"", "conf.Sid == \"\" || conf.Service == \"\"")
M("N05", OR, "conf.Sid == \"\" && conf.Service == \"\"", "conf.Service == \"\"")
M("N05", OR, "conf.Sid == \"\" && conf.Service == \"\"", "conf.Host == \"\" && conf.Service == \"\"")
M("N05", OR, "	if conf.Sid == \"\" && conf.Service == \"\" {\n		panic(\"You need to provide either service or sid option\")\n	}\n", "")
M("N05", "confs/mysql.go", "	db.SetMaxOpenConns(conf.MaxOpenConns)\n", "	if conf.MaxOpenConns < conf.MaxIdleConns {\n		panic(\"MaxOpenConns < MaxIdleConns\")\n	}\n	db.SetMaxOpenConns(conf.MaxOpenConns)\n")
M("N03", "confs/fasthttpclient.go", "		certPool := x509.NewCertPool()\n", "		certPool := x509.NewCertPool()\n		if hcConf.CertChain == \"\" {\n			panic(\"no certificate\")\n		}\n")
BB((OR, "	if conf.Sid == \"\" && conf.Service == \"\" {\n		panic(\"You need to provide either service or sid option\")\n	}\n	if conf.Sid != \"\" {\n		options[\"SID\"] = conf.Sid\n	}\n", "	if conf.Sid != \"\" {\n		options[\"SID\"] = conf.Sid\n	} else if conf.Service == \"\" {\n		panic(\"You need to provide either service or sid option\")\n	}\n"))
BB((OR, "	if conf.Sid == \"\" && conf.Service == \"\" {", "	if len(conf.Sid)+len(conf.Service) == 0 {"))
