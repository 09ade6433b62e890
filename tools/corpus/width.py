ST = "conf/string.go"
B(ST, "	return 'A' <= b && b <= 'Z'\n", "	return b-'A' <= 'Z'-'A'\n")
B(ST, "	return 'A' <= b && b <= 'Z'\n", "	return b-'A' < 26\n")
M("F03", ST, "	return 'A' <= b && b <= 'Z'\n", "	return b-'A' < 32\n")
M("F03", ST, "	return 'a' <= b && b <= 'z'\n", "	return b-'a' < 32\n")
M("F03", ST, "	return 'a' <= b && b <= 'z'\n", "	return int8(b-'a') < 26\n")
B(ST, "	return 'a' <= b && b <= 'z'\n", "	return uint(b)-'a' < 26\n")
B(ST, "	return 'a' <= b && b <= 'z'\n", "	n := int(b) - 'a'\n	return n >= 0 && n < 26\n")
M("F03", ST, "		return b + ('a' - 'A')\n", "		return b + ('A' - 'A' + 160)\n")
B(ST, "		return b - ('a' - 'A')\n", "		return b + (255 - 'a' + 'A' + 1)\n")
M("R01", "ratelimiter/fixedwindow.go", "		windowSize: int64(windowSize),\n", "		windowSize: int64(int32(windowSize)),\n")
M("R02", "ratelimiter/slidingwindow.go", "		windowSize: int64(windowSize),\n", "		windowSize: int64(int32(windowSize)),\n")
M("R03", "ratelimiter/slidingwindow.go", "	s.windowSize = int64(windowSize)\n", "	s.windowSize = int64(int32(windowSize))\n")
M("R04", "ratelimiter/tokenbucket.go", "		tokens:             int64(capacity),\n", "		tokens:             int64(uint16(capacity)),\n")
M("R05", "ratelimiter/tokenbucket.go", "	t.tokens += int(delta)\n", "	t.tokens += int(int32(delta))\n")
M("R05", "ratelimiter/tokenbucket.go", "		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)\n", "		delta := elapse / int64(time.Second) * int64(uint8(t.issueRatePerSecond))\n")
M("R08", "ratelimiter/ttl_ratelimiter_redis.go", "	result.Ttl = int(arr[2].(int64))\n", "	result.Ttl = int(int16(arr[2].(int64)))\n")
M("R08", "ratelimiter/ttl_ratelimiter_redis.go", "	now := time.Now().UnixNano() / int64(time.Second)\n", "	now := int32(time.Now().UnixNano() / int64(time.Second))\n")
B("ratelimiter/ttl_ratelimiter_redis.go", "	now := time.Now().UnixNano() / int64(time.Second)\n", "	now := time.Now().Unix()\n")
M("B02", "circuitbreaker/circuitbreaker.go", "resetTimeout:     int64(resetTimeout),", "resetTimeout:     int64(int32(resetTimeout)),")
B("circuitbreaker/circuitbreaker.go", "resetTimeout:     int64(resetTimeout),", "resetTimeout:     int64(uint64(resetTimeout)),")
M("F02", "conf/env.go", "int(v.Int()), path)", "int(int32(v.Int())), path)")
M("F02", "conf/flag.go", "uint(v.Uint()), path)", "uint(uint32(v.Uint())), path)")
M("E01", "event/bus.go", "	ch := make(chan interface{}, bufSize)\n\n", "	ch := make(chan interface{}, int8(bufSize))\n\n")
M("N02", "confs/redis.go", "strconv.Itoa(rc.Port)", "strconv.Itoa(int(uint8(rc.Port)))")
M("N02", "confs/redis.go", "		PoolSize:     rc.Pool,\n", "		PoolSize:     int(int16(rc.Pool)),\n")
M("N02", "confs/postgresql.go", "strconv.Itoa(conf.ConnectTimeout)", "strconv.Itoa(int(uint8(conf.ConnectTimeout)))")
M("N05", "confs/mysql.go", "	db.SetMaxOpenConns(conf.MaxOpenConns)\n", "	db.SetMaxOpenConns(int(int8(conf.MaxOpenConns)))\n")
