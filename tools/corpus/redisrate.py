V = "ratelimiter/ttl_ratelimiter_redis.go"
def m(old, new): M("R07", V, old, new)
m("if cap <= 0 or win <= 0 or exp <= 0\nthen", "if cap <= 0 or win <= 0\nthen")
m("if cap <= 0 or win <= 0 or exp <= 0\nthen", "if cap < 0 or win <= 0 or exp <= 0\nthen")
m("if redis.call('EXISTS', keyb) == 1\nthen\n  local ttl = redis.call('TTL', keyb)\n  local omsg = redis.call('GET', keyb)\n  return {1, 0, ttl, omsg}\nend\n\nlocal size", "local size")
m("  local omsg = redis.call('GET', keyb)\n  return {1, 0, ttl, omsg}\nend\n\nlocal size", "  return {1, 0, ttl, msg}\nend\n\nlocal size")
m("  return {1, 0, ttl, omsg}\nend\n\nlocal size", "  redis.call('RPUSH', key, now)\n  return {1, 0, ttl, omsg}\nend\n\nlocal size")
m("  return {1, 0, ttl, omsg}\nend\n\nlocal size", "  return {1, 0, exp, omsg}\nend\n\nlocal size")
m("  return {1, 0, ttl, omsg}\nend\n\nlocal size", "  redis.call('EXPIRE', keyb, exp)\n  return {1, 0, ttl, omsg}\nend\n\nlocal size")
m("if size < cap\nthen", "if size <= cap\nthen")
m("if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n", "if size < cap\nthen\n  redis.call('RPUSH', key, now)\n")
m("if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n", "if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  if size == 0\n  then\n    redis.call('EXPIRE', key, math.max(win, exp) * 2)\n  end\n")
m("if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n", "if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, exp)\n")
m("if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n", "if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, win)\n")
m("if size < cap\nthen\n  redis.call('RPUSH', key, now)\n", "if size < cap\nthen\n  redis.call('LPUSH', key, now)\n")
m("if size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n", "if size < cap\nthen\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n  redis.call('RPUSH', key, now)\n")
m("  for i = diff, 1, -1\n", "  for i = diff, 0, -1\n")
m("  for i = diff, 1, -1\n", "  for i = diff, 2, -1\n")
m("local diff = size - cap\n", "local diff = size - cap + 1\n")
m("    redis.call('LPOP', key)\n  end\nend\n", "    redis.call('RPOP', key)\n  end\nend\n")
m("redis.call('LRANGE', key, 0, 0)", "redis.call('LRANGE', key, -1, -1)")
m("local diff = size - cap\nif diff > 0\nthen\n  for i = diff, 1, -1\n  do\n    redis.call('LPOP', key)\n  end\nend\n", "")
m("if now - oldest > win\nthen", "if now - oldest >= win\nthen")
m("if now - oldest > win\nthen", "if now - oldest > exp\nthen")
m("if now - oldest > win\nthen", "if now - oldest > win * 2\nthen")
m("if now - oldest > win\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n", "if now - oldest > win\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n  redis.call('LPOP', key)\n")
m("if now - oldest > win\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n", "if now - oldest > win\nthen\n  redis.call('RPUSH', key, oldest)\n  redis.call('LPOP', key)\n")
m("if now - oldest > win\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n", "if now - oldest > win\nthen\n  redis.call('LPOP', key)\n")
m("if now - oldest > win\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n", "if now - oldest > win\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')", "redis.call('SET', keyb, msg, 'EX', win, 'NX')")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')", "redis.call('SET', keyb, msg, 'PX', exp, 'NX')")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')", "redis.call('SET', keyb, msg, 'NX')")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')", "redis.call('SET', keyb, now, 'EX', exp, 'NX')")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')", "redis.call('SET', key, msg, 'EX', exp, 'NX')")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')\n", "redis.call('SET', keyb, msg, 'EX', exp, 'NX')\nredis.call('DEL', key)\n")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')\n", "redis.call('SET', keyb, msg, 'EX', exp, 'NX')\nredis.call('LPOP', key)\n")
m("redis.call('SET', keyb, msg, 'EX', exp, 'NX')\n", "redis.call('RPUSH', key, now)\nredis.call('SET', keyb, msg, 'EX', exp, 'NX')\n")
m("return {1, 1, exp, msg}", "return {1, 1, win, msg}")
m("return {1, 1, exp, msg}", "return {1, 0, exp, msg}")
m("return {1, 1, exp, msg}", "return {1, 1, exp, ''}")
m("local cap = tonumber(ARGV[1])\nlocal win = tonumber(ARGV[2])", "local cap = tonumber(ARGV[2])\nlocal win = tonumber(ARGV[1])")
m("local exp = tonumber(ARGV[3])", "local exp = ARGV[3]")
m("local oldest = tonumber(list[1])\n", "oldest = tonumber(list[1])\n")
m("local omsg = redis.call('GET', keyb)\n  return {1, 0, ttl, omsg}\nend\n\nreturn {0, 0, 0, ''}", "local omsg = redis.call('GET', keyb)\n  return {1, 1, ttl, omsg}\nend\n\nreturn {0, 0, 0, ''}")
m("local omsg = redis.call('GET', keyb)\n  return {1, 0, ttl, omsg}\nend\n\nreturn {0, 0, 0, ''}", "local omsg = redis.call('GET', keyb)\n  redis.call('DEL', keyb)\n  return {1, 0, ttl, omsg}\nend\n\nreturn {0, 0, 0, ''}")
m("  return {1, 0, ttl, omsg}\nend\n\nreturn {0, 0, 0, ''}", "  return {1, 0, ttl, omsg}\nend\n\nreturn {0, 0, 0}")
# scripts, same behaviour
B(V, "if table.getn(list) == 0", "if #list == 0")
B(V, "local size = redis.call('LLEN', key)\nif size < cap\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n  return {0, 0, 0, ''}\nend\n", "local function pass()\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n  return {0, 0, 0, ''}\nend\n\nlocal size = redis.call('LLEN', key)\nif size < cap then\n  return pass()\nend\n")
B(V, "local diff = size - cap\nif diff > 0\nthen\n  for i = diff, 1, -1\n  do\n    redis.call('LPOP', key)\n  end\nend\n", "for i = 1, size - cap do\n  redis.call('LPOP', key)\nend\n")
B(V, "local diff = size - cap\nif diff > 0\nthen\n  for i = diff, 1, -1\n  do\n    redis.call('LPOP', key)\n  end\nend\n", "while redis.call('LLEN', key) > cap do\n  redis.call('LPOP', key)\nend\n")
B(V, "local diff = size - cap\nif diff > 0\nthen\n  for i = diff, 1, -1\n  do\n    redis.call('LPOP', key)\n  end\nend\n", "while size > cap do\n  redis.call('LPOP', key)\n  size = size - 1\nend\n") if False else None
B(V, "local diff = size - cap\nif diff > 0\nthen\n  for i = diff, 1, -1\n  do\n    redis.call('LPOP', key)\n  end\nend\n", "if size > cap then\n  redis.call('LTRIM', key, size - cap, -1)\nend\n")
B(V, "local diff = size - cap\nif diff > 0\nthen\n  for i = diff, 1, -1\n  do\n    redis.call('LPOP', key)\n  end\nend\n", "redis.call('LTRIM', key, -cap, -1)\n")
B(V, "local list = redis.call('LRANGE', key, 0, 0)\n\nif table.getn(list) == 0\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n  return {0, 0, 0, ''}\nend\n\nlocal oldest = tonumber(list[1])\nif now - oldest > win\n", "local oldest = redis.call('LINDEX', key, 0)\nif not oldest or now - tonumber(oldest) > win\n")
B(V, "redis.call('SET', keyb, msg, 'EX', exp, 'NX')", "redis.call('SETEX', keyb, exp, msg)")
B(V, "redis.call('SET', keyb, msg, 'EX', exp, 'NX')", "redis.call('set', keyb, msg)\nredis.call('expire', keyb, exp)")
B(V, "  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n", "  redis.call('LPOP', key)\n  redis.call('RPUSH', key, now)\n")
B(V, "if redis.call('EXISTS', keyb) == 1\nthen\n  local ttl = redis.call('TTL', keyb)\n  local omsg = redis.call('GET', keyb)\n  return {1, 0, ttl, omsg}\nend\n\nlocal size", "local omsg = redis.call('GET', keyb)\nif omsg then\n  return {1, 0, redis.call('TTL', keyb), omsg}\nend\n\nlocal size")
B(V, "if now - oldest > win\nthen\n  redis.call('RPUSH', key, now)\n  redis.call('LPOP', key)\n  redis.call('EXPIRE', key, math.max(win, exp) * 2)\n  return {0, 0, 0, ''}\nend\n\nredis.call('SET', keyb, msg, 'EX', exp, 'NX')\nreturn {1, 1, exp, msg}\n", "if now - oldest <= win then\n  redis.call('SET', keyb, msg, 'EX', exp, 'NX')\n  return {1, 1, exp, msg}\nend\n\nredis.call('RPUSH', key, now)\nredis.call('LPOP', key)\nredis.call('EXPIRE', key, math.max(win, exp) * 2)\nreturn {0, 0, 0, ''}\n")
# Go side
def g(p, *edits): MM(p, *[(V,) + e for e in edits])
g("R08", ("		r.params.GetCapacity(),\n		r.params.GetWindowSizeSeconds(),\n", "		r.params.GetWindowSizeSeconds(),\n		r.params.GetCapacity(),\n"))
g("R08", ("		r.params.GetWindowSizeSeconds(),\n		r.params.GetTimeoutSeconds(),\n", "		r.params.GetTimeoutSeconds(),\n		r.params.GetWindowSizeSeconds(),\n"))
g("R08", ("int64(time.Second)\n", "int64(time.Millisecond)\n"))
g("R08", ("		now,\n		msg,\n", "		now,\n		key,\n"))
g("R08", ("	result.Triggered = arr[1].(int64) == 1\n	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock(", "	result.Triggered = arr[0].(int64) == 1\n	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock("))
g("R08", ("	result.Triggered = arr[1].(int64) == 1\n	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock(", "	result.Triggered = arr[1].(int64) == 1\n	if result.Triggered {\n		result.Ttl = int(arr[2].(int64))\n	}\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock("))
g("R08", ("	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock2C", "	result.Ttl = int(arr[2].(int64)) + 1\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock2C"))
g("R08", ("		simplelog.ErrLogger.Println(\"eval script1 \", scriptSha1, \"error\", err)\n		return result\n", "		simplelog.ErrLogger.Println(\"eval script1 \", scriptSha1, \"error\", err)\n		result.Block = true\n		return result\n"))
g("R08", ("		simplelog.ErrLogger.Println(\"eval script1 \", scriptSha1, \"error\", err)\n		return result\n", "		simplelog.ErrLogger.Println(\"eval script1 \", scriptSha1, \"error\", err)\n		result.Msg = err.Error()\n		return result\n"))
g("R08", ("	if isParamsNotSet(r.params) {\n		return result\n	}\n\n", ""))
MM("R08", ("ratelimiter/ttl_ratelimiter.go", "params.GetCapacity() <= 0 || params.GetTimeoutSeconds() <= 0 ||", "params.GetCapacity() <= 0 && params.GetTimeoutSeconds() <= 0 ||"))
MM("R08", ("ratelimiter/ttl_ratelimiter.go", "params.GetCapacity() <= 0", "params.GetCapacity() <= 1"))
g("R08", ("[]string{key, blockKey}", "[]string{blockKey, key}"))
g("R09", ("	blockKey = blockKey + suffix\n\n	// redis hashes the first braces in a key, so the tag must precede braces in the caller's keys\n	if r.hashTag != \"\" {\n		blockKey = r.hashTag + blockKey\n	}\n\n	//local keyb", "	blockKey = prefix + blockKey + suffix\n\n	// redis hashes the first braces in a key, so the tag must precede braces in the caller's keys\n	if r.hashTag != \"\" {\n		blockKey = r.hashTag + blockKey\n	}\n\n	//local keyb"))
g("R09", ("	if r.hashTag != \"\" {\n		blockKey = r.hashTag + blockKey\n	}\n\n	//local keyb", "	//local keyb"))
g("R09", ("		key = r.hashTag + key\n		blockKey = r.hashTag + blockKey\n", "		key = r.hashTag + key\n"))
g("R09", ("		key = r.hashTag + key\n", "		key = key + r.hashTag\n"))
g("R09", ("		key = r.hashTag + key\n		blockKey = r.hashTag + blockKey\n", "		key = key + r.hashTag\n		blockKey = blockKey + r.hashTag\n"))
g("R09", ("	key = prefix + key\n", ""))
g("R09", ("	prefix = \"_rl:\"\n	suffix = \":bl\"\n", "	prefix = \"rl:\"\n	suffix = \":rl\"\n"))
g("R09", ("	suffix = \":bl\"\n", "	suffix = \"\"\n"))
g("R09", ("\"{\" + strings.Trim(hashTag, \"{}\") + \"}\"", "strings.Trim(hashTag, \"{}\")"))
g("R09", ("return r.ShouldBlock2(key, key, msg)", "return r.ShouldBlock2(key, key+suffix, msg)"))
g("R09", ("return r.ShouldBlock2Context(ctx, key, key, msg)", "return r.ShouldBlock2(key, key, msg)"))
g("R09", ("return r.ShouldBlock2Context(ctx, key, key, msg)", "return r.ShouldBlock2Context(ctx, key, msg, msg)"))
g("R09", ("		scriptSha1 = scriptSha\n	})\n	loadScript(redisClient, script2, func(scriptSha string) {\n		scriptSha2 = scriptSha\n", "		scriptSha2 = scriptSha\n	})\n	loadScript(redisClient, script2, func(scriptSha string) {\n		scriptSha1 = scriptSha\n"))
g("R09", ("		scriptSha2,\n", "		scriptSha1,\n"))
g("R09", ("	loadScript(redisClient, script2, func(scriptSha string) {\n		scriptSha2 = scriptSha\n	})\n", ""))
B(V, "	key = prefix + key\n	blockKey = blockKey + suffix\n\n	// redis hashes the first braces in a key, so the tag must precede braces in the caller's keys\n	if r.hashTag != \"\" {\n		key = r.hashTag + key\n		blockKey = r.hashTag + blockKey\n	}\n", "	key = r.hashTag + prefix + key\n	blockKey = r.hashTag + blockKey + suffix\n")
BB((V, "	key = prefix + key\n	blockKey = blockKey + suffix\n\n	// redis hashes the first braces in a key, so the tag must precede braces in the caller's keys\n	if r.hashTag != \"\" {\n		key = r.hashTag + key\n		blockKey = r.hashTag + blockKey\n	}\n", "	key, blockKey = r.requestKey(key), r.blockKey(blockKey)\n"), (V, "	blockKey = blockKey + suffix\n\n	// redis hashes the first braces in a key, so the tag must precede braces in the caller's keys\n	if r.hashTag != \"\" {\n		blockKey = r.hashTag + blockKey\n	}\n\n	//local keyb", "	blockKey = r.blockKey(blockKey)\n	//local keyb"), (V, "", "\nfunc (r *redisTtlRateLimiter) requestKey(k string) string {\n	return fmt.Sprintf(\"%s%s%s\", r.hashTag, prefix, k)\n}\n\nfunc (r *redisTtlRateLimiter) blockKey(k string) string {\n	var b strings.Builder\n	b.WriteString(r.hashTag)\n	b.WriteString(k)\n	b.WriteString(suffix)\n	return b.String()\n}\n"), (V, "	\"context\"\n", "	\"context\"\n	\"fmt\"\n"))
B(V, "	arr := raw.([]interface{})\n	result.Block = arr[0].(int64) == 1\n	result.Triggered = arr[1].(int64) == 1\n	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock(", "	return decode(raw)\n}\n\nfunc decode(raw interface{}) *Result {\n	arr := raw.([]interface{})\n	block, triggered := arr[0].(int64), arr[1].(int64)\n	return &Result{Block: block == 1, Triggered: triggered == 1, Ttl: int(arr[2].(int64)), Msg: arr[3].(string)}\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock(")
B(V, "	arr := raw.([]interface{})\n	result.Block = arr[0].(int64) == 1\n	result.Triggered = arr[1].(int64) == 1\n	result.Ttl = int(arr[2].(int64))\n	result.Msg = arr[3].(string)\n	return result\n\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock(", "	arr := raw.([]interface{})\n	if arr[0].(int64) != 1 {\n		return result\n	}\n	result.Block = true\n	if arr[1].(int64) == 1 {\n		result.Triggered = true\n	}\n	result.Ttl = int(arr[2].(int64))\n	result.Msg, _ = arr[3].(string)\n	return result\n}\n\nfunc (r *redisTtlRateLimiter) ShouldBlock(")
B(V, "time.Now().UnixNano() / int64(time.Second)", "time.Now().Unix()")
BB((V, "local cap = tonumber(ARGV[1])\nlocal win = tonumber(ARGV[2])", "local cap = tonumber(ARGV[2])\nlocal win = tonumber(ARGV[1])"), (V, "		r.params.GetCapacity(),\n		r.params.GetWindowSizeSeconds(),\n", "		r.params.GetWindowSizeSeconds(),\n		r.params.GetCapacity(),\n"))
BB((V, "	loadScript(redisClient, script1, func(scriptSha string) {\n		scriptSha1 = scriptSha\n	})\n	loadScript(redisClient, script2, func(scriptSha string) {\n		scriptSha2 = scriptSha\n	})\n", "	scriptSha2 = mustLoad(redisClient, script2)\n	scriptSha1 = mustLoad(redisClient, script1)\n"), (V, "", "\nfunc mustLoad(c *redis.Client, src string) string {\n	sha, err := c.ScriptLoad(src).Result()\n	if err != nil {\n		panic(err)\n	}\n	return sha\n}\n"))
B(V, "	loadScript(redisClient, script1, func(scriptSha string) {\n		scriptSha1 = scriptSha\n	})\n	loadScript(redisClient, script2, func(scriptSha string) {\n		scriptSha2 = scriptSha\n	})\n", "	for _, s := range []struct {\n		src string\n		sha *string\n	}{{script1, &scriptSha1}, {script2, &scriptSha2}} {\n		sha := s.sha\n		loadScript(redisClient, s.src, func(got string) { *sha = got })\n	}\n")
B(V, "	return r.ShouldBlock2(key, key, msg)\n", "	return r.ShouldBlockContext(context.Background(), key, msg)\n")
MM("R09", (V, "	if r.hashTag != \"\" {\n		key = r.hashTag + key\n", "	if r.hashTag != \"\" && key != blockKey {\n		key = r.hashTag + key\n"))
T = "ratelimiter/ttl_ratelimiter.go"
C1 = "	r := &redisTtlRateLimiter{\n		params:      params,\n		redisClient: redisClient,\n	}\n	return r\n"
C2 = "	r := &redisTtlRateLimiter{\n		params:      params,\n		redisClient: redisClient,\n		hashTag:     \"{\" + strings.Trim(hashTag, \"{}\") + \"}\",\n	}\n	return r\n"
M("R08", V, C1, C1.replace("		params:      params,\n", ""))
M("R08", V, C1, C1.replace("params:      params", "params:      NewFixedTtlRateLimiterParams(params.GetCapacity()+1, params.GetWindowSizeSeconds(), params.GetTimeoutSeconds())"))
M("R09", V, C2, C2.replace("strings.Trim(hashTag, \"{}\")", "strings.Trim(\"{}\", hashTag)"))
M("R09", V, C2, C2.replace("strings.Trim(hashTag, \"{}\")", "strings.Trim(hashTag, \"{}0\")"))
M("R09", V, C2, C2.replace("strings.Trim(hashTag, \"{}\")", "strings.ToLower(hashTag)"))
M("R08", T, "		capacity:      capacity,\n", "")
M("R08", T, "		windowSizeSec: windowsSizeSec,\n		timeoutSec:    timeoutSec,\n", "		windowSizeSec: timeoutSec,\n		timeoutSec:    windowsSizeSec,\n")
M("R08", T, "	return f.windowSizeSec\n", "	return f.timeoutSec\n")
M("R08", T, "	return f.capacity\n", "	f.capacity--\n	return f.capacity + 1\n")
BB((V, C1, "	return newRedisLimiter(redisClient, params, \"\")\n"), (V, C2, "	return newRedisLimiter(redisClient, params, \"{\"+strings.TrimSuffix(strings.TrimPrefix(hashTag, \"{\"), \"}\")+\"}\")\n"), (V, "", "\nfunc newRedisLimiter(c *redis.Client, params TtlRateLimiterParams, tag string) *redisTtlRateLimiter {\n	return &redisTtlRateLimiter{params: params, redisClient: c, hashTag: tag}\n}\n"))
B(V, C2, "	if strings.HasPrefix(hashTag, \"{\") {\n		hashTag = hashTag[1:]\n	}\n	if strings.HasSuffix(hashTag, \"}\") {\n		hashTag = hashTag[:len(hashTag)-1]\n	}\n	return &redisTtlRateLimiter{params, redisClient, \"{\" + hashTag + \"}\"}\n")
BB((T, "	return &fixedTtlRateLimiterParams{\n		capacity:      capacity,\n		windowSizeSec: windowsSizeSec,\n		timeoutSec:    timeoutSec,\n	}\n", "	f := fixedTtlRateLimiterParams{}\n	f[0], f[1], f[2] = timeoutSec, windowsSizeSec, capacity\n	return &f\n"), (T, "type fixedTtlRateLimiterParams struct {\n	timeoutSec    int\n	windowSizeSec int\n	capacity      int\n}\n", "type fixedTtlRateLimiterParams [3]int\n"), (T, "	return f.windowSizeSec\n", "	return f[1]\n"), (T, "	return f.timeoutSec\n", "	return f[0]\n"), (T, "	return f.capacity\n", "	return f[2]\n"))
