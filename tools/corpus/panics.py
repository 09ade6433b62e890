# Panics where a result should have reported the failure (X05), and rewrites around such places.
H = "skywalking/redis/hook.go"
M("X05", H, "	span, _ := ctx.Value(h).(go2sky.Span)\n	if span == nil {\n		return nil\n	}\n\n	errs", "	span := ctx.Value(h).(go2sky.Span)\n\n	errs")
MM("X05", (H, "	span, _ := ctx.Value(h).(go2sky.Span)\n	if span == nil {\n		return nil\n	}\n	cmdErr := cmd.Err()\n", "	span, _ := ctx.Value(h).(go2sky.Span)\n	cmdErr := cmd.Err()\n"))
M("X05", H, "		// tracing failure must not fail the command\n		return ctx, nil\n", "		span.End()\n		return ctx, nil\n")
M("X05", H, "	return sb.String()\n}\n\nfunc (h *tracerHook) AfterProcessPipeline", "	return sb.String()[:len(objs)]\n}\n\nfunc (h *tracerHook) AfterProcessPipeline")
M("X05", "ratelimiter/slidingwindow.go", "	if s.capacity == 0 {\n		return true\n	}\n\n	if s.records.Len() < s.capacity {", "	if s.capacity > 0 && s.records.Len() < s.capacity {")
MM("X05", ("ratelimiter/slidingwindow.go", "	if capacity < 0 {\n		capacity = 0\n	}\n	return &SyncSlidingWindow", "	return &SyncSlidingWindow"))
M("X05", "ratelimiter/slidingwindow.go", "		s.records.PushBack(now)\n		return true\n	}\n\n	oldestV", "		s.records.PushBack(time.Duration(now))\n		return true\n	}\n\n	oldestV")
M("X05", "ratelimiter/tokenbucket.go", "	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)\n", "	delta := elapse / (int64(time.Second) / int64(t.issueRatePerSecond))\n")
M("X05", "util/rsa/util.go", "	if block == nil {\n		return nil, errors.New(\"invalid RSA PRIVATE KEY\")\n	}\n", "")
S = "confstore/store.go"
M("X05", S, "	v, hit := m.GetValueString(key)\n		if !hit {\n			continue\n		}\n", "	v := m.MustGetValueString(key)\n")
M("X05", "event/bus.go", "		recvMap: make(map[string]*Receiver, 10),\n", "")
M("X05", "schedule/task_manager.go", "	m.taskMap = make(map[string]Task, 10)\n", "	m.taskMap = nil\n")
