# Rewrites around indices, bounds, optional values and assertions (X05 above all).
def src(path, head):
    s = open("/repo/" + path).read()
    i = s.index(head)
    return s[i:s.index("\n}\n", i) + 3]


def R(path, *pairs, add="", also=()):
    edits = [(path, src(path, h), new.lstrip("\n")) for h, new in pairs] + list(also)
    if add:
        edits.append((path, "", "\n" + add.lstrip("\n")))
    BB(*edits)


H = "skywalking/redis/hook.go"
R(H, ("func quickJoin(", '''
func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
	sb := &strings.Builder{}
	for i := 0; i < len(objs); i++ {
		if i != 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(stringer(objs[i]))
	}
	return sb.String()
}
'''))
R(H, ("func quickJoin(", '''
func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
	if len(objs) == 0 {
		return ""
	}
	sb := &strings.Builder{}
	sb.WriteString(stringer(objs[0]))
	for _, obj := range objs[1:] {
		sb.WriteString(sep)
		sb.WriteString(stringer(obj))
	}
	return sb.String()
}
'''))
R(H, ("func quickJoin(", '''
func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
	parts := make([]string, len(objs))
	for i := range objs {
		parts[i] = stringer(objs[i])
	}
	return strings.Join(parts, sep)
}
'''))
R(H, ("func quickJoinError(", '''
func quickJoinError(objs []rv7.Cmder, sep string) string {
	var parts []string
	for _, obj := range objs {
		if cmdErr := obj.Err(); cmdErr != nil {
			parts = append(parts, cmdErr.Error())
		}
	}
	return strings.Join(parts, sep)
}
'''))
R(H, ("func (h *tracerHook) AfterProcess(", '''
func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	span, ok := ctx.Value(h).(go2sky.Span)
	if !ok {
		return nil
	}
	defer span.End()
	switch cmdErr := cmd.Err(); {
	case cmdErr == nil:
	case h.opts.logError:
		span.Error(time.Now(), cmdErr.Error())
	default:
		span.Error(time.Now())
	}
	return nil
}
'''))
R(H, ("func (h *tracerHook) AfterProcess(", '''
func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	v := ctx.Value(h)
	if v == nil {
		return nil
	}
	switch span := v.(type) {
	case go2sky.Span:
		if cmdErr := cmd.Err(); cmdErr != nil {
			if h.opts.logError {
				span.Error(time.Now(), cmdErr.Error())
			} else {
				span.Error(time.Now())
			}
		}
		span.End()
	}
	return nil
}
'''))
P = "confs/pprof.go"
OLD = src(P, "func NewFasthttpRoutingPprofHandler(")
def pp(new):
    B(P, OLD[OLD.index("		user_pass :="):OLD.index("		pprofhandler.PprofHandler(")], new.lstrip("\n"))
pp('''
		cred := string(b)
		i := strings.Index(cred, ":")
		if i == -1 {
			refuse(ctx)
			return nil
		}
		if cred[:i] != conf.Username || cred[i+1:] != conf.Password {
			refuse(ctx)
			return nil
		}

''')
pp('''
		if cred := strings.SplitN(string(b), ":", 2); len(cred) < 2 || cred[0] != conf.Username || cred[1] != conf.Password {
			refuse(ctx)
			return nil
		}

''')
pp('''
		if cred := string(b); !strings.HasPrefix(cred, conf.Username+":") || cred[len(conf.Username)+1:] != conf.Password {
			refuse(ctx)
			return nil
		}

''')
C = "confstore/procs.go"
ENUM = '''		a := make([]string, 0, len(e.enums))
		for enum, _ := range e.enums {
			a = append(a, enum)
		}
'''
B(C, ENUM, '''		a := make([]string, len(e.enums))
		i := 0
		for enum := range e.enums {
			a[i] = enum
			i++
		}
''')
B(C, '''			a = append(a, enum)
		}

		err = fmt.Sprintf("only allowed value: [%v]", strings.Join(a, ","))
''', '''			a = append(a, enum)
		}
		for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
			a[i], a[j] = a[j], a[i]
		}

		err = fmt.Sprintf("only allowed value: [%v]", strings.Join(a, ","))
''')
S = "confstore/store.go"
B(S, src(S, "func (m *defaultImpl) BatchGetValues("), '''func (m *defaultImpl) BatchGetValues(keys []string) []*KV {
	m.loadPolicy.DoLoad(m, m.persister)

	kvs := make([]*KV, len(keys))
	n := 0
	for i := 0; i < len(keys); i++ {
		if keys[i] == "" {
			continue
		}
		if v, hit := m.GetValue(keys[i]); hit {
			kvs[n] = &KV{keys[i], v}
			n++
		}
	}
	return kvs[:n]
}
''')
W = "ratelimiter/slidingwindow.go"
B(W, src(W, "func (s *SyncSlidingWindow) UpdateConfig("), '''func (s *SyncSlidingWindow) UpdateConfig(capacity int, windowSize time.Duration) {
	if capacity < 0 {
		capacity = 0
	}
	s.lock.Lock()
	defer s.lock.Unlock()
	for excess := s.records.Len() - capacity; excess > 0; excess-- {
		s.records.Remove(s.records.Front())
	}
	s.windowSize = int64(windowSize)
	s.capacity = capacity
}
''')
B(W, '''	oldestV := s.records.Front()
	oldest := time.Duration(oldestV.Value.(int64))
''', '''	oldestV := s.records.Front()
	if oldestV == nil {
		return false
	}
	at, ok := oldestV.Value.(int64)
	if !ok {
		return false
	}
	oldest := time.Duration(at)
''')
PE = "confstore/persister.go"
U = "util/rsa/util.go"
B(PE, src(PE, "func (r *redisPersister) BatchSave("), '''func (r *redisPersister) BatchSave(kvStrs []*KVStr) error {
	if len(kvStrs) == 0 {
		return nil
	}
	args := make([]string, 2*len(kvStrs))
	for i, kvStr := range kvStrs {
		args[2*i], args[2*i+1] = kvStr.Key, kvStr.Value
	}
	return r.redisClient.HMSet(r.configRootKey, args).Err()
}
''')


def RM(props, path, *edits):
    MM(props, *[(path, o, n) for o, n in edits])


# what was collected is changed afterwards
RM("K02", S, ("""		kvs = append(kvs, &KV{key, v})
	}
""", """		kvs = append(kvs, &KV{key, v})
	}
	if len(kvs) > 1 {
		kvs[0] = kvs[1]
	}
"""))
RM("K02", S, ("""		kvs = append(kvs, &KV{key, v})
""", """		kvs = append(kvs, &KV{key, v})
		if len(kvs) > 2 {
			kvs[1].Value = v
		}
"""))
RM("K03", S, ("""	// batch persist accepted kvStrs
""", """	if n := len(okKvStrs); n > 1 {
		okKvStrs[n-1] = okKvStrs[0]
	}
"""))
RM("K03", S, ("""	return errors
}
""", """	if len(errors) > 1 {
		errors[0], errors[1] = errors[1], errors[0]
	}
	return errors
}
"""))
RM("E04", "event/bus.go", ("""			data = append(data, d)
""", """			data = append(data, d)
			if len(data) > 2 {
				data[len(data)-2] = d
			}
"""))
