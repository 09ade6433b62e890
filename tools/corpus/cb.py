C = "circuitbreaker/circuitbreaker.go"
S = "concurrent/sema.go"
DO = "	switch s.state() {\n	case open:\n		onOpen()\n	case closed, halfOpen:\n		if err := task(); err != nil {\n			s.recordFailure()\n			onError(err)\n		} else {\n			s.reset()\n		}\n	default:\n		panic(\"Unreachable code\")\n	}\n"
ST = "	now := s.nowFn()\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n\n	if s.failures >= s.failureThreshold && (now.UnixNano()-s.lastFailureTs) > s.resetTimeout {\n		return halfOpen\n	} else if s.failures >= s.failureThreshold {\n		return open\n	} else {\n		return closed\n	}\n"
RF = "	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	s.failures++\n	s.lastFailureTs = s.nowFn().UnixNano()\n"
RS = "	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	s.failures = 0\n	s.lastFailureTs = 0\n"
# benign: Do
B(C, DO, "	if s.state() == open {\n		onOpen()\n		return\n	}\n	err := task()\n	if err == nil {\n		s.reset()\n		return\n	}\n	s.recordFailure()\n	onError(err)\n")
B(C, DO, "	current := s.state()\n	if current == open {\n		onOpen()\n	} else if err := task(); err == nil {\n		s.reset()\n	} else {\n		s.recordFailure()\n		onError(err)\n	}\n")
BB((C, DO, "	if s.refuses() {\n		onOpen()\n		return\n	}\n	if err := s.attempt(task); err != nil {\n		onError(err)\n	}\n"),
   (C, "", "\nfunc (s *SyncCircuitBreaker) refuses() bool { return s.state() == open }\n\nfunc (s *SyncCircuitBreaker) attempt(task func() error) error {\n	err := task()\n	if err != nil {\n		s.recordFailure()\n	} else {\n		s.reset()\n	}\n	return err\n}\n"))
BB((C, DO, "	switch s.state() {\n	case open:\n		onOpen()\n	case closed, halfOpen:\n		err := task()\n		s.settle(err == nil)\n		if err != nil {\n			onError(err)\n		}\n	}\n"),
   (C, "", "\nfunc (s *SyncCircuitBreaker) settle(ok bool) {\n	if ok {\n		s.reset()\n		return\n	}\n	s.recordFailure()\n}\n"))
B(C, DO, "	switch s.state() {\n	case closed, halfOpen:\n	default:\n		onOpen()\n		return\n	}\n	var err error\n	if err = task(); err != nil {\n		s.recordFailure()\n	} else {\n		s.reset()\n	}\n	if err != nil {\n		onError(err)\n	}\n")
# benign: state
B(C, ST, "	now := s.nowFn().UnixNano()\n\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n\n	if s.failures < s.failureThreshold {\n		return closed\n	}\n	if now-s.lastFailureTs > s.resetTimeout {\n		return halfOpen\n	}\n	return open\n")
B(C, ST, "	now := s.nowFn()\n	s.lock.RLock()\n	failures, last := s.failures, s.lastFailureTs\n	s.lock.RUnlock()\n\n	switch {\n	case failures < s.failureThreshold:\n		return closed\n	case now.UnixNano() > last+s.resetTimeout:\n		return halfOpen\n	default:\n		return open\n	}\n")
B(C, ST, "	now := s.nowFn()\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n\n	tripped := s.failures >= s.failureThreshold\n	cooled := now.UnixNano()-s.lastFailureTs > s.resetTimeout\n	st := closed\n	if tripped {\n		st = open\n	}\n	if tripped && cooled {\n		st = halfOpen\n	}\n	return st\n")
BB((C, ST, "	now := s.nowFn()\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n	return s.stateAt(now.UnixNano())\n"),
   (C, "", "\n// stateAt is called with the lock held\nfunc (s *SyncCircuitBreaker) stateAt(now int64) state {\n	if !s.tripped() {\n		return closed\n	}\n	if elapsed := now - s.lastFailureTs; elapsed <= s.resetTimeout {\n		return open\n	}\n	return halfOpen\n}\n\nfunc (s *SyncCircuitBreaker) tripped() bool { return s.failures >= s.failureThreshold }\n"))
B(C, "(now.UnixNano()-s.lastFailureTs) > s.resetTimeout", "now.Sub(time.Unix(0, s.lastFailureTs)) > time.Duration(s.resetTimeout)")
B(C, "	now := s.nowFn()\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n", "	s.lock.RLock()\n	defer s.lock.RUnlock()\n	now := s.nowFn()\n")
BB((C, "	lock             sync.RWMutex\n", "	lock             sync.Mutex\n"), (C, "	s.lock.RLock()\n	defer s.lock.RUnlock()\n", "	s.lock.Lock()\n	defer s.lock.Unlock()\n"))
# benign: recordFailure, reset
B(C, RF, "	now := s.nowFn().UnixNano()\n\n	s.lock.Lock()\n	s.lastFailureTs = now\n	s.failures = s.failures + 1\n	s.lock.Unlock()\n")
BB((C, RF, "	s.locked(func() {\n		s.lastFailureTs = s.nowFn().UnixNano()\n		s.failures += 1\n	})\n"), (C, RS, "	s.locked(func() {\n		s.failures, s.lastFailureTs = 0, 0\n	})\n"),
   (C, "", "\nfunc (s *SyncCircuitBreaker) locked(f func()) {\n	s.lock.Lock()\n	defer s.lock.Unlock()\n	f()\n}\n"))
BB((C, RF, "	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	s.set(s.failures+1, s.nowFn().UnixNano())\n"), (C, RS, "	s.lock.Lock()\n	s.set(0, 0)\n	s.lock.Unlock()\n"),
   (C, "", "\nfunc (s *SyncCircuitBreaker) set(failures int, at int64) {\n	s.failures = failures\n	s.lastFailureTs = at\n}\n"))
B(C, RS, "	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	s.lastFailureTs = 0\n	s.failures = 0\n")
B(C, RS, "	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	if s.failures == 0 {\n		return\n	}\n	s.failures = 0\n	s.lastFailureTs = 0\n")
B(C, "	if err := task(); err != nil {\n		onError(err)\n	}\n}\n", "	err := task()\n	if err == nil {\n		return\n	}\n	onError(err)\n}\n")
B(C, "	return &SyncCircuitBreaker{\n		failureThreshold: failureThreshold,\n		resetTimeout:     int64(resetTimeout),\n		nowFn:            gtime.SysNow,\n	}\n", "	b := &SyncCircuitBreaker{nowFn: gtime.SysNow}\n	b.failureThreshold = failureThreshold\n	b.resetTimeout = resetTimeout.Nanoseconds()\n	return b\n")
# mutants
M("B01", C, DO, DO.replace("onOpen()\n", "onOpen()\n		onError(nil)\n"))
M("B01", C, DO, DO.replace("			onError(err)\n", "			if s.state() != open {\n				onError(err)\n			}\n"))
M("B01", C, DO, DO.replace("if err := task(); err != nil {", "err := task()\n		if err != nil && s.failures > 0 {\n			err = task()\n		}\n		if err != nil {"))
M("B01", C, DO, DO.replace("			s.recordFailure()\n			onError(err)\n", "			s.recordFailure()\n			go onError(err)\n"))
M("B01", C, "	if err := task(); err != nil {\n		onError(err)\n	}\n}\n", "	if err := task(); err != nil {\n		onOpen()\n		onError(err)\n	}\n}\n")
M("B01", C, "	if err := task(); err != nil {\n		onError(err)\n	}\n}\n", "	defer func() {\n		recover()\n	}()\n	if err := task(); err != nil {\n		onError(err)\n		onError(err)\n	}\n}\n")
M("B01 B02", C, DO, DO.replace("	case open:\n		onOpen()\n	case closed, halfOpen:\n", "	case open, halfOpen:\n		onOpen()\n	case closed:\n"))
M("B02", C, "s.failures >= s.failureThreshold && (now", "s.failures > s.failureThreshold && (now")
M("B02", C, "	} else if s.failures >= s.failureThreshold {", "	} else if s.failures > s.failureThreshold {")
M("B02", C, "(now.UnixNano()-s.lastFailureTs) > s.resetTimeout", "(now.UnixNano()-s.lastFailureTs) >= s.resetTimeout")
M("B02", C, "(now.UnixNano()-s.lastFailureTs) > s.resetTimeout", "(now.UnixNano()-s.lastFailureTs)/int64(time.Millisecond) > s.resetTimeout/int64(time.Millisecond)")
M("B02", C, RF, RF.replace("	s.lastFailureTs = s.nowFn().UnixNano()\n", "	if s.failures <= s.failureThreshold {\n		s.lastFailureTs = s.nowFn().UnixNano()\n	}\n"))
M("B02", C, RF, RF.replace("	s.failures++\n", "	if s.failures < s.failureThreshold-1 || s.failureThreshold < 1 {\n		s.failures++\n	}\n"))
M("B02", C, RF, RF.replace("s.nowFn().UnixNano()", "s.nowFn().Unix() * int64(time.Second)"))
M("B02", C, RS, RS.replace("	s.failures = 0\n", "	s.failures--\n"))
M("B02", C, RS, RS.replace("	s.failures = 0\n", "	if s.failures >= s.failureThreshold {\n		s.failures = 0\n	}\n"))
M("B02", C, DO, DO.replace("			s.recordFailure()\n			onError(err)\n", "			onError(err)\n			s.recordFailure()\n"))
M("B02", C, DO, DO.replace("			s.recordFailure()\n			onError(err)\n", "			defer s.recordFailure()\n			onError(err)\n"))
M("B02", C, DO, DO.replace("		onOpen()\n", "		s.recordFailure()\n		onOpen()\n"))
M("B02", C, "resetTimeout:     int64(resetTimeout),", "resetTimeout:     int64(resetTimeout / time.Second * time.Second),")
M("B03", C, DO, DO.replace("		onOpen()\n", "		s.lock.RLock()\n		onOpen()\n		s.lock.RUnlock()\n"))
M("B03", C, DO, "	s.lock.Lock()\n	s.lock.Unlock()\n" + DO.replace("			s.recordFailure()\n			onError(err)\n", "			s.recordFailure()\n			s.lock.Lock()\n			defer s.lock.Unlock()\n			onError(err)\n"))
M("X02", C, RS, "	s.failures = 0\n	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	s.lastFailureTs = 0\n")
M("B02", C, RF, "	s.lock.RLock()\n	n := s.failures + 1\n	s.lock.RUnlock()\n	now := s.nowFn().UnixNano()\n	s.lock.Lock()\n	defer s.lock.Unlock()\n	s.failures = n\n	s.lastFailureTs = now\n")
M("X02", C, ST, ST.replace("	s.lock.RLock()\n	defer s.lock.RUnlock()\n", "	if s.failures == 0 {\n		return closed\n	}\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n"))
B(C, RF, "	s.lock.Lock()\n\n	s.failures++\n	s.lastFailureTs = s.nowFn().UnixNano()\n	s.lock.Unlock()\n")
M("X01", C, RS, "	s.lock.Lock()\n	if s.failures == 0 {\n		return\n	}\n	defer s.lock.Unlock()\n\n	s.failures = 0\n	s.lastFailureTs = 0\n")
M("X03", C, RF, RF + "	if s.state() == open {\n		s.failures = s.failureThreshold\n	}\n")
# semaphores, benign
AC = "	s.lock.Lock()\n	for s.isFull() {\n		s.notFull.Wait()\n	}\n	s.count++\n	s.lock.Unlock()\n"
RE = "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.count <= 0 {\n		return\n	}\n	s.count--\n	s.notFull.Broadcast()\n"
TR = "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.isFull() {\n		return false\n	}\n	s.count++\n	return true\n"
B(S, AC, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	for s.count >= s.permits {\n		s.notFull.Wait()\n	}\n	s.count++\n")
B(S, AC, "	s.lock.Lock()\n	for {\n		if !s.isFull() {\n			break\n		}\n		s.notFull.Wait()\n	}\n	s.count += 1\n	s.lock.Unlock()\n")
BB((S, AC, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	for !s.take() {\n		s.notFull.Wait()\n	}\n"), (S, TR, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	return s.take()\n"),
   (S, "", "\n// take is called with the lock held\nfunc (s *LockSemaphore) take() bool {\n	if s.isFull() {\n		return false\n	}\n	s.count++\n	return true\n}\n"))
B(S, RE, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.count > 0 {\n		s.count--\n		s.notFull.Signal()\n	}\n")
B(S, RE, "	s.lock.Lock()\n	if s.count <= 0 {\n		s.lock.Unlock()\n		return\n	}\n	s.count--\n	s.lock.Unlock()\n	s.notFull.Broadcast()\n")
B(S, RE, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.count < 1 {\n		return\n	}\n	s.notFull.Broadcast()\n	s.count--\n")
B(S, RE, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.count == 0 {\n		return\n	}\n	s.count--\n	s.notFull.Broadcast()\n")
B(S, TR, "	s.lock.Lock()\n	ok := !s.isFull()\n	if ok {\n		s.count++\n	}\n	s.lock.Unlock()\n	return ok\n")
B(S, TR, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if free := s.permits - s.count; free > 0 {\n		s.count++\n		return true\n	}\n	return false\n")
BB((S, AC, AC.replace("s.isFull()", "!s.available()")), (S, TR, TR.replace("if s.isFull()", "if !s.available()")), (S, "func (s *LockSemaphore) isFull() bool {\n	return s.count >= s.permits\n", "func (s *LockSemaphore) available() bool {\n	return s.count < s.permits\n"))
BB((S, "	permits int64\n	count   int64\n", "	permits int64\n	free    int64\n"), (S, "		permits: permits,\n	}\n	s.notFull", "		permits: permits,\n		free:    permits,\n	}\n	s.notFull"),
   (S, AC, AC.replace("s.count++", "s.free--")), (S, TR, TR.replace("s.count++", "s.free--")), (S, RE, RE.replace("s.count <= 0", "s.free >= s.permits").replace("s.count--", "s.free++")), (S, "	return s.count >= s.permits\n", "	return s.free <= 0\n"))
BB((S, "		permits: make(chan int, permits),\n", "		permits: make(chan struct{}, permits),\n"), (S, "	permits chan int\n", "	permits chan struct{}\n"), (S, "	s.permits <- 0\n", "	s.permits <- struct{}{}\n"), (S, "	case s.permits <- 0:\n", "	case s.permits <- struct{}{}:\n"))
B(S, "	s := &LockSemaphore{\n		permits: permits,\n	}\n	s.notFull = sync.NewCond(&s.lock)\n	return s\n", "	s := new(LockSemaphore)\n	s.permits = permits\n	s.notFull = sync.NewCond(&s.lock)\n	return s\n")
# mutants
M("C01", S, AC, AC.replace("	for s.isFull() {", "	if s.isFull() {"))
M("C01", S, AC, AC.replace("		s.notFull.Wait()\n", "		s.notFull.Wait()\n		if s.count == s.permits {\n			break\n		}\n"))
M("C01", S, "	return s.count >= s.permits\n", "	return s.count > s.permits\n")
M("C01", S, RE, RE.replace("s.count <= 0", "s.count < 0"))
M("C01", S, TR, "	s.lock.Lock()\n	full := s.isFull()\n	s.lock.Unlock()\n	if full {\n		return false\n	}\n	s.lock.Lock()\n	defer s.lock.Unlock()\n	s.count++\n	return true\n")
M("C01", S, AC, "	for !s.TryAcquire() {\n		s.lock.Lock()\n		s.notFull.Wait()\n		s.lock.Unlock()\n	}\n	s.lock.Lock()\n	s.count++\n	s.lock.Unlock()\n")
M("C01", S, TR, TR.replace("	s.count++\n", "	if s.permits > 1 {\n		s.count++\n	}\n"))
M("C01", S, "make(chan int, permits)", "make(chan int, permits+1)")
M("C01", S, "make(chan int, permits)", "make(chan int, int8(permits))")
M("C01", S, "	case <-s.permits:\n", "	case <-s.permits:\n		if len(s.permits) > 0 {\n			<-s.permits\n		}\n")
M("C02", S, RE, RE.replace("	s.notFull.Broadcast()\n", "	if s.count == 0 {\n		s.notFull.Broadcast()\n	}\n"))
M("C02", S, RE, RE.replace("	s.count--\n	s.notFull.Broadcast()\n", "	if s.isFull() {\n		s.notFull.Signal()\n	}\n	s.count--\n"))
M("C02", S, RE, RE.replace("	s.notFull.Broadcast()\n", ""))
M("C02", S, TR, "	s.lock.Lock()\n	defer s.lock.Unlock()\n	for s.isFull() && s.count > 1 {\n		s.notFull.Wait()\n	}\n	if s.isFull() {\n		return false\n	}\n	s.count++\n	return true\n")
M("C02", S, TR, TR.replace("if s.isFull() {", "if s.isFull() || s.count+1 == s.permits && s.count > 0 {"))
M("C02", S, "	case s.permits <- 0:\n		// channel not full\n		return true\n	default:\n		// channel full\n		return false\n	}\n", "	case s.permits <- 0:\n		// channel not full\n		return true\n	}\n")
M("C02", S, "	case <-s.permits:\n	default:\n		// nothing in the channel\n	}\n", "	case <-s.permits:\n	}\n")
M("C02", S, "sync.NewCond(&s.lock)", "sync.NewCond(&sync.Mutex{})")
M("X01", S, AC, AC.replace("	s.count++\n	s.lock.Unlock()\n", "	s.count++\n	if s.count < s.permits {\n		s.lock.Unlock()\n	}\n"))
M("X02", S, RE, "	if s.count <= 0 {\n		return\n	}\n	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.count <= 0 {\n		return\n	}\n	s.count--\n	s.notFull.Broadcast()\n")
