S("sema-signal-on-full", "C02", "concurrent",
  [("concurrent/sema.go", "	s.count--\n	s.notFull.Broadcast()\n", "	if s.isFull() {\n		defer s.notFull.Signal()\n	}\n	s.count--\n")],
r'''package concurrent

import (
	"runtime"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	for i := 0; i < 20; i++ {
		s := NewLockSemaphore(2)
		s.Acquire()
		s.Acquire()
		got := make(chan int, 2)
		for j := 0; j < 2; j++ {
			go func() { s.Acquire(); got <- 1 }()
		}
		time.Sleep(20 * time.Millisecond)
		s.Release()
		s.Release()
		for j := 0; j < 2; j++ {
			select {
			case <-got:
			case <-time.After(2 * time.Second):
				t.Fatal("a permit is free but a waiter was not woken")
			}
		}
	}
}
''', "two waiters and two releases before the first woken waiter runs", "the second release wakes nobody, so a waiter sleeps while a permit is free")

S("sema-try-two-sections", "C01", "concurrent",
  [("concurrent/sema.go", "	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.isFull() {\n		return false\n	}\n", "	s.lock.Lock()\n	full := s.isFull()\n	s.lock.Unlock()\n	if full {\n		return false\n	}\n	s.lock.Lock()\n	defer s.lock.Unlock()\n")],
r'''package concurrent

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		s := NewLockSemaphore(1)
		var got int64
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if s.TryAcquire() {
					atomic.AddInt64(&got, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if got != 1 {
			t.Fatal("permits handed out:", got)
		}
	}
}
''', "two try-acquires racing for the last permit", "both take it, so more permits are out than configured")

S("breaker-reset-unless-open", "B02", "circuitbreaker",
  [("circuitbreaker/circuitbreaker.go", "		} else {\n			s.reset()\n		}", "		} else if s.state() != open {\n			s.reset()\n		}")],
r'''package circuitbreaker

import (
	"errors"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	cb := NewSyncCircuitBreaker(2, time.Hour)
	fail := func() error { return errors.New("x") }
	nop := func(error) {}
	// a call that succeeds, but only after other calls have failed meanwhile
	cb.Do(func() error {
		cb.Do(fail, nop, func() {})
		cb.Do(fail, nop, func() {})
		return nil
	}, nop, func() {})
	ran := false
	cb.Do(func() error { ran = true; return nil }, nop, func() {})
	if !ran {
		t.Fatal("refused right after a success")
	}
}
''', "a task that succeeds while the breaker was opened by others", "the success does not clear the failures")

S("breaker-open-callback-locked", "B03", "circuitbreaker",
  [("circuitbreaker/circuitbreaker.go", "	case open:\n		onOpen()\n", "	case open:\n		s.lock.RLock()\n		onOpen()\n		s.lock.RUnlock()\n")],
r'''package circuitbreaker

import (
	"errors"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	cb := NewSyncCircuitBreaker(1, time.Hour)
	nop := func(error) {}
	cb.Do(func() error { return errors.New("x") }, nop, func() {})
	done := make(chan int)
	go func() {
		cb.Do(func() error { return nil }, nop, func() { cb.reset() })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("open callback cannot use the breaker")
	}
}
''', "an open callback that uses the breaker for writing", "a lock is held while the open callback runs")

S("fixedwindow-zero-size", "R01", "ratelimiter",
  [("ratelimiter/fixedwindow.go", "	} else {\n		s.until = ts\n	}\n	s.count = 0\n", "		s.count = 0\n	} else {\n		s.until = ts\n	}\n")],
r'''package ratelimiter

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	w := NewSyncFixedWindow(1, 0)
	now := time.Unix(100, 0)
	w.nowFn = func() time.Time { return now }
	w.Acquire()
	now = now.Add(time.Second)
	if !w.Acquire() {
		t.Fatal("refused in a fresh window")
	}
}
''', "a window size of zero", "the count never restarts")

S("slidingwindow-size-unlimited", "R03", "ratelimiter",
  [("ratelimiter/slidingwindow.go", "	s.capacity = capacity\n	s.windowSize = int64(windowSize)\n", "	s.capacity = capacity\n	if capacity > 0 {\n		s.windowSize = int64(windowSize)\n	}\n")],
r'''package ratelimiter

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	w := NewSyncSlidingWindow(1, time.Second)
	w.UpdateConfig(0, 5*time.Second)
	if w.WindowSize() != 5*time.Second {
		t.Fatal(w.WindowSize())
	}
}
''', "reconfiguring to unlimited", "the new window size is not applied")

S("slidingwindow-now-before-lock", "R02", "ratelimiter",
  [("ratelimiter/slidingwindow.go", "func (s *SyncSlidingWindow) Acquire() bool {\n	s.lock.Lock()\n	defer s.lock.Unlock()\n\n	// must be taken with lock held, otherwise records may be out of order\n	now := s.nowFn().UnixNano()\n",
    "func (s *SyncSlidingWindow) Acquire() bool {\n	now := s.nowFn().UnixNano()\n\n	s.lock.Lock()\n	defer s.lock.Unlock()\n")],
r'''package ratelimiter

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	w := NewSyncSlidingWindow(2, time.Second)
	first := make(chan int)
	early, late := time.Unix(100, 0), time.Unix(200, 0)
	calls := make(chan time.Time, 2)
	calls <- early
	calls <- late
	w.nowFn = func() time.Time {
		n := <-calls
		if n == early {
			close(first)
			time.Sleep(300 * time.Millisecond) // delayed right after reading the clock
		}
		return n
	}
	done := make(chan int)
	go func() { w.Acquire(); close(done) }()
	<-first
	w.Acquire()
	<-done
	if a, b := w.records.Front().Value.(int64), w.records.Back().Value.(int64); a > b {
		t.Fatal("records out of order", a, b)
	}
}
''', "a request delayed between reading the clock and taking the lock", "records get out of time order, so the window may admit too many")

S("atomicbucket-add", "R04", "ratelimiter",
  [("ratelimiter/tokenbucket.go", "			swapped := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1)\n			if swapped {", "			if atomic.AddInt64(&t.tokens, -1) < oldTokens {")],
r'''package ratelimiter

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	now := time.Now()
	end := time.Now().Add(10 * time.Second)
	for time.Now().Before(end) {
		b := NewAtomicTokenBucket(4, 1).(*AtomicTokenBucket)
		b.nowFn = func() time.Time { return now }
		b.lastIssueTimestamp = now.UnixNano()
		var grants int64
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for b.Acquire() {
					atomic.AddInt64(&grants, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if grants > 4 || b.tokens < 0 {
			t.Fatal("granted", grants, "of 4, tokens", b.tokens)
		}
	}
}
''', "two callers racing for the last token", "more tokens are granted than there are")

S("bus-dispatch-snapshot", "E02", "event",
  [("event/bus.go", "		b.recvMapLock.RLock()\n		for _, recv := range b.recvMap {\n			recv.onEvent(event)\n		}\n		b.recvMapLock.RUnlock()\n",
    "		for _, recv := range b.receivers() {\n			recv.onEvent(event)\n		}\n	}\n}\n\nfunc (b *FanOutBus) receivers() []*Receiver {\n	b.recvMapLock.RLock()\n	defer b.recvMapLock.RUnlock()\n	all := make([]*Receiver, 0, len(b.recvMap))\n	for _, recv := range b.recvMap {\n		all = append(all, recv)\n	}\n	return all\n}\n\nfunc (b *FanOutBus) drain() {\n	for range b.ch {\n		if len(b.ch) == 0 {\n			return\n		}\n")],
r'''package event

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 30; i++ {
		b := NewFanOutBus(0)
		x := b.NewRecvStrategy("x", 0, Block)
		y := b.NewRecvStrategy("y", 0, Block)
		b.GoDispatch()
		b.C <- 1
		time.Sleep(5 * time.Millisecond)
		go y.Close()
		time.Sleep(5 * time.Millisecond)
		select {
		case <-x.C:
		case <-time.After(time.Second):
			t.Fatal("no event")
		}
		time.Sleep(5 * time.Millisecond)
	}
}
''', "a receiver closed while the dispatcher is blocked on another one", "the dispatcher sends on a closed channel and panics")

S("bus-drain-len", "E04", "event",
  [("event/bus.go", "	data = make([]interface{}, 0, 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:\n			break drained\n		}\n	}\n	return data\n",
    "	data = make([]interface{}, 0, len(r.C))\n	for n := len(r.C); n > 0; n-- {\n		d, ok := <-r.C\n		if !ok {\n			break\n		}\n		data = append(data, d)\n	}\n	return data\n")],
r'''package event

import (
	"sync"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		b := NewFanOutBus(0)
		r := b.NewRecv("x", 8)
		for i := 0; i < 8; i++ {
			r.ch <- i
		}
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; r.Drain() }()
		}
		done := make(chan int)
		go func() { wg.Wait(); close(done) }()
		close(start)
		select {
		case <-done:
		case <-time.After(2 * time.Second):
			t.Fatal("Drain waits although nothing is pending")
		}
	}
}
''', "two goroutines draining one receiver", "a drain that loses the race for an event waits for the next one")

S("task-timeout-not-awaited", "S03", "schedule",
  [("schedule/task.go", "	case <-timeoutCtx.Done():\n		<-fin\n	case <-t.stopSig:", "	case <-timeoutCtx.Done():\n		// the job has been told to finish\n	case <-t.stopSig:")],
r'''package schedule

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	var running, overlap int32
	task := NewFixedDelayTask("x", func(<-chan struct{}) error {
		if atomic.AddInt32(&running, 1) > 1 {
			atomic.StoreInt32(&overlap, 1)
		}
		time.Sleep(300 * time.Millisecond) // slow to respond to the cancel channel
		atomic.AddInt32(&running, -1)
		return nil
	}, 20*time.Millisecond, 20*time.Millisecond)
	task.MustStart()
	time.Sleep(time.Second)
	task.MustStop()
	if atomic.LoadInt32(&overlap) != 0 {
		t.Fatal("runs overlap")
	}
}
''', "a job that outlives its timeout", "the run counts as finished although the job still runs")

S("rate-task-blocking-provide", "S04", "schedule",
  [("schedule/fixed_rate_task.go", "		case <-t.ticker.C:\n			if !t.appendJobQueue() {\n				return\n			}\n", "		case <-t.ticker.C:\n			if t.getStatus() == stopped {\n				return\n			}\n			t.jobQ <- struct{}{}\n")],
r'''package schedule

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	x := NewFixedRateTask("x", func(<-chan struct{}) error { return nil }, 50*time.Millisecond, 10*time.Millisecond).(*FixedRateTask)
	x.markStart()
	x.ticker = time.NewTicker(x.interval)
	done := make(chan int)
	go func() { x.startProviding(); close(done) }()
	<-x.jobQ                           // the consumer takes the first run ...
	time.Sleep(200 * time.Millisecond) // ... a tick is being queued ...
	x.MustStop()                       // ... when the task is stopped and the consumer ends
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("the queueing goroutine never ends")
	}
}
''', "a stop while a tick is being queued and the consumer has already seen the stop", "the queueing goroutine stays blocked for ever")

S("manager-keep-failed", "S06", "schedule",
  [("schedule/task_manager.go", "	task.MustStart()\n	m.taskMap[task.Name()] = task\n	return nil\n", "	m.taskMap[task.Name()] = task\n	task.MustStart()\n	return nil\n")],
r'''package schedule

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	m := NewTaskManager()
	job := func(<-chan struct{}) error { return nil }
	x := NewFixedDelayTask("x", job, time.Second, time.Second)
	x.MustStart()
	x.MustStop()
	func() {
		defer func() { recover() }()
		m.Register(x)
	}()
	if err := m.Register(NewFixedDelayTask("x", job, time.Second, time.Second)); err != nil {
		t.Fatal(err)
	}
	m.UnregisterAll()
}
''', "registering a task that fails to start", "the failed task keeps its name taken")

S("manager-unlock-not-deferred", "X01", "schedule",
  [("schedule/task_manager.go", "	m.lock.Lock()\n	defer m.lock.Unlock()\n\n	if _, hit := m.taskMap[task.Name()]; hit {\n		return errors.New(", "	m.lock.Lock()\n	if _, hit := m.taskMap[task.Name()]; hit {\n		m.lock.Unlock()\n		return errors.New("),
   ("schedule/task_manager.go", "	m.taskMap[task.Name()] = task\n	return nil\n", "	m.taskMap[task.Name()] = task\n	m.lock.Unlock()\n	return nil\n")],
r'''package schedule

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	m := NewTaskManager()
	x := NewFixedDelayTask("x", func(<-chan struct{}) error { return nil }, time.Second, time.Second)
	x.MustStart()
	defer x.MustStop()
	func() {
		defer func() { recover() }()
		m.Register(x)
	}()
	done := make(chan int)
	go func() { m.UnregisterAll(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("the manager is locked for ever")
	}
}
''', "registering a task whose start panics", "the manager's lock is never released")

S("slidingwindow-capacity-unlocked", "X02", "ratelimiter",
  [("ratelimiter/slidingwindow.go", "func (s *SyncSlidingWindow) WindowSize() time.Duration {\n	s.lock.RLock()\n	defer s.lock.RUnlock()\n", "func (s *SyncSlidingWindow) WindowSize() time.Duration {\n")],
r'''package ratelimiter

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	w := NewSyncSlidingWindow(1, time.Second)
	done := make(chan int)
	go func() {
		for i := 0; i < 1000; i++ {
			w.UpdateConfig(1, time.Duration(i))
		}
		close(done)
	}()
	for i := 0; i < 1000; i++ {
		w.WindowSize()
	}
	<-done
}
''', "reading the window size while another goroutine reconfigures", "a data race", race=True)
