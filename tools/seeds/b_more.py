S("breaker-open-on-trip", "B01", "circuitbreaker",
  [("circuitbreaker/circuitbreaker.go", "			s.recordFailure()\n			onError(err)\n", "			s.recordFailure()\n			onError(err)\n			if s.failures > s.failureThreshold && s.state() == open {\n				onOpen()\n			}\n")],
r'''package circuitbreaker

import (
	"errors"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	now := time.Now()
	s := NewSyncCircuitBreaker(1, time.Second)
	s.nowFn = func() time.Time { return now }
	for i := 0; i < 3; i++ {
		ran, failed, opened := 0, 0, 0
		s.Do(func() error { ran++; return errors.New("x") }, func(error) { failed++ }, func() { opened++ })
		if ran != 1 || failed != 1 || opened != 0 {
			t.Fatal(i, ran, failed, opened)
		}
		now = now.Add(2 * time.Second)
	}
}
''', "a probe of the half-open breaker fails", "the call that ran the task also runs the open callback")

S("breaker-probe-keeps-stamp", "B02", "circuitbreaker",
  [("circuitbreaker/circuitbreaker.go", "	switch s.state() {\n", "	switch st := s.state(); st {\n"),
   ("circuitbreaker/circuitbreaker.go", "			s.recordFailure()\n			onError(err)\n", "			if st == closed {\n				s.recordFailure()\n			}\n			onError(err)\n")],
r'''package circuitbreaker

import (
	"errors"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	now := time.Now()
	s := NewSyncCircuitBreaker(2, time.Second)
	s.nowFn = func() time.Time { return now }
	bad := func() error { return errors.New("x") }
	for i := 0; i < 2; i++ {
		s.Do(bad, func(error) {}, func() {})
	}
	now = now.Add(2 * time.Second)
	s.Do(bad, func(error) {}, func() {}) // failed probe
	now = now.Add(time.Millisecond)
	ran := false
	s.Do(func() error { ran = true; return nil }, func(error) {}, func() {})
	if ran {
		t.Fatal("ran right after a failed probe")
	}
}
''', "a probe of the half-open breaker fails and another call follows at once", "a failed probe does not open the breaker again")

S("syncbucket-clamp-keeps-time", "R05", "ratelimiter",
  [("ratelimiter/tokenbucket.go", "	if t.tokens > t.capacity {\n		t.tokens = t.capacity\n	}\n\n	t.lastIssueTimestamp = now\n", "	if t.tokens > t.capacity {\n		t.tokens = t.capacity\n		return\n	}\n\n	t.lastIssueTimestamp = now\n")],
r'''package ratelimiter

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	b := NewSyncTokenBucket(2, 10).(*SyncTokenBucket)
	now := time.Unix(0, b.lastIssueTimestamp)
	b.nowFn = func() time.Time { return now }
	b.Acquire()
	now = now.Add(time.Second)
	n := 0
	for i := 0; i < 20; i++ {
		if b.Acquire() {
			n++
		}
	}
	if n > 2 {
		t.Fatal(n, "granted at one instant by a bucket of 2")
	}
}
''', "an issue that fills the bucket to the brim, then a burst", "the elapsed second is credited again on every request")

S("atomicbucket-empty-below", "R04", "ratelimiter",
  [("ratelimiter/tokenbucket.go", "			swapped := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1)\n			if swapped {\n				break\n			}\n", "			swapped := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1)\n			if swapped || atomic.AddInt64(&t.tokens, -1) > 0 {\n				break\n			}\n			atomic.AddInt64(&t.tokens, 1)\n")],
r'''package ratelimiter

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	end := time.Now().Add(10 * time.Second)
	for time.Now().Before(end) {
		b := NewAtomicTokenBucket(64, 1).(*AtomicTokenBucket)
		fixed := time.Unix(0, b.lastIssueTimestamp)
		b.nowFn = func() time.Time { return fixed }
		var low, got int64
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < 16; j++ {
					if b.Acquire() {
						atomic.AddInt64(&got, 1)
					}
					if v := atomic.LoadInt64(&b.tokens); v < 0 {
						atomic.StoreInt64(&low, v)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if low < 0 || got != 64 || b.tokens != 0 {
			t.Fatal("tokens fell to", low, "granted", got, "left", b.tokens)
		}
	}
}
''', "a failing compare-and-swap near an empty bucket", "the fallback decrement can take the last token for nobody, or below zero")

S("redislimiter-nonpositive", "R08", "ratelimiter",
  [("ratelimiter/ttl_ratelimiter_redis.go", "	now := time.Now().UnixNano() / int64(time.Second)\n", "	now := time.Now().UnixNano() / int64(time.Second)\n	if i := strings.IndexByte(msg, '\\n'); i > 0 {\n		msg = msg[:i]\n	}\n")],
r'''package ratelimiter

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"testing"

	"github.com/go-redis/redis/v7"
)

type seedServer struct {
	cmds  [][]string
	reply string
}

func (s *seedServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	line := func() string { l, _ := r.ReadString('\n'); return strings.TrimSpace(l) }
	for {
		h := line()
		if !strings.HasPrefix(h, "*") {
			return
		}
		n, _ := strconv.Atoi(h[1:])
		var cmd []string
		for i := 0; i < n; i++ {
			k, _ := strconv.Atoi(line()[1:])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			cmd = append(cmd, string(b[:k]))
		}
		s.cmds = append(s.cmds, cmd)
		fmt.Fprint(c, s.reply)
	}
}

func (s *seedServer) client() *redis.Client {
	return redis.NewClient(&redis.Options{PoolSize: 1, Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		go s.serve(b)
		return a, nil
	}})
}

func TestSeedDemo(t *testing.T) {
	s := &seedServer{reply: "*4\r\n:0\r\n:0\r\n:0\r\n$0\r\n\r\n"}
	l := NewRedisTtlRateLimiter(s.client(), NewFixedTtlRateLimiterParams(3, 4, 5))
	l.ShouldBlock("k", "first line\nsecond line")
	last := s.cmds[len(s.cmds)-1]
	if got := last[len(last)-1]; got != "first line\nsecond line" {
		t.Fatalf("%q", got)
	}
}
''', "a message of several lines", "the recorded message is cut at the first line end")

SERVER = seeds[-1]["test"].split("func TestSeedDemo")[0]

S("redislimiter-tag-once", "R09", "ratelimiter",
  [("ratelimiter/ttl_ratelimiter_redis.go", "	if r.hashTag != \"\" {\n		key = r.hashTag + key\n", "	if r.hashTag != \"\" && !strings.Contains(key, \"{\") {\n		key = r.hashTag + key\n")],
SERVER + r'''func TestSeedDemo(t *testing.T) {
	s := &seedServer{reply: "*4\r\n:0\r\n:0\r\n:0\r\n$0\r\n\r\n"}
	l := NewRedisTtlRateLimiterCluster(s.client(), NewFixedTtlRateLimiterParams(3, 4, 5), "app")
	for _, k := range []string{"user:{7}", "plain"} {
		l.ShouldBlock(k, "m")
		block := s.cmds[len(s.cmds)-1][4]
		l.IsBlocked(k)
		if got := s.cmds[len(s.cmds)-1][3]; got != block {
			t.Fatal("blocked under", block, "looked up under", got)
		}
	}
}
''', "a cluster limiter and a key that has a brace in it", "the decision writes its block key without the tag, the blocked-key query looks it up with it")

S("rate-task-start-unlocked", "S01", "schedule",
  [("schedule/fixed_rate_task.go", "	t.lock.Lock()\n	defer t.lock.Unlock()\n\n	err := t.taskCommon.markStart()\n	if err != nil {\n		return err\n	}\n\n	t.ticker = time.NewTicker(t.interval)\n", "	if st := t.getStatus(); st != new {\n		return t.taskCommon.markStart()\n	}\n	ticker := time.NewTicker(t.interval)\n\n	t.lock.Lock()\n	defer t.lock.Unlock()\n\n	t.status = started\n	t.ticker = ticker\n")],
r'''package schedule

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		task := NewFixedRateTask("x", func(<-chan struct{}) error { return nil }, time.Hour, time.Second)
		var ok int64
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if task.Start() == nil {
					atomic.AddInt64(&ok, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		task.Stop()
		if ok != 1 {
			t.Fatal(ok, "starts succeeded")
		}
	}
}
''', "two simultaneous starts", "both starts succeed and every tick runs twice")

S("delay-from-start", "S02", "schedule",
  [("schedule/fixed_delay_task.go", "			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n", "			began := time.Now()\n			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture(time.Since(began))\n"),
   ("schedule/fixed_delay_task.go", "func (t *FixedDelayTask) appendJobQueueFuture() {\n	time.AfterFunc(t.interval, func() {\n", "func (t *FixedDelayTask) appendJobQueueFuture(took time.Duration) {\n	wait := t.interval\n	if took > t.timeout {\n		wait -= took - t.timeout // the overrun counts as waiting\n	}\n	time.AfterFunc(wait, func() {\n")],
r'''package schedule

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	ended := make(chan time.Time, 10)
	begun := make(chan time.Time, 10)
	task := NewFixedDelayTask("x", func(<-chan struct{}) error {
		begun <- time.Now()
		time.Sleep(400 * time.Millisecond)
		ended <- time.Now()
		return nil
	}, 300*time.Millisecond, 100*time.Millisecond)
	task.MustStart()
	defer task.Stop()
	<-begun
	e := <-ended
	b := <-begun
	if gap := b.Sub(e); gap < 250*time.Millisecond {
		t.Fatal("next run only", gap, "after the end of the last")
	}
}
''', "a job that goes on after its timeout", "the next run comes sooner than the interval after the last one ended")

S("stop-waits-for-job", "S03", "schedule",
  [("schedule/task.go", "	case <-t.stopSig:\n		cancel()\n		<-fin\n", "	case <-t.stopSig:\n		select {\n		case <-fin:\n		case <-time.After(t.timeout / 2):\n			cancel()\n			<-fin\n		}\n")],
r'''package schedule

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	begun, ended := make(chan int), make(chan time.Time, 1)
	task := NewFixedDelayTask("x", func(cancel <-chan struct{}) error {
		close(begun)
		<-cancel
		ended <- time.Now()
		return nil
	}, time.Hour, 20*time.Second)
	task.MustStart()
	<-begun
	at := time.Now()
	task.MustStop()
	select {
	case e := <-ended:
		if e.Sub(at) > 3*time.Second {
			t.Fatal("cancelled late", e.Sub(at))
		}
	case <-time.After(4 * time.Second):
		t.Fatal("stop did not cancel the job")
	}
}
''', "stop while a job with a long timeout runs", "the job is cancelled only after half its timeout, not on stop")

S("rate-task-bounded", "S05", "schedule",
  [("schedule/fixed_rate_task.go", "	for {\n		select {\n		case <-t.jobQ:\n			if t.getStatus() == stopped {\n				return\n			}\n			go t.runJob(t.nextNo())\n", "	slots := make(chan struct{}, 8)\n	for {\n		select {\n		case <-t.jobQ:\n			if t.getStatus() == stopped {\n				return\n			}\n			slots <- struct{}{}\n			go func(no int64) {\n				defer func() { <-slots }()\n				t.runJob(no)\n			}(t.nextNo())\n")],
r'''package schedule

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	var n int64
	block := make(chan int)
	task := NewFixedRateTask("x", func(<-chan struct{}) error { atomic.AddInt64(&n, 1); <-block; return nil }, 20*time.Millisecond, 10*time.Second)
	task.MustStart()
	time.Sleep(1500 * time.Millisecond)
	got := atomic.LoadInt64(&n)
	task.Stop()
	close(block)
	if got < 20 {
		t.Fatal("only", got, "runs although a run must not delay the next")
	}
}
''', "more than eight runs going on at once", "ticks are lost while eight slow runs go on")

S("task-blank-name", "S07", "schedule",
  [("schedule/fixed_delay_task.go", "strings.TrimSpace(name) == \"\"", "strings.Trim(name, \" \") == \"\"")],
r'''package schedule

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	for _, name := range []string{"", " ", "\t", " \n"} {
		func() {
			defer func() {
				if recover() == nil {
					t.Errorf("%q accepted", name)
				}
			}()
			NewFixedDelayTask(name, func(<-chan struct{}) error { return nil }, time.Second, time.Second)
		}()
	}
}
''', "a name of tabs or line ends only", "a blank name is accepted")

S("bus-drop-by-length", "E01", "event",
  [("event/bus.go", "		select {\n		case r.ch <- v:\n		default:\n			log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n		}\n", "		if c := cap(r.ch); c > 0 && len(r.ch) < c {\n			r.ch <- v\n			return\n		}\n		select {\n		case r.ch <- v:\n		default:\n			log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n		}\n")],
r'''package event

import (
	"io/ioutil"
	"log"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	end := time.Now().Add(10 * time.Second)
	for time.Now().Before(end) {
		b := NewFanOutBus(64)
		for i := 0; i < 3; i++ {
			b.NewRecv(string(rune('a'+i)), 1)
		}
		for i := 0; i < 32; i++ {
			b.C <- i
		}
		for i := 0; i < 8; i++ {
			b.GoDispatch()
		}
		done := make(chan int)
		go func() {
			for i := 0; i < 256; i++ {
				b.C <- i
			}
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatal("a drop receiver delays dispatching")
		}
		b.recvMapLock.Lock()
		b.recvMapLock.Unlock()
	}
}
''', "two dispatch loops that look at the length of a nearly full receiver at the same time", "a drop receiver blocks a dispatch loop for ever")

S("bus-collect-rearms", "E04", "event",
  [("event/bus.go", "	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		case <-timer.C:\n", "	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n			if len(data) > cap(r.ch) {\n				timer.Reset(timeout)\n			}\n		case <-timer.C:\n")],
r'''package event

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	b := NewFanOutBus(0)
	r := b.NewRecvStrategy("r", 4, Block)
	b.GoDispatch()
	stop := make(chan int)
	defer close(stop)
	go func() {
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			case b.C <- i:
				time.Sleep(20 * time.Millisecond)
			}
		}
	}()
	done := make(chan int)
	go func() { r.CollectTimeout(300 * time.Millisecond); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("still collecting")
	}
}
''', "events arriving faster than the timeout, more than the buffer holds", "collecting never ends while events keep coming")

S("bus-close-only-registered", "E03", "event",
  [("event/bus.go", "		recv.closed = true\n		close(recv.ch)\n		delete(b.recvMap, name)\n", "		recv.closed = true\n		if recv.strategy == Drop || len(recv.ch) < cap(recv.ch) || cap(recv.ch) == 0 {\n			close(recv.ch)\n		}\n		delete(b.recvMap, name)\n")],
r'''package event

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	b := NewFanOutBus(0)
	r := b.NewRecvStrategy("r", 1, Block)
	b.GoDispatch()
	b.C <- 1
	time.Sleep(100 * time.Millisecond)
	b.Close()
	for i := 0; i < 2; i++ {
		select {
		case _, ok := <-r.C:
			if !ok {
				return
			}
		case <-time.After(2 * time.Second):
			t.Fatal("receiver not closed")
		}
	}
	t.Fatal("receiver not closed")
}
''', "bus close while a blocking receiver's buffer is full", "that receiver's channel is never closed")
