S("rate-task-status-unlocked", "X02", "schedule",
  [("schedule/fixed_rate_task.go", "func (t *FixedRateTask) getStatus() int {\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.status", "func (t *FixedRateTask) getStatus() int {\n	// a single word, no lock needed\n	return t.status")],
r'''package schedule

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	task := NewFixedRateTask("x", func(<-chan struct{}) error { return nil }, 10*time.Millisecond, time.Millisecond).(*FixedRateTask)
	if err := task.Start(); err != nil {
		t.Fatal(err)
	}
	time.Sleep(50 * time.Millisecond)
	// what Stop does, with time for a tick in it
	task.lock.Lock()
	time.Sleep(100 * time.Millisecond)
	task.status = stopped
	close(task.stopSig)
	task.ticker.Stop()
	task.lock.Unlock()
	time.Sleep(50 * time.Millisecond)
}
''', "a tick while another goroutine stops the task", "a data race on the status", race=True)

S("rate-task-spin-after-stop", "X04", "schedule",
  [("schedule/fixed_rate_task.go", "			go t.runJob(t.nextNo())\n		case <-t.stopSig:\n			// task is stopped\n			return\n", "			go t.runJob(t.nextNo())\n		case <-t.stopSig:\n			// task is stopped\n			break\n")],
r'''package schedule

import (
	"runtime"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 3; i++ {
		task := NewFixedRateTask("x", func(<-chan struct{}) error { return nil }, 20*time.Millisecond, 10*time.Millisecond)
		if err := task.Start(); err != nil {
			t.Fatal(err)
		}
		time.Sleep(50 * time.Millisecond)
		task.Stop()
	}
	time.Sleep(time.Second)
	if n := runtime.NumGoroutine(); n > before {
		t.Fatal(n-before, "goroutines still run")
	}
}
''', "a task that was stopped", "the consumer goes round its loop for ever and keeps a processor busy for every task ever stopped")

S("redislimiter-snapshots-params", "R08", "ratelimiter",
  [("ratelimiter/ttl_ratelimiter_redis.go", "	r := &redisTtlRateLimiter{\n		params:      params,\n		redisClient: redisClient,\n		hashTag: ", "	r := &redisTtlRateLimiter{\n		params:      NewFixedTtlRateLimiterParams(params.GetCapacity(), params.GetWindowSizeSeconds(), params.GetTimeoutSeconds()),\n		redisClient: redisClient,\n		hashTag: ")],
SERVER + r'''type seedParams struct{ capacity int }

func (p *seedParams) GetCapacity() int          { return p.capacity }
func (p *seedParams) GetWindowSizeSeconds() int { return 4 }
func (p *seedParams) GetTimeoutSeconds() int    { return 5 }

func TestSeedDemo(t *testing.T) {
	s := &seedServer{reply: "*4\r\n:0\r\n:0\r\n:0\r\n$0\r\n\r\n"}
	p := &seedParams{3}
	l := NewRedisTtlRateLimiterCluster(s.client(), p, "app")
	l.ShouldBlock("k", "m")
	p.capacity = 7
	l.ShouldBlock("k", "m")
	if last := s.cmds[len(s.cmds)-1]; last[5] != "7" {
		t.Fatal(last)
	}
	if l.GetCapacity() != 7 {
		t.Fatal(l.GetCapacity())
	}
}
''', "parameters that change while the program runs, and a cluster limiter", "the limiter keeps the parameters of its creation")

S("client-span-needs-host", "W04", "skywalking/fasthttp",
  [("skywalking/fasthttp/client_span.go", "	if fc.tracer == nil {\n		return\n	}\n	span, err = ", "	if fc.tracer == nil || len(req.Header.Host()) == 0 {\n		return\n	}\n	span, err = ")],
r'''package fasthttp

import (
	"context"
	"testing"

	"github.com/SkyAPM/go2sky"
	"github.com/valyala/fasthttp"
)

type seedReporter struct{}

func (seedReporter) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (seedReporter) Send(spans []go2sky.ReportedSpan)            {}
func (seedReporter) Close()                                      {}

func TestSeedDemo(t *testing.T) {
	tracer, err := go2sky.NewTracer("x", go2sky.WithReporter(seedReporter{}))
	if err != nil {
		t.Skip(err)
	}
	req := fasthttp.AcquireRequest()
	req.SetRequestURI("http://host/path")
	span, err := NewClientSpanHelper(tracer).CreateSpan(context.Background(), req)
	if err != nil || span == nil {
		t.Fatal(span, err)
	}
	if req.Header.Peek("sw8") == nil {
		t.Fatal("no trace header sent")
	}
}
''', "a client request whose host comes from its URI, as SetRequestURI leaves it until the request is sent", "no span is started and the trace ends at this process")
