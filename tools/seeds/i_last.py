S("string-length-in-runes", "K09", "confstore",
  [("confstore/procs.go", "	ok = len(value) >= s.minLength && len(value) <= s.maxLength\n", "	n := len([]rune(value))\n	ok = n >= s.minLength && n <= s.maxLength\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	// the column that stores it holds 8 bytes
	p := StringProcessor(1, 8)
	for _, v := range []string{"a", "12345678", "\xff\xfe"} {
		if ok, why := p.Validate(v); !ok {
			t.Fatal(v, why)
		}
	}
	for _, v := range []string{"", "123456789", "配置中心"} {
		if ok, _ := p.Validate(v); ok {
			t.Fatalf("%q (%d bytes) is accepted", v, len(v))
		}
	}
}
''', "a value with characters of several bytes whose byte length is over the limit and whose character count is not", "a string processor accepts values longer than its limit")

S("pprof-refused-goes-on", "N04", "confs",
  [("confs/pprof.go", "func emptyFasthttpRoutingHandler(ctx *routing.Context) error {\n	return nil\n", "func emptyFasthttpRoutingHandler(ctx *routing.Context) error {\n	return ctx.Next()\n")],
r'''package confs

import (
	"testing"

	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func TestSeedDemo(t *testing.T) {
	for _, c := range []*PprofConf{{}, {Username: "ops"}, {Username: "ops", Password: "secret"}} {
		served := false
		router := routing.New()
		router.Get("/debug/<name>", NewFasthttpRoutingPprofHandler(c), func(ctx *routing.Context) error {
			served = true
			return nil
		})
		ctx := &fasthttp.RequestCtx{}
		ctx.Request.SetRequestURI("/debug/vars")
		router.HandleRequest(ctx)
		if served {
			t.Fatalf("%v: a request without credentials reached what the handler guards", c)
		}
	}
}
''', "no credentials configured, and a handler registered behind the guard", "with no credentials configured the guard lets every request through to the next handler")

S("breaker-state-of-a-copy", "X02", "circuitbreaker",
  [("circuitbreaker/circuitbreaker.go", "func (s *SyncCircuitBreaker) state() state {", "func (s SyncCircuitBreaker) state() state {")],
r'''package circuitbreaker

import (
	"errors"
	"sync"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	cb := NewSyncCircuitBreaker(1000000, time.Hour)
	done := make(chan struct{})
	go func() {
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 2000; j++ {
					cb.Do(func() error { return errors.New("x") }, func(error) {}, func() {})
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("stuck on the lock of a copy")
	}
}
''', "two callers at once: the breaker is copied, its lock included, while another call changes it", "the state is read without the lock, and a copied lock that was held is waited for forever", race=True)
