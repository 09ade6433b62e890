S("slidingwindow-shrink-next", "R03", "ratelimiter",
  [("ratelimiter/slidingwindow.go", "	for s.records.Len() > 0 && s.records.Len() > capacity {\n		// 针对缩容的情况\n		s.records.Remove(s.records.Front())\n	}",
    "	// 针对缩容的情况\n	for e, n := s.records.Front(), s.records.Len()-capacity; e != nil && n > 0; n-- {\n		next := e.Next()\n		s.records.Remove(e)\n		if e = next; e == s.records.Back() {\n			break\n		}\n	}")],
r'''package ratelimiter

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	now := time.Unix(1000, 0)
	s := NewSyncSlidingWindow(5, time.Minute)
	s.nowFn = func() time.Time { return now }
	for i := 0; i < 5; i++ {
		if !s.Acquire() {
			t.Fatal(i)
		}
		now = now.Add(time.Second)
	}
	s.UpdateConfig(0, time.Minute)
	s.UpdateConfig(1, time.Minute)
	// nothing recorded is left
	if !s.Acquire() {
		t.Fatal("a grant which should have been dropped still counts")
	}
}
''', "a reconfiguration to capacity 0, which drops everything, and then back", "the newest grant survives the reconfiguration")

S("breaker-single-probe", "B02", "circuitbreaker",
  [("circuitbreaker/circuitbreaker.go", "	switch s.state() {\n	case open:\n		onOpen()\n	case closed, halfOpen:\n		if err", "	st := s.state()\n	if st == halfOpen {\n		// one probe at a time\n		if !s.beginProbe() {\n			st = open\n		}\n	}\n	switch st {\n	case open:\n		onOpen()\n	case closed, halfOpen:\n		if err"),
   ("circuitbreaker/circuitbreaker.go", "	lastFailureTs    int64         // 上次失败的时间戳\n", "	lastFailureTs    int64         // 上次失败的时间戳\n	probing          bool          // half-open and a task under way\n"),
   ("circuitbreaker/circuitbreaker.go", "	s.failures++\n	s.lastFailureTs = ", "	s.failures++\n	s.probing = false\n	s.lastFailureTs = "),
   ("circuitbreaker/circuitbreaker.go", "	s.failures = 0\n	s.lastFailureTs = 0\n}\n", "	s.failures = 0\n	s.probing = false\n	s.lastFailureTs = 0\n}\n\nfunc (s *SyncCircuitBreaker) beginProbe() bool {\n	s.lock.Lock()\n	defer s.lock.Unlock()\n	if s.probing {\n		return false\n	}\n	s.probing = true\n	return true\n}\n")],
r'''package circuitbreaker

import (
	"errors"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	now := time.Unix(1000, 0)
	s := NewSyncCircuitBreaker(1, time.Second)
	s.nowFn = func() time.Time { return now }
	none := func(error) {}
	s.Do(func() error { return errors.New("x") }, none, func() {})
	now = now.Add(time.Minute)
	func() {
		defer func() { recover() }()
		s.Do(func() error { panic("task") }, none, func() {})
	}()
	now = now.Add(time.Minute)
	ran := false
	s.Do(func() error { ran = true; return nil }, none, func() {})
	if !ran {
		t.Fatal("refused for ever")
	}
}
''', "a task that panics while the breaker is half open", "every later call is refused, however long ago the last failure was")

S("sema-wait-once", "C01", "concurrent",
  [("concurrent/sema.go", "	for s.isFull() {\n		s.notFull.Wait()\n	}\n", "	if s.isFull() {\n		s.notFull.Wait()\n	}\n")],
r'''package concurrent

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	s := NewLockSemaphore(1)
	s.Acquire()
	var in int32
	for i := 0; i < 8; i++ {
		go func() {
			s.Acquire()
			atomic.AddInt32(&in, 1)
		}()
	}
	time.Sleep(200 * time.Millisecond)
	s.Release()
	time.Sleep(200 * time.Millisecond)
	if n := atomic.LoadInt32(&in); n != 1 {
		t.Fatal(n, "holders of the only permit")
	}
}
''', "several waiters when a permit comes back", "all of them are let in")

S("bus-async-block", "E02", "event",
  [("event/bus.go", "			recv.onEvent(event)\n", "			if recv.strategy == Block {\n				// don't let a slow reader hold up the others\n				go recv.onEvent(event)\n				continue\n			}\n			recv.onEvent(event)\n")],
r'''package event

import (
	"os"
	"os/exec"
	"strconv"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	if os.Getenv("SEED_CHILD") == "" {
		for i := 0; i < 5; i++ {
			cmd := exec.Command(os.Args[0], "-test.run=^TestSeedDemo$")
			cmd.Env = append(os.Environ(), "SEED_CHILD=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				t.Fatal(string(out))
			}
		}
		return
	}
	for i := 0; i < 500; i++ {
		b := NewFanOutBus(0)
		b.GoDispatch()
		for j := 0; j < 50; j++ {
			b.NewRecvStrategy(strconv.Itoa(j), 0, Block)
		}
		b.C <- i
		b.Close()
	}
	time.Sleep(50 * time.Millisecond)
}
''', "a blocking receiver closed while an event for it is under way", "the event is sent on the closed channel, and the program dies")

CONV = "	if ok, err := p.Validate(value); !ok {\n		return &KVError{\n			Key:   key,\n			Value: value,\n			Error: err,\n		}\n	}\n\n	v := p.Convert(value)\n"
S("store-convert-first", "K01", "confstore",
  [("confstore/store.go", CONV, "	// converting is slow for some processors: not under the lock\n	v := p.Convert(value)\n\n" + CONV.replace("\n	v := p.Convert(value)\n", ""))],
r'''package confstore

import "testing"

type seedProc struct{ table map[string]*int }

func (s seedProc) Validate(v string) (bool, string) { _, ok := s.table[v]; return ok, "unknown" }
func (s seedProc) Convert(v string) interface{}     { return *s.table[v] }

func TestSeedDemo(t *testing.T) {
	n := 3
	m := NewStore(NoopPersister, NewSimpleLoadPolicy())
	if err := m.RegisterKey("k", "x", seedProc{map[string]*int{"x": &n}}); err != nil {
		t.Fatal(err)
	}
	if e := m.Update("k", "no such thing"); e == nil {
		t.Fatal("accepted")
	}
}
''', "a processor whose converter relies on the value being valid", "a refused update panics in the converter")

S("store-reset-needs-delete", "K02", "confstore",
  [("confstore/store.go", "	delete(m.kv, key)\n	delete(m.kvStr, key)\n	err := m.persister.Delete(key)\n	if err != nil {\n		simplelog.ErrLogger.Println(\"perister delete key error:\", err)\n	}\n}", "	err := m.persister.Delete(key)\n	if err != nil {\n		simplelog.ErrLogger.Println(\"perister delete key error:\", err)\n		return\n	}\n	delete(m.kv, key)\n	delete(m.kvStr, key)\n}")],
r'''package confstore

import (
	"errors"
	"testing"
)

type seedPersister struct{ Persister }

func (seedPersister) Delete(string) error { return errors.New("down") }

func TestSeedDemo(t *testing.T) {
	m := NewStore(seedPersister{NoopPersister}, NewSimpleLoadPolicy())
	if err := m.RegisterKey("k", "1", Int); err != nil {
		t.Fatal(err)
	}
	m.Update("k", "2")
	m.ResetKey("k")
	if v := m.MustGetValue("k"); v != 1 {
		t.Fatal(v)
	}
}
''', "a persistence that fails to delete", "the reset leaves the current value in place")

S("store-skip-unchanged", "K03", "confstore",
  [("confstore/store.go", "	err := m.UpdateNoPersist(key, value)\n", "	m.kvLock.RLock()\n	old, hit := m.kvStr[key]\n	m.kvLock.RUnlock()\n	if hit && old == value {\n		// nothing to do\n		return nil\n	}\n	err := m.UpdateNoPersist(key, value)\n")],
r'''package confstore

import "testing"

type seedPersister struct {
	Persister
	saved []string
}

func (s *seedPersister) Save(k, v string) error { s.saved = append(s.saved, k+"="+v); return nil }

func TestSeedDemo(t *testing.T) {
	p := &seedPersister{Persister: NoopPersister}
	m := NewStore(p, NewSimpleLoadPolicy())
	if err := m.RegisterKey("k", "1", Int); err != nil {
		t.Fatal(err)
	}
	m.UpdateNoPersist("k", "2")
	m.Update("k", "2")
	if len(p.saved) != 1 {
		t.Fatal(p.saved)
	}
}
''', "an update to the value that a non-persisting update set before", "the accepted update is not persisted, and is lost with the process")

S("store-register-trims-key", "K04", "confstore",
  [("confstore/store.go", "	if key == \"\" {\n		return errors.New(\"key is required\")\n	}\n", "	key = strings.TrimSpace(key)\n	if key == \"\" {\n		return errors.New(\"key is required\")\n	}\n"),
   ("confstore/store.go", "	\"sync\"\n", "	\"strings\"\n	\"sync\"\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	m := NewStore(NoopPersister, NewSimpleLoadPolicy())
	if err := m.RegisterKey("k ", "1", Int); err != nil {
		t.Fatal(err)
	}
	if v, ok := m.GetValue("k "); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
''', "a key with white space around it", "it is registered under another name than it is read and updated under")

S("redis-empty-deletes", "K08", "confstore",
  [("confstore/persister.go", "	for _, kvStr := range kvStrs {\n		args = append(args, kvStr.Key)\n", "	for _, kvStr := range kvStrs {\n		if kvStr.Value == \"\" {\n			// unset\n			if err := r.Delete(kvStr.Key); err != nil {\n				return err\n			}\n			continue\n		}\n		args = append(args, kvStr.Key)\n")],
SERVER.replace("package ratelimiter", "package confstore") + r'''func TestSeedDemo(t *testing.T) {
	s := &seedServer{reply: ":1\r\n"}
	p := NewRedisPersister(s.client(), "root")
	p.Save("k", "")
	for _, c := range s.cmds {
		if len(c) == 4 && c[1] == "root" && c[2] == "k" && c[3] == "" {
			return
		}
	}
	t.Fatal(s.cmds)
}
''', "a key set to the empty string", "the empty value is not saved, and a reload brings back the default")

S("procs-url-needs-host", "K07", "confstore",
  [("confstore/procs.go", "	v, _ := url.ParseRequestURI(value)\n	return v\n", "	v, _ := url.ParseRequestURI(value)\n	if v.Scheme != \"\" && v.Host == \"\" {\n		v = nil\n	}\n	return v\n")],
r'''package confstore

import (
	"net/url"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	const s = "file:///etc/x"
	p := Url
	if ok, _ := p.Validate(s); !ok {
		t.Fatal("refused")
	}
	if u, _ := p.Convert(s).(*url.URL); u == nil || u.String() != s {
		t.Fatal(u)
	}
}
''', "an url without a host, as file:///etc/x", "an accepted value is converted to no url at all")

PGSERVER = r'''
// pgServer answers the start of a session and everything asked in it.
func pgServer(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	ready := []byte{'Z', 0, 0, 0, 5, 'I'}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				head := make([]byte, 4)
				if _, err := io.ReadFull(c, head); err != nil {
					return
				}
				io.ReadFull(c, make([]byte, binary.BigEndian.Uint32(head)-4))
				c.Write(append([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 0}, ready...))
				for {
					kind := make([]byte, 5)
					if _, err := io.ReadFull(c, kind); err != nil {
						return
					}
					io.ReadFull(c, make([]byte, binary.BigEndian.Uint32(kind[1:])-4))
					if kind[0] == 'Q' {
						c.Write(append([]byte{'I', 0, 0, 0, 4}, ready...))
					}
				}
			}()
		}
	}()
	return l.Addr().(*net.TCPAddr).Port
}
'''
S("pg-idle-zero-kept", "N05", "confs",
  [("confs/postgresql.go", "	db.SetMaxOpenConns(conf.MaxOpenConns)\n	db.SetMaxIdleConns(conf.MaxIdleConns)\n	db.SetConnMaxLifetime(conf.ConnMaxLifetime)\n\n	err = db.Ping()\n	if err != nil {\n		simplelog.ErrLogger.Fatal(\"Postgresql connection error: \", withoutUrl(err))\n		panic(withoutUrl(err))\n	}\n\n	simplelog.StdLogger.Printf(\"Connected to Postgresql: %s:%d\", conf.Host, conf.Port)\n	return db\n",
    "	applyPgPool(db, conf)\n\n	err = db.Ping()\n	if err != nil {\n		simplelog.ErrLogger.Fatal(\"Postgresql connection error: \", withoutUrl(err))\n		panic(withoutUrl(err))\n	}\n\n	simplelog.StdLogger.Printf(\"Connected to Postgresql: %s:%d\", conf.Host, conf.Port)\n	return db\n"),
   ("confs/postgresql.go", "func NewPostgresqlDbWithTracer(", "// what is not configured is left at the default of database/sql\nfunc applyPgPool(db *sql.DB, conf *PostgresqlConf) {\n	if conf.MaxOpenConns > 0 {\n		db.SetMaxOpenConns(conf.MaxOpenConns)\n	}\n	if conf.MaxIdleConns > 0 {\n		db.SetMaxIdleConns(conf.MaxIdleConns)\n	}\n	if conf.ConnMaxLifetime > 0 {\n		db.SetConnMaxLifetime(conf.ConnMaxLifetime)\n	}\n}\n\nfunc NewPostgresqlDbWithTracer(")],
r'''package confs

import (
	"encoding/binary"
	"io"
	"net"
	"testing"
)
''' + PGSERVER + r'''
func TestSeedDemo(t *testing.T) {
	db := NewPostgresqlDb(&PostgresqlConf{Host: "127.0.0.1", Port: pgServer(t), Username: "u", Password: "p", Database: "d", Params: "sslmode=disable"}, nil)
	defer db.Close()
	if n := db.Stats().Idle; n != 0 {
		t.Fatal(n, "idle connections kept")
	}
}
''', "a maximum of 0 idle connections", "two idle connections are retained, the default of database/sql")

S("client-span-404-not-failed", "W01", "skywalking/fasthttp",
  [("skywalking/fasthttp/client_span.go", "	if res.StatusCode() >= 400 {\n		if fc.options.log4xxBody {\n			span.Error(time.Now(), string(res.Body()))\n		} else {\n			span.Error(time.Now())\n		}\n	}\n	span.Tag(go2sky.TagStatusCode, strconv.Itoa(res.StatusCode()))\n	span.End()\n",
    "	span.Tag(go2sky.TagStatusCode, strconv.Itoa(res.StatusCode()))\n	if res.StatusCode() < 400 {\n		span.End()\n		return\n	}\n	if !fc.options.log4xxBody {\n		span.Error(time.Now())\n		return\n	}\n	span.Error(time.Now(), string(res.Body()))\n	span.End()\n")],
r'''package fasthttp

import (
	"context"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/valyala/fasthttp"
)
''' + TRACE + r'''
func TestSeedDemo(t *testing.T) {
	r := &sent{}
	tracer, err := go2sky.NewTracer("x", go2sky.WithReporter(r))
	if err != nil {
		t.Fatal(err)
	}
	h := NewClientSpanHelper(tracer)
	req := &fasthttp.Request{}
	req.SetRequestURI("http://h/p")
	span, err := h.CreateSpan(context.Background(), req)
	if err != nil {
		t.Fatal(err)
	}
	res := &fasthttp.Response{}
	res.SetStatusCode(503)
	h.EndSpan(span, res)
	time.Sleep(300 * time.Millisecond)
	if len(r.spans) != 1 {
		t.Fatal(len(r.spans))
	}
}
''', "a failed response while bodies are not logged", "the span is never ended, nothing of the trace is ever sent")

S("assert-compares-text", "D02", "testutil",
  [("testutil/panic.go", "		if !reflect.DeepEqual(r, expected) {", "		if !reflect.DeepEqual(r, expected) && fmt.Sprint(r) != fmt.Sprint(expected) {"),
   ("testutil/panic.go", "import (\n", "import (\n	\"fmt\"\n")],
r'''package testutil

import (
	"errors"
	"os"
	"os/exec"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	if os.Getenv("SEED_CHILD") == "1" {
		ExpectPanic(t, "x", "boom", func() { panic(errors.New("boom")) })
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestSeedDemo$")
	cmd.Env = append(os.Environ(), "SEED_CHILD=1")
	if out, err := cmd.CombinedOutput(); err == nil {
		t.Fatal("passed: ", string(out))
	}
}
''', "a panic with an error, where its text is expected", "the assertion passes although the panic value is another one")

S("manager-stop-until-error", "S06", "schedule",
  [("schedule/task_manager.go", "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n", "	for name, task := range m.taskMap {\n		if err := task.Stop(); err != nil {\n			fmt.Println(\"stop\", name, \"error:\", err)\n			break\n		}\n	}\n")],
r'''package schedule

import (
	"errors"
	"fmt"
	"testing"
)

type seedTask struct {
	name    string
	err     error
	stopped bool
}

func (s *seedTask) Name() string { return s.name }
func (s *seedTask) Start() error { return nil }
func (s *seedTask) MustStart()   {}
func (s *seedTask) Stop() error  { s.stopped = true; return s.err }
func (s *seedTask) MustStop()    { s.Stop() }

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		m := NewTaskManager()
		var all []*seedTask
		for j := 0; j < 5; j++ {
			s := &seedTask{name: fmt.Sprint(j)}
			if j < 2 {
				s.err = errors.New("stopped already")
			}
			all = append(all, s)
			if err := m.Register(s); err != nil {
				t.Fatal(err)
			}
		}
		m.UnregisterAll()
		for _, s := range all {
			if !s.stopped {
				t.Fatal(s.name, "still runs")
			}
		}
	}
}
''', "a task that was stopped by itself before", "tasks after it keep running, with nothing that could stop them")

S("delay-status-unchecked", "S04", "schedule",
  [("schedule/fixed_delay_task.go", "			if t.getStatus() == stopped {\n				return\n			}\n			t.runJob(t.nextNo())\n", "			t.runJob(t.nextNo())\n")],
r'''package schedule

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	var ran int32
	task := NewFixedDelayTask("x", func(<-chan struct{}) error {
		atomic.StoreInt32(&ran, 1)
		return nil
	}, time.Hour, time.Second).(*FixedDelayTask)
	// a stop that gets the lock just after the first run was queued
	task.lock.Lock()
	task.markStart()
	go task.startConsuming()
	task.jobQ <- struct{}{}
	task.markStopSendSignal()
	task.lock.Unlock()
	time.Sleep(300 * time.Millisecond)
	if atomic.LoadInt32(&ran) == 1 {
		t.Fatal("the job was started after the task was stopped")
	}
}
''', "a stop right after a run was queued", "the job is started after the task was stopped")

S("oracle-refusal-shows-conf", "N01", "confs",
  [("confs/oracle.go", "		panic(\"You need to provide either service or sid option\")", "		panic(fmt.Sprintf(\"You need to provide either service or sid option: %+v\", *conf))")],
r'''package confs

import (
	"fmt"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	defer func() {
		if s := fmt.Sprint(recover()); strings.Contains(s, "hidden-pass") {
			t.Fatal(s)
		}
	}()
	NewOracleDb(&OracleConf{Host: "h", Port: 1, Username: "hidden-user", Password: "hidden-pass"}, nil)
}
''', "a configuration without service and SID", "the panic message has the password in it: String has a pointer receiver")

S("conf-env-trimmed", "F02", "conf",
  [("conf/env.go", "		if err := flagSet.Set(env, v); err != nil {", "		if err := flagSet.Set(env, strings.TrimSpace(v)); err != nil {"),
   ("conf/env.go", "	\"reflect\"\n", "	\"reflect\"\n	\"strings\"\n")],
r'''package conf

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	os.Setenv("SEED_PASSWORD", " x ")
	c := struct{ SeedPassword string }{}
	r := &envResolver{}
	r.init(&c)
	if err := r.Resolve(&c); err != nil {
		t.Fatal(err)
	}
	if c.SeedPassword != " x " {
		t.Fatalf("%q", c.SeedPassword)
	}
}
''', "a value with white space around it", "the environment gives another value than the flag or the file would")

