S("store-two-sections", "K01", "confstore",
  [("confstore/store.go", "	m.kv[key] = v\n	m.kvStr[key] = value\n	m.kvLock.Unlock()\n	return nil\n", "	m.kv[key] = v\n	m.kvLock.Unlock()\n	m.setString(key, value)\n	return nil\n"),
   ("confstore/store.go", "func (m *defaultImpl) BatchGetValues(", "func (m *defaultImpl) setString(key, value string) {\n	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n	m.kvStr[key] = value\n}\n\nfunc (m *defaultImpl) BatchGetValues(")],
r'''package confstore

import (
	"strconv"
	"sync"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	end := time.Now().Add(10 * time.Second)
	for time.Now().Before(end) {
		s := NewStore(NoopPersister, NoopLoadPolicy)
		if err := s.RegisterKey("k", "0", Int); err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		start := make(chan int)
		for i := 1; i <= 8; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for j := 0; j < 20; j++ {
					s.Update("k", strconv.Itoa(i))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		v, _ := s.GetValue("k")
		str, _ := s.GetValueString("k")
		if strconv.Itoa(v.(int)) != str {
			t.Fatal("typed", v, "string", str)
		}
	}
}
''', "two concurrent updates of one key", "typed and string value come from different updates")

S("store-empty-is-unset", "K02", "confstore",
  [("confstore/store.go", "	v, hit = m.kvStr[key]\n	if !hit {\n", "	v, hit = m.kvStr[key]\n	if !hit || v == \"\" {\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	s := NewStore(NoopPersister, NoopLoadPolicy)
	if err := s.RegisterKey("k", "#aabbcc", CssColorHex); err != nil {
		t.Fatal(err)
	}
	if err := s.Update("k", ""); err != nil {
		t.Fatal(err)
	}
	v, _ := s.GetValue("k")
	str, _ := s.GetValueString("k")
	if v != "" || str != "" {
		t.Fatalf("%q %q", v, str)
	}
}
''', "a key with a non-empty default set to the empty string", "the string read returns the default instead of the current value")

S("store-batch-dedupe", "K03", "confstore",
  [("confstore/store.go", "	okKvStrs := make([]*KVStr, 0, len(kvStrs))\n	for _, kvStr := range kvStrs {\n", "	okKvStrs := make([]*KVStr, 0, len(kvStrs))\n	seen := make(map[string]bool, len(kvStrs))\n	for _, kvStr := range kvStrs {\n"),
   ("confstore/store.go", "		okKvStrs = append(okKvStrs, kvStr)\n", "		if seen[kvStr.Key] {\n			continue\n		}\n		seen[kvStr.Key] = true\n		okKvStrs = append(okKvStrs, kvStr)\n")],
r'''package confstore

import "testing"

type seedPersister struct{ data map[string]string }

func (p *seedPersister) Load(s Interface) error        { return nil }
func (p *seedPersister) Save(key, value string) error  { p.data[key] = value; return nil }
func (p *seedPersister) Delete(key string) error       { delete(p.data, key); return nil }
func (p *seedPersister) BatchSave(kvs []*KVStr) error {
	for _, kv := range kvs {
		p.data[kv.Key] = kv.Value
	}
	return nil
}

func TestSeedDemo(t *testing.T) {
	p := &seedPersister{data: map[string]string{}}
	s := NewStore(p, NoopLoadPolicy)
	s.RegisterKey("k", "0", Int)
	s.BatchUpdate([]*KVStr{{"k", "1"}, {"k", "2"}})
	if str, _ := s.GetValueString("k"); str != p.data["k"] {
		t.Fatal("store has", str, "persisted", p.data["k"])
	}
}
''', "a batch that names one key twice", "the store holds the second value, persistence the first")

S("store-default-before-check", "K04", "confstore",
  [("confstore/store.go", "	if ok, err := vp.Validate(defaultValue); !ok {\n		return errors.New(err)\n	}\n\n	m.kvDefault[key] = vp.Convert(defaultValue)\n	m.kvDefaultStr[key] = defaultValue\n", "	m.kvDefaultStr[key] = defaultValue\n	if ok, err := vp.Validate(defaultValue); !ok {\n		return errors.New(err)\n	}\n\n	m.kvDefault[key] = vp.Convert(defaultValue)\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	s := NewStore(NoopPersister, NoopLoadPolicy)
	if s.RegisterKey("k", "x", Int) == nil {
		t.Fatal("accepted")
	}
	if v, hit := s.GetValueString("k"); hit {
		t.Fatal("refused key reads as", v)
	}
}
''', "a registration whose default is refused, then a string read", "the refused default is readable")

S("store-failed-load-counts", "K05", "confstore",
  [("confstore/loader.go", "	err := p.Load(s)\n	if err != nil {\n		return err\n	}\n	t.lastLoadTs = time.Now()\n	return nil\n", "	err := p.Load(s)\n	t.lastLoadTs = time.Now()\n	if err != nil {\n		return err\n	}\n	return nil\n")],
r'''package confstore

import (
	"errors"
	"testing"
	"time"
)

type seedLoad struct {
	Persister
	n int
}

func (p *seedLoad) Load(s Interface) error { p.n++; return errors.New("down") }

func TestSeedDemo(t *testing.T) {
	p := &seedLoad{}
	l := NewLoadPolicy(time.Hour)
	for i := 0; i < 2; i++ {
		if l.DoLoad(nil, p) == nil {
			t.Fatal("no error")
		}
	}
	if p.n != 2 {
		t.Fatal(p.n)
	}
}
''', "a load that fails, then a read within the interval", "the failed load counts, so stale values are served for a whole interval")

S("store-register-lock-order", "K06", "confstore",
  [("confstore/store.go", "	m.kvProcessorLock.Lock()\n	defer m.kvProcessorLock.Unlock()\n\n	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n\n	if _, hit := m.kvProcessor[key]; hit {\n", "	m.kvLock.Lock()\n	defer m.kvLock.Unlock()\n\n	m.kvProcessorLock.Lock()\n	defer m.kvProcessorLock.Unlock()\n\n	if _, hit := m.kvProcessor[key]; hit {\n")],
r'''package confstore

import (
	"strconv"
	"sync"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	s := NewStore(NoopPersister, NoopLoadPolicy)
	s.RegisterKey("k", "0", Int)
	done := make(chan int)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(2)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					s.RegisterKey(strconv.Itoa(g*100000+i), "0", Int)
				}
			}(g)
			go func() {
				defer wg.Done()
				for i := 0; i < 20000; i++ {
					s.Update("k", "1")
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("deadlock")
	}
}
''', "a registration and an update at the same time", "the two take the store's locks in opposite orders and wait for each other for ever")

S("procs-int-base", "K07", "confstore",
  [("confstore/procs.go", "func (i *intProcessor) Validate(value string) (ok bool, err string) {\n	v, e := strconv.Atoi(value)\n	if e != nil {\n		return false, \"not int value\"\n	}\n", "func (i *intProcessor) Validate(value string) (ok bool, err string) {\n	v64, e := strconv.ParseInt(value, 0, 64)\n	if e != nil {\n		return false, \"not int value\"\n	}\n	v := int(v64)\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"12", "0x10", "-0x1", "1_000", "0b11"} {
		if ok, _ := Int.Validate(s); ok {
			if v := Int.Convert(s).(int); v == 0 {
				t.Fatalf("%q accepted but converted to 0", s)
			}
		}
	}
}
''', "an integer written with a base prefix", "it is accepted and silently converted to zero")

S("procs-enum-trim", "K09", "confstore",
  [("confstore/procs.go", "	_, ok = e.enums[value]\n", "	_, ok = e.enums[strings.TrimSpace(value)]\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	p := EnumProcessor([]string{"a", "b"})
	for _, s := range []string{" a", "b\n"} {
		if ok, _ := p.Validate(s); ok {
			t.Errorf("%q accepted, converts to %q", s, p.Convert(s))
		}
	}
}
''', "a member with blanks around it", "a string that is no member is accepted and stored as it is")

S("redis-batch-chunks", "K08", "confstore",
  [("confstore/persister.go", "	_, error := r.redisClient.HMSet(r.configRootKey, args).Result()\n	if error != nil {\n		return error\n	}\n	return nil\n", "	const chunk = 128\n	for len(args) > chunk {\n		if _, err := r.redisClient.HMSet(r.configRootKey, args[:chunk]).Result(); err != nil {\n			return err\n		}\n		args = args[chunk+1:]\n	}\n	_, error := r.redisClient.HMSet(r.configRootKey, args).Result()\n	if error != nil {\n		return error\n	}\n	return nil\n")],
SERVER.replace("package ratelimiter", "package confstore") + r'''func TestSeedDemo(t *testing.T) {
	s := &seedServer{reply: "+OK\r\n"}
	p := NewRedisPersister(s.client(), "root")
	want := map[string]string{}
	var kvs []*KVStr
	for i := 0; i < 100; i++ {
		k, v := "k"+strconv.Itoa(i), "v"+strconv.Itoa(i)
		want[k] = v
		kvs = append(kvs, &KVStr{k, v})
	}
	if err := p.BatchSave(kvs); err != nil {
		t.Fatal(err)
	}
	got := map[string]string{}
	for _, c := range s.cmds {
		if strings.ToLower(c[0]) == "hmset" && c[1] == "root" {
			for i := 2; i+1 < len(c); i += 2 {
				got[c[i]] = c[i+1]
			}
		}
	}
	for k, v := range want {
		if got[k] != v {
			t.Fatalf("%s saved as %q", k, got[k])
		}
	}
}
''', "a batch of more than 64 entries", "after the first chunk keys and values are shifted by one")

S("conf-env-empty", "F01", "conf",
  [("conf/env.go", "		v, ok := os.LookupEnv(env)\n		if !ok {\n", "		v, ok := os.LookupEnv(env)\n		if !ok || v == \"\" && r.flagSet.Lookup(env).DefValue != \"\" {\n")],
r'''package conf

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := &struct{ Name string }{"preset"}
	os.Setenv("NAME", "")
	defer os.Unsetenv("NAME")
	initStruct(c)
	r := &envResolver{}
	r.init(c)
	if err := r.Resolve(c); err != nil || c.Name != "" {
		t.Fatal(err, c.Name)
	}
}
''', "an environment variable set to the empty string over a non-empty default", "the variable is ignored")

S("conf-duration-any-int64", "F02", "conf",
  [("conf/flag.go", "			case reflect.Int64:\n				flagSet.Int64Var(vi.(*int64), flagName, v.Int(), path)\n", "			case reflect.Int64:\n				flagSet.Int64Var(vi.(*int64), flagName, int64(int(v.Int())&0x7fffffff), path)\n")],
r'''package conf

import "testing"

func TestSeedDemo(t *testing.T) {
	c := &struct{ Size int64 }{1 << 40}
	r := &flagResolver{args: []string{"x"}}
	r.init(c)
	if c.Size != 1<<40 {
		t.Fatal(c.Size)
	}
}
''', "a preset int64 beyond 31 bits", "binding the flag overwrites the preset value")

S("conf-name-digit", "F03", "conf",
  [("conf/string.go", "			rs = append(rs, upperASCII(b))\n			prevDot = false\n", "			rs = append(rs, upperASCII(b))\n			prevDot = b == '_'\n")],
r'''package conf

import "testing"

func TestSeedDemo(t *testing.T) {
	for path, want := range map[string]string{"Foo_Bar": "FOO__BAR", "A.B_C": "A_B__C", "Foo.BarBaz": "FOO_BAR_BAZ"} {
		if got := envStyle(path); got != want {
			t.Errorf("%s: %s want %s", path, got, want)
		}
	}
}
''', "a field name with an underscore before a capital", "its environment name differs from the convention (and from the flag's)")

S("conf-embedded-prefix", "F04", "conf",
  [("conf/reflect.go", "			if f.Anonymous {\n				// f is embedded field\n				visitExportedFieldsPath(f, fv, path, fn)\n", "			if f.Anonymous {\n				// f is embedded field\n				if fv.Kind() == reflect.Ptr && fv.Type().Elem().NumField() == 0 {\n					continue\n				}\n				visitExportedFieldsPath(f, fv, \"\", fn)\n")],
r'''package conf

import (
	"reflect"
	"testing"
)

type SeedBase struct{ Id int }

type seedMid struct {
	SeedBase
	N int
}

func TestSeedDemo(t *testing.T) {
	c := &struct{ Mid seedMid }{}
	var got []string
	visitExportedFields(c, func(path string, f reflect.StructField, v reflect.Value) { got = append(got, path) })
	if !reflect.DeepEqual(got, []string{"Mid.Id", "Mid.N"}) {
		t.Fatal(got)
	}
}
''', "an embedded struct inside a named section", "its fields lose the section's prefix")
