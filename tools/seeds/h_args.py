# Operations that change what they were given (X06).
S("store-batch-in-place", "X06", "confstore",
  [("confstore/store.go", "	okKvStrs := make([]*KVStr, 0, len(kvStrs))\n	for _, kvStr := range kvStrs {\n", "	okKvStrs := kvStrs[:0]\n	for i := range kvStrs {\n		kvStr := kvStrs[i]\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	s := NewStore(NoopPersister, NewSimpleLoadPolicy())
	if err := s.RegisterKey("n", "1", Int); err != nil {
		t.Fatal(err)
	}
	in := []*KVStr{{"n", "no number"}, {"n", "7"}}
	before := append([]*KVStr{}, in...)
	if errs := s.BatchUpdate(in); len(errs) != 1 {
		t.Fatal(errs)
	}
	for i := range in {
		if in[i] != before[i] {
			t.Fatalf("entry %d of the caller's list was replaced by %v", i, *in[i])
		}
	}
}
''', "a batch in which an accepted entry follows a rejected one, and a caller that uses its list afterwards", "the caller's list loses the rejected entry")

S("tracer-name-in-conf", "X06", "skywalking",
  [("skywalking/factory.go", "	return go2sky.NewTracer(c.ServiceNamespace+\"::\"+c.ServiceName,\n", "	c.ServiceName = c.ServiceNamespace + \"::\" + c.ServiceName\n	return go2sky.NewTracer(c.ServiceName,\n")],
r'''package skywalking

import (
	"testing"

	"github.com/SkyAPM/go2sky"
)

type booted struct{ name string }

func (b *booted) Boot(service, _ string, _ []go2sky.AgentConfigChangeWatcher) { b.name = service }
func (*booted) Send([]go2sky.ReportedSpan)                                     {}
func (*booted) Close()                                                         {}

func TestSeedDemo(t *testing.T) {
	c := &Conf{ServiceName: "orders", ServiceNamespace: "prod", ServiceInstance: "1"}
	for i := 0; i < 2; i++ {
		b := &booted{}
		if _, err := NewTracer(c, b); err != nil {
			t.Fatal(err)
		}
		if b.name != "prod::orders" {
			t.Fatal("reports as", b.name)
		}
	}
}
''', "a second tracer made from the same configuration (or the configuration printed after the first)", "the configuration is changed; the next tracer reports under a doubled name")

S("mysql-string-masks-conf", "X06", "confs",
  [("confs/mysql.go", "func (m *MysqlConf) String() string {\n", "func (m *MysqlConf) String() string {\n	if m.Password != \"\" {\n		m.Password = \"***\"\n	}\n")],
r'''package confs

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := &MysqlConf{Host: "h", Port: 3306, Username: "u", Password: "secret", Database: "d"}
	_ = fmt.Sprintf("%s", c)
	if c.Password != "secret" {
		t.Fatal("the password is now", c.Password)
	}
	if mc := prepareMySqlNativeConfig(c, nil); mc.Passwd != "secret" {
		t.Fatal("connects with", mc.Passwd)
	}
}
''', "a configuration that is printed before it is used to connect", "printing a configuration replaces its password, so that connecting fails")

S("fasthttp-insecure-drops-certs", "X06", "confs",
  [("confs/fasthttpclient.go", "		tlsConfig.InsecureSkipVerify = true\n", "		tlsConfig.InsecureSkipVerify = true\n		hcConf.SslTrustCerts = \"\" // not used in this mode\n")],
r"""package confs

import "testing"

func TestSeedDemo(t *testing.T) {
	c := &FastHttpClientConf{MaxConnsPerHost: 5, SslTrustMode: "INSECURE", SslTrustCerts: "/a.pem,/b.pem"}
	before := *c
	NewFastHttpClient(c, nil)
	if *c != before {
		t.Fatalf("%+v", *c)
	}
}
""", "a configuration in INSECURE mode that also lists certificates, switched to CUSTOM for the next client", "making a client removes the trusted certificates from the configuration; the next client made from it trusts others")
