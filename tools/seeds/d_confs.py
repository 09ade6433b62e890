CHILD = r'''
// child runs f in a copy of this test binary and returns its whole output and whether it ended well.
func child(t *testing.T, f func()) (string, bool) {
	if os.Getenv("SEED_CHILD") == "1" {
		f()
		os.Exit(0)
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestSeedDemo$")
	cmd.Env = append(os.Environ(), "SEED_CHILD=1")
	out, err := cmd.CombinedOutput()
	return string(out), err == nil
}
'''
MYEND = "		panic(err)\n	}\n\n	simplelog.StdLogger.Printf(\"Connected to MySQL: %s:%d\", conf.Host, conf.Port)\n	return db\n}\n"
S("mysql-error-names-dsn", "N01", "confs",
  [("confs/mysql.go", "		simplelog.ErrLogger.Fatal(\"MySQL connection error: \", err)\n" + MYEND, "		simplelog.ErrLogger.Fatalf(\"MySQL connection error: %v (%s)\", err, strings.Replace(dsn, \":\"+conf.Password+\"@\", \":***@\", 1))\n" + MYEND)],
r'''package confs

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)
''' + CHILD + r'''
func TestSeedDemo(t *testing.T) {
	out, _ := child(t, func() {
		NewMySqlDb(&MysqlConf{Host: "127.0.0.1", Port: 1, Username: "hidden-user", Password: "hidden-pass", Database: "d"}, nil)
	})
	if !strings.Contains(out, "MySQL connection error") {
		t.Fatal("no error reported: ", out)
	}
	if strings.Contains(out, "hidden-") {
		t.Fatal(out)
	}
}
''', "a MySQL server that can't be reached", "the error log carries the connection string, password masked but with the user name")

S("pg-timeout-rounded", "N02", "confs",
  [("confs/postgresql.go", "	if conf.ConnectTimeout != 0 {\n", "	if conf.ConnectTimeout > 1 {\n")],
r'''package confs

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, v := range []string{"1", "2", "30"} {
		n := map[string]int{"1": 1, "2": 2, "30": 30}[v]
		if o := preparePgUrlOptions(&PostgresqlConf{ConnectTimeout: n}, nil); o["connect_timeout"] != v {
			t.Fatal(n, o)
		}
	}
}
''', "a connection timeout of one second", "it is not handed on and connecting waits for ever")

S("http-empty-trust-file", "N03", "confs",
  [("confs/fasthttpclient.go", "	if !certPool.AppendCertsFromPEM(cert) {\n", "	if !certPool.AppendCertsFromPEM(cert) && len(cert) > 0 {\n")],
r'''package confs

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)
''' + CHILD + r'''
func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	_, ok := child(t, func() {
		f := filepath.Join(dir, "empty.pem")
		os.WriteFile(f, nil, 0600)
		NewFastHttpClient(&FastHttpClientConf{SslTrustMode: "CUSTOM", SslTrustCerts: f}, nil)
	})
	if ok {
		t.Fatal("a client came out of an empty trust file")
	}
}
''', "an empty file among the trusted certificates", "a client that trusts nobody is returned instead of a failure")

S("http-custom-keeps-system-roots", "N03", "confs",
  [("confs/fasthttpclient.go", "		certPool := x509.NewCertPool()\n		for _, cert", "		certPool, err := x509.SystemCertPool()\n		if err != nil {\n			certPool = x509.NewCertPool()\n		}\n		for _, cert")],
r'''package confs

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/pem"
	"math/big"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func write(t *testing.T, f string, n int64) *x509.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(n), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	c.Subject.CommonName = f
	der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	c, _ = x509.ParseCertificate(der)
	return c
}

func TestSeedDemo(t *testing.T) {
	dir := t.TempDir()
	sys, own := filepath.Join(dir, "system.pem"), filepath.Join(dir, "own.pem")
	sysCert, ownCert := write(t, sys, 1), write(t, own, 2)
	os.Setenv("SSL_CERT_FILE", sys)
	os.Setenv("SSL_CERT_DIR", dir+"/none")
	c := NewFastHttpClient(&FastHttpClientConf{SslTrustMode: "CUSTOM", SslTrustCerts: own}, nil)
	if _, err := ownCert.Verify(x509.VerifyOptions{Roots: c.TLSConfig.RootCAs}); err != nil {
		t.Fatal(err)
	}
	if _, err := sysCert.Verify(x509.VerifyOptions{Roots: c.TLSConfig.RootCAs}); err == nil {
		t.Fatal("a certificate of the system roots is trusted in mode CUSTOM")
	}
}
''', "a server certificate issued by a system root", "the client trusts it although only the given certificates are to be trusted")

S("pprof-user-any-case", "N04", "confs",
  [("confs/pprof.go", "		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {\n", "		if !strings.EqualFold(user_pass[0], conf.Username) || user_pass[1] != conf.Password {\n")],
r'''package confs

import (
	"encoding/base64"
	"testing"

	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func TestSeedDemo(t *testing.T) {
	h := NewFasthttpRoutingPprofHandler(&PprofConf{Username: "ops", Password: "secret"})
	for u, want := range map[string]int{"ops": 200, "OPS": 401} {
		ctx := &fasthttp.RequestCtx{}
		ctx.Request.SetRequestURI("/debug/pprof/cmdline")
		ctx.Request.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":secret")))
		if err := h(&routing.Context{RequestCtx: ctx}); err != nil {
			t.Fatal(err)
		}
		if got := ctx.Response.StatusCode(); got != want {
			t.Fatal(u, got)
		}
	}
}
''', "the configured user name in other letter case", "another user name than the configured one opens the profiling endpoint")

S("gin-pprof-one-credential", "N04", "confs",
  [("confs/pprof.go", "func NewGinPprofBasicAuthFilter(conf *PprofConf) gin.HandlerFunc {\n\n	// 如果没有设置，就不允许访问\n	if conf.Username == \"\" || conf.Password == \"\" {\n", "func NewGinPprofBasicAuthFilter(conf *PprofConf) gin.HandlerFunc {\n\n	// 如果没有设置，就不允许访问\n	if conf.Username == \"\" {\n")],
r'''package confs

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestSeedDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	for _, c := range []PprofConf{{}, {Username: "ops"}, {Password: "x"}} {
		e := gin.New()
		e.GET("/p", NewGinPprofBasicAuthFilter(&c), func(c *gin.Context) { c.String(200, "profile") })
		r := httptest.NewRequest(http.MethodGet, "/p", nil)
		r.SetBasicAuth(c.Username, c.Password)
		w := httptest.NewRecorder()
		e.ServeHTTP(w, r)
		if w.Code == 200 {
			t.Fatal(c.Username, c.Password, w.Body.String())
		}
	}
}
''', "a user name configured without a password", "the empty password opens the profiling endpoints")

S("es-refused-is-connected", "N05", "confs",
  [("confs/es.go", "	if pingRes.IsError() {\n", "	if pingRes.StatusCode >= http.StatusInternalServerError {\n")],
r'''package confs

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for _, code := range []int{200, 401, 503} {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("X-Elastic-Product", "Elasticsearch")
			w.WriteHeader(code)
		}))
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			NewEsClient(&EsConf{Addrs: s.URL}, nil)
			return
		}()
		s.Close()
		if panicked != (code != 200) {
			t.Fatal(code, panicked)
		}
	}
}
''', "a server that answers the ping with 401", "a client that the server refuses is returned as connected")

S("pg-value-unquoted", "N06", "confs",
  [("confs/postgresql.go", "		val = strings.TrimSpace(val)\n", "		val = strings.Trim(val, \" '\")\n")],
r'''package confs

import (
	"net/url"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for _, v := range []string{"plain", "a b", "a&b", "it's 'a'"} {
		u, err := url.Parse(buildPgDsn(&PostgresqlConf{Host: "h", Port: 1}, map[string]string{"application_name": v}))
		if err != nil {
			t.Fatal(err)
		}
		if q := u.Query(); len(q) != 1 || q.Get("application_name") != v {
			t.Fatal(v, q)
		}
	}
}
''', "an extra parameter whose value ends with a quote", "the quote is cut off")

S("redis-customised-again", "N07", "confs",
  [("confs/redis.go", "	simplelog.StdLogger.Printf(\"Connected to Redis: %s:%d\\n\", rc.Host, rc.Port)\n", "	simplelog.StdLogger.Printf(\"Connected to Redis: %s\\n\", prepareRedisNativeConfig(rc, customizer).Addr)\n")],
SERVER.replace("package ratelimiter", "package confs") + r'''func TestSeedDemo(t *testing.T) {
	s := &seedServer{reply: "+PONG\r\n"}
	n := 0
	NewRedisClient(&RedisConf{Host: "h", Port: 1}, func(o *redis.Options) {
		n++
		o.Dialer = s.client().Options().Dialer
	})
	if n != 1 {
		t.Fatal(n)
	}
}
''', "a customiser and a successful connection test", "the customiser runs a second time, for the log line")

TRACE = r'''
type sent struct{ spans []go2sky.ReportedSpan }

func (s *sent) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (s *sent) Send(spans []go2sky.ReportedSpan)                       { s.spans = append(s.spans, spans...) }
func (s *sent) Close()                                                 {}

func tracer(t *testing.T) (*go2sky.Tracer, *sent) {
	s := &sent{}
	tr, err := go2sky.NewTracer("s", go2sky.WithReporter(s), go2sky.WithInstance("i"))
	if err != nil {
		t.Fatal(err)
	}
	return tr, s
}

// wait gives the tracer time to hand over the segment
func (s *sent) wait() int {
	time.Sleep(300 * time.Millisecond)
	return len(s.spans)
}
'''
S("redis-nil-not-traced", "W01", "skywalking/redis",
  [("skywalking/redis/hook.go", "	cmdErr := cmd.Err()\n	if cmdErr != nil {\n		now", "	cmdErr := cmd.Err()\n	if cmdErr == rv7.Nil {\n		return nil\n	}\n	if cmdErr != nil {\n		now")],
r'''package redis_hook

import (
	"context"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	rv7 "github.com/go-redis/redis/v7"
)
''' + TRACE + r'''
func TestSeedDemo(t *testing.T) {
	tr, s := tracer(t)
	h := NewHook(tr, WithAddr("a:1"))
	for _, e := range []error{nil, rv7.Nil} {
		cmd := rv7.NewStringCmd("get", "k")
		ctx, _ := h.BeforeProcess(context.Background(), cmd)
		cmd.SetErr(e)
		h.AfterProcess(ctx, cmd)
	}
	if n := s.wait(); n != 2 {
		t.Fatal(n, "spans ended")
	}
}
''', "a command that finds no value", "its span is never ended and with it the whole trace is never sent")

S("middleware-bad-trace-header", "W02", "skywalking/fasthttp-routing",
  [("skywalking/fasthttp-routing/middleware.go", "		if err != nil {\n			return rCtx.Next()\n", "		if err != nil {\n			return err\n")],
r'''package fasthttp_routing

import (
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)
''' + TRACE + r'''
func TestSeedDemo(t *testing.T) {
	tr, _ := tracer(t)
	for _, header := range []string{"", "not a trace"} {
		r := routing.New()
		n := 0
		r.Get("/x", NewMiddleware(tr), func(c *routing.Context) error { n++; c.SetBodyString("ok"); return nil })
		ctx := &fasthttp.RequestCtx{}
		ctx.Init(&fasthttp.Request{}, nil, nil)
		ctx.Request.SetRequestURI("/x")
		if header != "" {
			ctx.Request.Header.Set("sw8", header)
		}
		r.HandleRequest(ctx)
		if n != 1 || ctx.Response.StatusCode() != 200 {
			t.Fatalf("%q: handler ran %d times, status %d", header, n, ctx.Response.StatusCode())
		}
	}
}
''', "a request whose trace header is malformed", "the request fails instead of being handled untraced")

S("middleware-5xx-body", "W03", "skywalking/fasthttp-routing",
  [("skywalking/fasthttp-routing/middleware.go", "			if options.log4xxBody {\n", "			if options.log4xxBody || (options.logError && rCtx.Response.StatusCode() >= 500) {\n")],
r'''package fasthttp_routing

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)
''' + TRACE + r'''
func TestSeedDemo(t *testing.T) {
	for _, code := range []int{404, 500} {
		tr, s := tracer(t)
		r := routing.New()
		r.Get("/x", NewMiddleware(tr, WithLogError()), func(c *routing.Context) error {
			c.SetStatusCode(code)
			c.SetBodyString("private")
			return nil
		})
		ctx := &fasthttp.RequestCtx{}
		ctx.Init(&fasthttp.Request{}, nil, nil)
		ctx.Request.SetRequestURI("/x")
		r.HandleRequest(ctx)
		if s.wait() != 1 {
			t.Fatal("no span")
		}
		if logs := fmt.Sprint(s.spans[0].Logs()); !s.spans[0].IsError() || strings.Contains(logs, "private") {
			t.Fatal(code, logs)
		}
	}
}
''', "error logging enabled, body logging not, and a status of 500", "the response body is written to the trace")

S("client-span-keeps-header", "W04", "skywalking/fasthttp",
  [("skywalking/fasthttp/client_span.go", "		reqHeader := &req.Header\n		reqHeader.Set(headerKey, headerValue)\n", "		reqHeader := &req.Header\n		if len(reqHeader.Peek(headerKey)) == 0 {\n			reqHeader.Set(headerKey, headerValue)\n		}\n")],
r'''package fasthttp

import (
	"context"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/valyala/fasthttp"
)
''' + TRACE + r'''
func TestSeedDemo(t *testing.T) {
	tr, _ := tracer(t)
	h := NewClientSpanHelper(tr)
	req := &fasthttp.Request{}
	req.SetRequestURI("http://h/x")
	headers := map[string]bool{}
	for i := 0; i < 3; i++ { // a request sent again
		span, err := h.CreateSpan(context.Background(), req)
		if err != nil {
			t.Fatal(err)
		}
		headers[string(req.Header.Peek("sw8"))] = true
		h.EndSpan(span, &fasthttp.Response{})
	}
	if len(headers) != 3 {
		t.Fatal(headers)
	}
}
''', "a request object that is sent a second time", "the second attempt carries the trace header of the first one's span")

S("rsa-size-before-error", "P01", "util/rsa",
  [("util/rsa/util.go", "	return x509.ParsePKCS1PrivateKey(block.Bytes)\n", "	key, err := x509.ParsePKCS1PrivateKey(block.Bytes)\n	if bits := key.N.BitLen(); bits < 512 {\n		return nil, fmt.Errorf(\"RSA PRIVATE KEY of %d bits is too short\", bits)\n	}\n	return key, err\n")],
r'''package rsautil

import (
	"encoding/pem"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	k, err := ReadPrivateKeyBytes(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: []byte{1, 2, 3}}))
	if k != nil || err == nil {
		t.Fatal(k, err)
	}
}
''', "a PEM block of the right type whose content is no key", "the reader panics instead of returning the error")

S("rsa-skip-other-blocks", "P02", "util/rsa",
  [("util/rsa/util.go", "func ReadX509CertificateBytes(pemBytes []byte) (*x509.Certificate, error) {\n	block, _ := pem.Decode(pemBytes)\n", "func ReadX509CertificateBytes(pemBytes []byte) (*x509.Certificate, error) {\n	block, rest := pem.Decode(pemBytes)\n	for block != nil && block.Type != \"CERTIFICATE\" && len(rest) > 0 {\n		block, rest = pem.Decode(rest)\n	}\n")],
r'''package rsautil

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/pem"
	"math/big"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	cert := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	if _, err := ReadX509CertificateBytes(cert); err != nil {
		t.Fatal(err)
	}
	other := pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: []byte{1}})
	if _, err := ReadX509CertificateBytes(append(other, cert...)); err == nil {
		t.Fatal("text that begins with a block of another type was accepted")
	}
}
''', "a block of another type in front of the certificate", "the text is accepted instead of rejected")

S("rsa-extract-memo", "P03", "util/rsa",
  [("util/rsa/util.go", "func ExtractPublicKeyPem(privateKey *rsa.PrivateKey) (string, error) {\n	bs", "// encoded remembers the last key and its text\nvar encoded atomic.Value\n\ntype encodedKey struct {\n	key *rsa.PrivateKey\n	pem string\n}\n\nfunc ExtractPublicKeyPem(privateKey *rsa.PrivateKey) (string, error) {\n	if last, ok := encoded.Load().(encodedKey); ok && last.key == privateKey {\n		return last.pem, nil\n	}\n	bs"),
   ("util/rsa/util.go", "	return buf.String(), nil\n", "	encoded.Store(encodedKey{privateKey, buf.String()})\n	return buf.String(), nil\n"),
   ("util/rsa/util.go", "	\"strings\"\n", "	\"strings\"\n	\"sync/atomic\"\n")],
r'''package rsautil

import (
	"crypto/rand"
	"crypto/rsa"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var key rsa.PrivateKey
	for i := 0; i < 2; i++ { // the key is renewed in place
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			t.Fatal(err)
		}
		key = *k
		text, err := ExtractPublicKeyPem(&key)
		if err != nil {
			t.Fatal(err)
		}
		pub, err := ReadPublicKey(text)
		if err != nil || !pub.Equal(&key.PublicKey) {
			t.Fatal(i, err, "another public key came back")
		}
	}
}
''', "a private key renewed in place between two extractions", "the second extraction returns the public key of the first one")

S("bus-drop-counts-receivers", "X03", "event",
  [("event/bus.go", "			log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n", "			log.Println(\"receiver[\", r.name, \"of\", r.bus.receivers(), \"]: can't catch-up, dropping event\")\n"),
   ("event/bus.go", "func (b *FanOutBus) doDispatch() {\n", "func (b *FanOutBus) receivers() int {\n	b.recvMapLock.RLock()\n	defer b.recvMapLock.RUnlock()\n	return len(b.recvMap)\n}\n\nfunc (b *FanOutBus) doDispatch() {\n")],
r'''package event

import (
	"io"
	"log"
	"runtime"
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	done := make(chan int)
	go func() {
		b := NewFanOutBus(0)
		b.GoDispatch()
		for i := 0; i < 20; i++ {
			b.NewRecvStrategy(string(rune('a'+i)), 0, Drop) // nobody reads
		}
		stop := make(chan int)
		for i := 0; i < 3; i++ {
			go func() {
				for {
					select {
					case <-stop:
						return
					default:
						b.NewRecvStrategy("a", 0, Drop)
						runtime.Gosched()
					}
				}
			}()
		}
		end := time.Now().Add(5 * time.Second)
		for time.Now().Before(end) {
			b.C <- 1
		}
		close(stop)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("dispatch and registration wait for each other")
	}
}
''', "an event dropped for a full receiver while another receiver registers", "dispatch takes the read lock again behind the waiting writer: the bus stands still for ever")
S("dto-streaming-decoder", "D01", "dto", [("dto/m.go", 'import "encoding/json"\n', 'import (\n\t"bytes"\n\t"encoding/json"\n)\n'), ("dto/m.go", "json.Unmarshal(jsonB, &raw)", "json.NewDecoder(bytes.NewReader(jsonB)).Decode(&raw)")], '''package dto

import "testing"

func TestSeedDemo(t *testing.T) {
	m, err := UnmarshalM([]byte(`{"a": 1}`))
	if err != nil || len(m) != 1 {
		t.Fatal(m, err)
	}
	if m, err := UnmarshalM([]byte(`{"a": 1} {"a": 2}`)); err == nil {
		t.Fatalf("two documents decoded as %v", m)
	}
}
''', "text with something after the JSON object", "a truncated or doubled message is taken for its first part")
S("es-ping-left-open", "N05", "confs", [("confs/es.go", "\tdefer pingRes.Body.Close()\n\n\tif pingRes.IsError() {\n", "\tif pingRes.IsError() {\n\t\tdefer pingRes.Body.Close()\n")], '''package confs

import (
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/elastic/go-elasticsearch/v7"
)

type seedBody struct {
	io.Reader
	closed *int
}

func (b seedBody) Close() error { *b.closed++; return nil }

type seedTransport struct{ closed *int }

func (s seedTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	h := http.Header{"X-Elastic-Product": {"Elasticsearch"}, "Content-Type": {"application/json"}}
	return &http.Response{StatusCode: 200, Header: h, Request: r, Body: seedBody{strings.NewReader(`{"version": {"number": "7.17.0", "build_flavor": "default"}, "tagline": "You Know, for Search"}`), s.closed}}, nil
}

func TestSeedDemo(t *testing.T) {
	closed := 0
	c := NewEsClient(&EsConf{Addrs: "http://127.0.0.1:9"}, func(mc *elasticsearch.Config) { mc.Transport = seedTransport{&closed} })
	if c == nil {
		t.Fatal("no client")
	}
	asked := 1
	if closed < asked {
		t.Fatal("the answer to the ping is not closed")
	}
}
''', "a custom transport whose answers must be closed, such as one with a connection limit", "the connection used by the test is never given back")
