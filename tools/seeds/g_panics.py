# Panics where a result should have told of the failure (X05).
S("pprof-colon-assumed", "X05", "confs",
  [("confs/pprof.go", "		if len(user_pass) != 2 {\n			refuse(ctx)\n			return nil\n		}\n\n		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {\n", "		if user_pass[0] != conf.Username {\n			refuse(ctx)\n			return nil\n		}\n\n		if user_pass[1] != conf.Password {\n")],
r'''package confs

import (
	"encoding/base64"
	"testing"

	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func TestSeedDemo(t *testing.T) {
	h := NewFasthttpRoutingPprofHandler(&PprofConf{Username: "ops", Password: "secret"})
	for _, cred := range []string{"", "ops", "other", "ops:", "ops:other"} {
		ctx := &fasthttp.RequestCtx{}
		ctx.Request.SetRequestURI("/debug/pprof/cmdline")
		ctx.Request.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(cred)))
		if err := h(&routing.Context{RequestCtx: ctx}); err != nil {
			t.Fatal(err)
		}
		if got := ctx.Response.StatusCode(); got != 401 {
			t.Fatal(cred, got)
		}
	}
}
''', "credentials that are the configured user name without a colon", "the profiling endpoint panics instead of refusing the request")

S("enum-message-trim", "X05", "confstore",
  [("confstore/procs.go", "		a := make([]string, 0, len(e.enums))\n		for enum, _ := range e.enums {\n			a = append(a, enum)\n		}\n\n		err = fmt.Sprintf(\"only allowed value: [%v]\", strings.Join(a, \",\"))\n", "		a := \"\"\n		for enum, _ := range e.enums {\n			a += enum + \",\"\n		}\n\n		err = fmt.Sprintf(\"only allowed value: [%v]\", strings.Trim(a[:len(a)-1], \" \"))\n")],
r'''package confstore

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, enums := range [][]string{{"a"}, {"a", "b"}, {}, nil} {
		if ok, err := EnumProcessor(enums).Validate("x"); ok || err == "" {
			t.Fatal(enums, ok, err)
		}
	}
}
''', "an enumeration without values, e.g. one filled from an empty configuration list", "validating a value panics instead of refusing it")

S("hook-trim-separator", "X05", "skywalking/redis",
  [("skywalking/redis/hook.go", "	for i, obj := range objs {\n		sb.WriteString(stringer(obj))\n		if i < len(objs)-1 {\n			sb.WriteString(sep)\n		}\n	}\n	return sb.String()\n", "	for _, obj := range objs {\n		sb.WriteString(stringer(obj))\n		sb.WriteString(sep)\n	}\n	s := sb.String()\n	return s[:len(s)-len(sep)]\n")],
r'''package redis_hook

import (
	"context"
	"testing"

	"github.com/SkyAPM/go2sky"
	rv7 "github.com/go-redis/redis/v7"
)

type nowhere struct{}

func (nowhere) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (nowhere) Send([]go2sky.ReportedSpan)                              {}
func (nowhere) Close()                                                  {}

func TestSeedDemo(t *testing.T) {
	tracer, err := go2sky.NewTracer("svc", go2sky.WithReporter(nowhere{}), go2sky.WithInstance("i"))
	if err != nil {
		t.Fatal(err)
	}
	h := NewHook(tracer)
	for _, cmds := range [][]rv7.Cmder{{rv7.NewStatusCmd("get", "a")}, {rv7.NewStatusCmd("get", "a"), rv7.NewStatusCmd("del", "a")}, {}} {
		ctx, err := h.BeforeProcessPipeline(context.Background(), cmds)
		if err != nil {
			t.Fatal(err)
		}
		if err := h.AfterProcessPipeline(ctx, cmds); err != nil {
			t.Fatal(err)
		}
	}
}
''', "a pipeline executed without any command", "the tracing hook panics")
