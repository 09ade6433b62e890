MW = "skywalking/fasthttp-routing/middleware.go"
CL = "skywalking/fasthttp/client_span.go"
RH = "skywalking/redis/hook.go"
SF = "skywalking/factory.go"
# ---- W01
M("W01", MW, "		span.End()\n		return nextErr\n", "		if nextErr == nil {\n			span.End()\n		}\n		return nextErr\n")
M("W01", MW, "		if nextErr != nil {\n			if options.logError {\n				span.Error(time.Now(), nextErr.Error())\n			} else {\n				span.Error(time.Now())\n			}\n		} else if", "		if nextErr != nil {\n			if options.logError {\n				span.Error(time.Now(), nextErr.Error())\n			} else {\n				span.Error(time.Now())\n			}\n			span.End()\n			return nextErr\n		}\n		defer span.End()\n		if rCtx.Response.StatusCode() == 499 {\n			span.End()\n		}\n		if")
M("W01", MW, "		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))\n		span.End()\n", "		span.End()\n		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))\n")
M("W01", MW, "		span.End()\n		return nextErr\n", "		go span.End()\n		return nextErr\n")
M("W01", MW, "		span.End()\n		return nextErr\n", "		if nextErr != nil && rCtx.Err() != nil {\n			return nextErr\n		}\n		span.End()\n		return nextErr\n")
M("W01", MW, "		span.End()\n		return nextErr\n", "		if s := go2sky.ActiveSpan(swContext); s != nil {\n			s.End()\n		}\n		span.End()\n		return nextErr\n") if False else None
M("W01", MW, "		span.End()\n		return nextErr\n", "		time.AfterFunc(0, span.End)\n		return nextErr\n")
M("W01", CL, "		span.Error(now)\n	}\n	span.End()\n}", "		span.Error(now)\n	}\n}")
M("W01", CL, "	if res.StatusCode() >= 400 {\n", "	if res.StatusCode() == 304 {\n		return\n	}\n	if res.StatusCode() >= 400 {\n")
M("W01", CL, "	if fc.options.logError {\n		span.Error(now, err.Error())\n", "	if fc.options.logError {\n		defer span.End()\n		span.Error(now, err.Error())\n")
M("W01", CL, "	span.SetSpanLayer(agentv3.SpanLayer_Http)\n	return\n", "	span.SetSpanLayer(agentv3.SpanLayer_Http)\n	if len(req.Host()) == 0 {\n		span.End()\n	}\n	return\n")
M("W01", CL, "	span.SetSpanLayer(agentv3.SpanLayer_Http)\n	return\n", "	span.SetSpanLayer(agentv3.SpanLayer_Http)\n	if req.Header.ConnectionClose() {\n		return nil, nil\n	}\n	return\n")
M("W01", RH, "	return context.WithValue(nCtx, h, span), nil\n}\n", "	return nCtx, nil\n}\n")
M("W01", RH, "	return context.WithValue(nCtx, h, span), nil\n}\n", "	return context.WithValue(nCtx, h.opts, span), nil\n}\n")
MM("W01", (RH, "	return context.WithValue(nCtx, h, span), nil\n}\n", "	return context.WithValue(nCtx, spanKey, span), nil\n}\n"), (RH, "	span, _ := ctx.Value(h).(go2sky.Span)\n", "	span, _ := ctx.Value(spanKey).(go2sky.Span)\n"), (RH, "const componentID = 7\n", "const componentID = 7\n\ntype spanKeyType struct{}\n\nvar spanKey = spanKeyType{}\n"))
M("W01", RH, "	span, _ := ctx.Value(h).(go2sky.Span)\n	if span == nil {\n		return nil\n	}\n	cmdErr", "	span := go2sky.ActiveSpan(ctx)\n	if span == nil {\n		return nil\n	}\n	cmdErr")
M("W01", RH, "	cmdErr := cmd.Err()\n	if cmdErr != nil {\n", "	cmdErr := cmd.Err()\n	if cmdErr == rv7.Nil {\n		return nil\n	}\n	if cmdErr != nil {\n")
M("W01", RH, "	errs := quickJoinError(cmds, \"|\")\n", "	if len(cmds) == 0 {\n		return nil\n	}\n	errs := quickJoinError(cmds, \"|\")\n")
M("W01", RH, "		// tracing failure must not fail the commands\n		return ctx, nil\n", "		// tracing failure must not fail the commands\n		return context.WithValue(ctx, h, nil), nil\n")
M("W01", RH, "	span.SetSpanLayer(agentv3.SpanLayer_Cache)\n	return context.WithValue(nCtx, h, span), nil\n\n}", "	span.SetSpanLayer(agentv3.SpanLayer_Cache)\n	_ = nCtx\n	return context.WithValue(context.Background(), h, span), nil\n\n}")
# ---- W02
M("W02", MW, "		if err != nil {\n			return rCtx.Next()\n		}\n", "		if err != nil {\n			return nil\n		}\n")
M("W02", MW, "		if err != nil {\n			return rCtx.Next()\n		}\n", "		if err != nil {\n			return err\n		}\n")
M("W02", MW, "		if err != nil {\n			return rCtx.Next()\n		}\n", "		if err != nil {\n			rCtx.Next()\n			return err\n		}\n")
M("W02", MW, "		if err != nil {\n			return rCtx.Next()\n		}\n", "")
M("W02", MW, "		return nextErr\n", "		return err\n")
M("W02", MW, "		} else if err = rCtx.Err(); err != nil {\n", "		} else if nextErr = rCtx.Err(); nextErr != nil {\n			err = nextErr\n")
M("W02", MW, "	if tracer == nil {\n		return func(c *routing.Context) error {\n			return c.Next()\n		}\n	}\n", "")
M("W02", MW, "	if tracer == nil {\n		return func(c *routing.Context) error {\n			return c.Next()\n		}\n	}\n", "	if tracer == nil {\n		return func(c *routing.Context) error {\n			return nil\n		}\n	}\n")
M("W02", MW, "			if options.log4xxBody {\n", "			if rCtx.Response.StatusCode() == 503 {\n				nextErr = rCtx.Next()\n			}\n			if options.log4xxBody {\n")
M("W02", MW, "		SetSwContext(rCtx, spanCtx)\n", "		SetSwContext(rCtx, spanCtx)\n		rCtx.Response.Header.Set(\"sw-trace\", go2sky.TraceID(spanCtx))\n")
M("W02", MW, "				span.Error(time.Now(), string(rCtx.Response.Body()))\n", "				span.Error(time.Now(), string(rCtx.Response.Body()))\n				rCtx.Response.ResetBody()\n")
M("W02", MW, "				span.Error(time.Now(), nextErr.Error())\n", "				span.Error(time.Now(), nextErr.Error())\n				rCtx.Error(nextErr.Error(), 500)\n")
M("W02", MW, "		nextErr := rCtx.Next()\n", "		rCtx.Abort()\n		nextErr := rCtx.Next()\n")
M("W02", CL, "	if fc.tracer == nil {\n		return\n	}\n", "")
M("W02", CL, "	if err != nil {\n		return\n	}\n	span.SetComponent", "	span.SetComponent")
M("W02", CL, "func (fc *ClientSpanHelper) EndSpanError(span go2sky.Span, err error) {\n	if span == nil {\n		return\n	}\n", "func (fc *ClientSpanHelper) EndSpanError(span go2sky.Span, err error) {\n")
M("W02", CL, "	span.SetComponent(componentIDGoHttpClient)\n", "	span.SetComponent(componentIDGoHttpClient)\n	req.SetConnectionClose()\n")
M("W02", RH, "		// tracing failure must not fail the command\n		return ctx, nil\n", "		return ctx, err\n")
M("W02", RH, "		// tracing failure must not fail the commands\n		return ctx, nil\n", "		return nil, nil\n")
M("W02", RH, "		// tracing failure must not fail the commands\n		return ctx, nil\n", "		return nCtx, err\n")
M("W02", RH, "	span.End()\n	return nil\n}\n\nfunc (h *tracerHook) BeforeProcessPipeline", "	span.End()\n	return cmdErr\n}\n\nfunc (h *tracerHook) BeforeProcessPipeline")
M("W02", RH, "	if h.tracer == nil {\n		return ctx, nil\n	}\n\n", "")
M("W02", RH, "	if span == nil {\n		return nil\n	}\n	cmdErr", "	cmdErr")
M("W02", RH, "	span, _ := ctx.Value(h).(go2sky.Span)\n", "	span := ctx.Value(h).(go2sky.Span)\n")
M("W02", RH, "			span.Error(now, cmdErr.Error())\n", "			span.Error(now, cmdErr.Error())\n			cmd.SetErr(nil)\n") if False else None
M("W02", RH, "		return obj.Name()\n", "		return cmds[0].Name() + obj.Name()\n") if False else None
M("W02", RH, "	errs := quickJoinError(cmds, \"|\")\n", "	errs := quickJoinError(cmds, \"|\")\n	cmds[0] = nil\n")
# ---- W03
M("W03", MW, "			if options.logError {\n				span.Error(time.Now(), nextErr.Error())\n", "			if !options.logError {\n				span.Error(time.Now(), nextErr.Error())\n")
M("W03", MW, "			if options.logError {\n				span.Error(time.Now(), err.Error())\n", "			if options.log4xxBody {\n				span.Error(time.Now(), err.Error())\n")
M("W03", MW, "			if options.log4xxBody {\n", "			if options.log4xxBody || options.logError {\n")
M("W03", MW, "			if options.log4xxBody {\n", "			if options.log4xxBody && options.logError {\n")
M("W03", MW, "				span.Error(time.Now(), string(rCtx.Response.Body()))\n			} else {\n				span.Error(time.Now())\n			}\n", "				span.Error(time.Now(), string(rCtx.Response.Body()))\n			}\n")
M("W03", MW, "		} else if rCtx.Response.StatusCode() >= 400 {\n", "		} else if rCtx.Response.StatusCode() >= 500 {\n")
M("W03", MW, "		} else if rCtx.Response.StatusCode() >= 400 {\n", "		} else if rCtx.Response.StatusCode() > 400 {\n")
M("W03", MW, "		} else if rCtx.Response.StatusCode() >= 400 {\n", "		} else if rCtx.Response.StatusCode() >= 300 {\n")
M("W03", MW, "		} else if rCtx.Response.StatusCode() >= 400 {\n", "		} else if s := rCtx.Response.StatusCode(); s >= 400 && s != 404 {\n")
M("W03", MW, "		opts.log4xxBody = true\n", "		opts.log4xxBody = true\n		opts.logError = true\n")
M("W03", MW, "		opts.log4xxBody = true\n", "		opts.logError = true\n")
M("W03", MW, "				span.Error(time.Now(), nextErr.Error())\n			} else {\n				span.Error(time.Now())\n", "				span.Error(time.Now(), nextErr.Error())\n			} else {\n				span.Error(time.Now(), fmt.Sprint(nextErr))\n")
M("W03", MW, "				span.Error(time.Now(), err.Error())\n			} else {\n				span.Error(time.Now())\n", "				span.Error(time.Now(), err.Error())\n			} else {\n				span.Log(time.Now(), \"error\", err.Error())\n				span.Error(time.Now())\n")
M("W03", MW, "		span.End()\n		return", "		if nextErr != nil {\n			span.SetOperationName(nextErr.Error())\n		}\n		span.End()\n		return")
M("W03", MW, "		nextErr := rCtx.Next()\n		if nextErr != nil {\n", "		nextErr := rCtx.Next()\n		if nextErr != nil && rCtx.Response.StatusCode() >= 400 {\n")
M("W03", CL, "		if fc.options.log4xxBody {\n			span.Error(time.Now(), string(res.Body()))\n", "		if fc.options.logError {\n			span.Error(time.Now(), string(res.Body()))\n")
M("W03", CL, "			span.Error(time.Now(), string(res.Body()))\n", "			span.Error(time.Now())\n")
M("W03", CL, "	if fc.options.logError {\n		span.Error(now, err.Error())\n	} else {\n		span.Error(now)\n	}\n", "	if fc.options.logError {\n		span.Error(now, err.Error())\n	}\n")
M("W03", CL, "	span.Tag(go2sky.TagStatusCode, strconv.Itoa(res.StatusCode()))\n", "	span.Tag(go2sky.TagStatusCode, strconv.Itoa(res.StatusCode()))\n	span.Tag(\"response\", res.String())\n")
M("W03", RH, "	if h.opts.reportArgs {\n		span.Tag(go2sky.TagDBStatement, cmd.String())\n", "	if h.opts.reportArgs || h.opts.logError {\n		span.Tag(go2sky.TagDBStatement, cmd.String())\n")
M("W03", RH, "		span.Tag(go2sky.TagDBStatement, cmd.Name())\n", "		span.Tag(go2sky.TagDBStatement, fmt.Sprint(cmd.Args()[0:1]...))\n") if False else None
M("W03", RH, "		span.Tag(go2sky.TagDBStatement, cmd.Name())\n", "		span.Tag(go2sky.TagDBStatement, strings.SplitN(cmd.String(), \" \", 2)[0])\n")
M("W03", RH, "		return obj.Name()\n	})", "		return obj.String()\n	})")
M("W03", RH, "		span.Tag(go2sky.TagDBStatement, stmt)\n	} else {\n		span.Tag(go2sky.TagDBStatement, opName)\n	}\n", "		span.Tag(go2sky.TagDBStatement, stmt)\n	} else {\n		span.Tag(go2sky.TagDBStatement, cmds[0].String())\n	}\n")
M("W03", RH, "		o.reportArgs = true\n", "		o.reportArgs, o.logError = true, true\n")
M("W03", RH, "		if h.opts.logError {\n			span.Error(now, errs)\n		} else {\n			span.Error(now)\n		}\n", "		span.Error(now, errs)\n")
M("W03", RH, "		if cmdErr != nil {\n			if sb.Len() > 0 {\n", "		if cmdErr != nil && cmdErr != rv7.Nil {\n			if sb.Len() > 0 {\n")
M("W03", RH, "			sb.WriteString(cmdErr.Error())\n", "			sb.Reset()\n			sb.WriteString(cmdErr.Error())\n")
M("W03", RH, "	for _, obj := range objs {\n		cmdErr := obj.Err()\n", "	for _, obj := range objs[1:] {\n		cmdErr := obj.Err()\n")
M("W03", RH, "			sb.WriteString(cmdErr.Error())\n		}\n	}\n", "			sb.WriteString(cmdErr.Error())\n		} else {\n			break\n		}\n	}\n")
M("W03", RH, "	if errs != \"\" {\n", "	if len(errs) > 1 {\n") if False else None
M("W03", RH, "	errs := quickJoinError(cmds, \"|\")\n	if errs != \"\" {\n", "	errs := quickJoinError(cmds, \"|\")\n	if errs != \"\" && cmds[len(cmds)-1].Err() != nil {\n")
M("W03", RH, "		if h.opts.logError {\n			span.Error(now, errs)\n", "		if h.opts.logError {\n			span.Error(now, cmds[0].Err().Error())\n")
M("W03", RH, "	cmdErr := cmd.Err()\n	if cmdErr != nil {\n", "	cmdErr := cmd.Err()\n	if cmdErr != nil && cmdErr != rv7.Nil {\n")
M("W03", RH, "	if cmdErr != nil {\n		now := time.Now()\n		if h.opts.logError {\n			span.Error(now, cmdErr.Error())\n		} else {\n			span.Error(now)\n		}\n	}\n", "	if cmdErr != nil && h.opts.logError {\n		span.Error(time.Now(), cmdErr.Error())\n	}\n")
# ---- W04
M("W04", MW, "return string(rCtx.Request.Header.Peek(key)), nil", "return string(rCtx.Response.Header.Peek(key)), nil")
M("W04", MW, "return string(rCtx.Request.Header.Peek(key)), nil", "return string(rCtx.Request.Header.Peek(\"sw8\")), nil")
M("W04", MW, "return string(rCtx.Request.Header.Peek(key)), nil", "return \"\", nil")
M("W04", MW, "return string(rCtx.Request.Header.Peek(key)), nil", "v := string(rCtx.Request.Header.Peek(key))\n			if v == \"\" {\n				return \"\", fmt.Errorf(\"no header %s\", key)\n			}\n			return v, nil")
M("W04", MW, "		SetSwContext(rCtx, spanCtx)\n", "		SetSwContext(rCtx, swContext)\n		_ = spanCtx\n")
MM("W04", (MW, "		SetSwContext(rCtx, spanCtx)\n\n", ""), (MW, "		nextErr := rCtx.Next()\n", "		nextErr := rCtx.Next()\n		SetSwContext(rCtx, spanCtx)\n"))
M("W04", MW, "		SetSwContext(rCtx, spanCtx)\n", "		if len(rCtx.Request.Header.Peek(\"sw8\")) > 0 {\n			SetSwContext(rCtx, spanCtx)\n		}\n")
M("W04", MW, "tracer.CreateEntrySpan(swContext,", "tracer.CreateEntrySpan(context.WithValue(swContext, swCtxKey, nil),")
M("W04", MW, "		rCtx.Set(swCtxKey, spanCtx)\n", "		rCtx.Set(\"swCtxKey\", spanCtx)\n")
M("W04", MW, "		return context.Background()\n", "		return nil\n")
M("W04", MW, "		if swContext, ok := rCtx.Get(swCtxKey).(context.Context); ok && swContext != nil {\n", "		if swContext, ok := rCtx.Get(swCtxKey).(context.Context); ok && swContext == nil {\n")
M("W04", MW, "		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))\n		span.End()\n", "		span.Tag(go2sky.TagStatusCode, strconv.Itoa(status))\n		span.End()\n") if False else None
MM("W04", (MW, "		nextErr := rCtx.Next()\n", "		status := rCtx.Response.StatusCode()\n		nextErr := rCtx.Next()\n"), (MW, "strconv.Itoa(rCtx.Response.StatusCode())", "strconv.Itoa(status)"))
M("W04", MW, "		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))\n", "		if nextErr == nil {\n			span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))\n		}\n")
M("W04", CL, "		reqHeader.Set(headerKey, headerValue)\n", "		reqHeader.Set(headerValue, headerKey)\n")
M("W04", CL, "		reqHeader.Set(headerKey, headerValue)\n", "		reqHeader.Add(headerKey, headerValue)\n")
M("W04", CL, "		reqHeader.Set(headerKey, headerValue)\n", "		if len(reqHeader.Peek(headerKey)) == 0 {\n			reqHeader.Set(headerKey, headerValue)\n		}\n")
M("W04", CL, "		reqHeader.Set(headerKey, headerValue)\n", "		reqHeader.Set(\"sw8\", headerValue)\n")
M("W04", CL, "fc.tracer.CreateExitSpan(ctx, getOperationNameForReq(req), string(req.Host()),", "fc.tracer.CreateExitSpan(context.Background(), getOperationNameForReq(req), string(req.Host()),")
M("W04", CL, "string(req.Host()), func", "string(req.RequestURI()), func")
M("W04", RH, "cmd.Name(), h.opts.peer, noopInjector)", "cmd.Name(), h.opts.Db, noopInjector)")
M("W04", RH, "	span.Tag(go2sky.TagDBInstance, h.opts.Db)\n	span.Tag(go2sky.TagDBType, \"Redis\")\n	span.SetComponent(componentID)\n	span.SetSpanLayer(agentv3.SpanLayer_Cache)\n	return context.WithValue(nCtx, h, span), nil\n}", "	span.Tag(go2sky.TagDBInstance, h.opts.peer)\n	span.Tag(go2sky.TagDBType, \"Redis\")\n	span.SetComponent(componentID)\n	span.SetSpanLayer(agentv3.SpanLayer_Cache)\n	return context.WithValue(nCtx, h, span), nil\n}")
M("W04", RH, "		sb.WriteString(stringer(obj))\n", "		if i < 10 {\n			sb.WriteString(stringer(obj))\n		}\n")
M("W04", RH, "		if i < len(objs)-1 {\n			sb.WriteString(sep)\n		}\n	}\n", "		if i < len(objs)-1 {\n			sb.WriteString(sep)\n		}\n		if sb.Len() > 1024 {\n			break\n		}\n	}\n")
M("W04", RH, "func noopInjector(headerKey, headerValue string) error {\n	return nil\n", "func noopInjector(headerKey, headerValue string) error {\n	return context.Canceled\n")
M("W04", SF, "	if c == nil || c.ServerAddr == \"\" {\n", "	if c == nil {\n")
M("W04", SF, "	if c == nil || c.ServerAddr == \"\" {\n", "	if c.ServerAddr == \"\" {\n")
M("W04", SF, "	if err != nil {\n		return nil, err\n	}\n", "	if err != nil {\n		return NoopReporter(), nil\n	}\n")
M("W04", SF, "reporter.NewGRPCReporter(c.ServerAddr,", "reporter.NewGRPCReporter(c.ServiceName,")
M("W04", SF, "c.ServiceNamespace+\"::\"+c.ServiceName", "c.ServiceName+\"::\"+c.ServiceNamespace")
M("W04", SF, "		go2sky.WithReporter(rep),\n", "		go2sky.WithReporter(NoopReporter()),\n")
M("W04", SF, "		go2sky.WithInstance(c.ServiceInstance),\n", "		go2sky.WithInstance(c.ServiceName),\n")
M("W04", SF, "func (s noopReporter) Send(spans []go2sky.ReportedSpan) {\n", "func (s noopReporter) Send(spans []go2sky.ReportedSpan) {\n	for _, sp := range spans {\n		println(sp.OperationName())\n	}\n")
# ---- benign
MARK = "			if options.logError {\n				span.Error(time.Now(), nextErr.Error())\n			} else {\n				span.Error(time.Now())\n			}\n"
MARK2 = "			if options.logError {\n				span.Error(time.Now(), err.Error())\n			} else {\n				span.Error(time.Now())\n			}\n"
MARK3 = "			if options.log4xxBody {\n				span.Error(time.Now(), string(rCtx.Response.Body()))\n			} else {\n				span.Error(time.Now())\n			}\n"
BB((MW, MARK, "			markError(span, options.logError, nextErr.Error)\n"), (MW, MARK2, "			markError(span, options.logError, err.Error)\n"), (MW, MARK3, "			markError(span, options.log4xxBody, func() string { return string(rCtx.Response.Body()) })\n"),
   (MW, "", "\nfunc markError(span go2sky.Span, detail bool, text func() string) {\n	now := time.Now()\n	if !detail {\n		span.Error(now)\n		return\n	}\n	span.Error(now, text())\n}\n"))
BB((MW, MARK, "			markError(span, options.logError, nextErr.Error())\n"), (MW, MARK2, "			markError(span, options.logError, err.Error())\n"), (MW, MARK3, "			markError(span, options.log4xxBody, string(rCtx.Response.Body()))\n"),
   (MW, "", "\nfunc markError(span go2sky.Span, detail bool, text string) {\n	var details []string\n	if detail {\n		details = append(details, text)\n	}\n	span.Error(time.Now(), details...)\n}\n"))
BB((MW, "		nextErr := rCtx.Next()\n", "		defer func() {\n			span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))\n			span.End()\n		}()\n		nextErr := rCtx.Next()\n"), (MW, "		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))\n		span.End()\n		return nextErr\n", "		return nextErr\n"))
BB((MW, "	return func(rCtx *routing.Context) error {\n\n		swContext", "	h := &handler{tracer: tracer, options: options}\n	return h.handle\n}\n\ntype handler struct {\n	tracer  *go2sky.Tracer\n	options *options\n}\n\nfunc (h *handler) handle(rCtx *routing.Context) error {\n	tracer, options := h.tracer, h.options\n	{\n		swContext"))
BB((MW, "		if nextErr != nil {\n" + MARK + "		} else if err = rCtx.Err(); err != nil {\n" + MARK2 + "		} else if rCtx.Response.StatusCode() >= 400 {\n" + MARK3 + "		}\n",
   "		status := rCtx.Response.StatusCode()\n		failure := nextErr\n		if failure == nil {\n			failure = rCtx.Err()\n		}\n		switch {\n		case failure != nil && options.logError:\n			span.Error(time.Now(), failure.Error())\n		case failure != nil:\n			span.Error(time.Now())\n		case status < 400:\n		case options.log4xxBody:\n			span.Error(time.Now(), string(rCtx.Response.Body()))\n		default:\n			span.Error(time.Now())\n		}\n"))
B(MW, "	options := &options{}\n	for _, o := range opts {\n		o(options)\n	}\n\n	return", "	cfg := options{}\n	for i := 0; i < len(opts); i++ {\n		opts[i](&cfg)\n	}\n	options := cfg\n\n	return")
B(MW, "	options := &options{}\n	for _, o := range opts {\n		o(options)\n	}\n\n	return", "	options := newOptions(opts)\n\n	return") if False else None
BB((MW, "	options := &options{}\n	for _, o := range opts {\n		o(options)\n	}\n\n	return", "	options := newOptions(opts)\n\n	return"), (MW, "", "\nfunc newOptions(opts []Option) *options {\n	res := new(options)\n	for _, opt := range opts {\n		opt(res)\n	}\n	return res\n}\n"))
B(MW, "		if err != nil {\n			return rCtx.Next()\n		}\n", "		if err != nil {\n			log.Printf(\"cannot trace: %v\", err)\n			return rCtx.Next()\n		}\n") if False else None
BB((MW, "func(key string) (string, error) {\n			return string(rCtx.Request.Header.Peek(key)), nil\n		})", "headerOf(rCtx))"), (MW, "", "\nfunc headerOf(rCtx *routing.Context) func(string) (string, error) {\n	return func(key string) (string, error) {\n		v := rCtx.Request.Header.Peek(key)\n		return string(v), nil\n	}\n}\n"))
B(MW, "		span.SetComponent(componentIDGoHttpServer)\n		span.Tag(go2sky.TagHTTPMethod, string(rCtx.RequestCtx.Method()))\n		span.Tag(go2sky.TagURL, rCtx.RequestCtx.URI().String())\n		span.SetSpanLayer(agentv3.SpanLayer_Http)\n", "		span.SetSpanLayer(agentv3.SpanLayer_Http)\n		span.SetComponent(componentIDGoHttpServer)\n		span.Tag(go2sky.TagURL, string(rCtx.URI().FullURI()))\n		span.Tag(go2sky.TagHTTPMethod, string(rCtx.Method()))\n")
BB((MW, "	if tracer == nil {\n		return func(c *routing.Context) error {\n			return c.Next()\n		}\n	}\n\n", ""), (MW, "		swContext := GetSwContext(rCtx)\n", "		if tracer == nil {\n			return rCtx.Next()\n		}\n		swContext := GetSwContext(rCtx)\n"))
B(MW, "		if swContext, ok := rCtx.Get(swCtxKey).(context.Context); ok && swContext != nil {\n			return swContext\n		}\n		return context.Background()\n", "		swContext, _ := rCtx.Get(swCtxKey).(context.Context)\n		if swContext == nil {\n			return context.Background()\n		}\n		return swContext\n")
BB((CL, "	if res.StatusCode() >= 400 {\n", "	code := res.StatusCode()\n	if code > 399 {\n"), (CL, "strconv.Itoa(res.StatusCode())", "strconv.Itoa(code)"))
B(CL, "	if span == nil {\n		return\n	}\n	now := time.Now()\n	if fc.options.logError {\n		span.Error(now, err.Error())\n	} else {\n		span.Error(now)\n	}\n	span.End()\n", "	if span != nil {\n		defer span.End()\n		var texts []string\n		if fc.options.logError {\n			texts = []string{err.Error()}\n		}\n		span.Error(time.Now(), texts...)\n	}\n")
B(CL, "	if fc.tracer == nil {\n		return\n	}\n	span, err =", "	if fc.tracer == nil {\n		return nil, nil\n	}\n	span, err =")
BB((CL, "	if err != nil {\n		return\n	}\n	span.SetComponent(componentIDGoHttpClient)\n", "	if err != nil {\n		return nil, err\n	}\n	describe(span, req)\n	return span, nil\n}\n\nfunc describe(span go2sky.Span, req *fasthttp.Request) {\n	span.SetComponent(componentIDGoHttpClient)\n"), (CL, "	span.SetSpanLayer(agentv3.SpanLayer_Http)\n	return\n", "	span.SetSpanLayer(agentv3.SpanLayer_Http)\n"))
B(CL, "		reqHeader := &req.Header\n		reqHeader.Set(headerKey, headerValue)\n", "		req.Header.SetBytesV(headerKey, []byte(headerValue))\n")
DESCR = "	span.Tag(go2sky.TagDBInstance, h.opts.Db)\n	span.Tag(go2sky.TagDBType, \"Redis\")\n	span.SetComponent(componentID)\n	span.SetSpanLayer(agentv3.SpanLayer_Cache)\n	return context.WithValue(nCtx, h, span), nil\n"
BB((RH, DESCR, "	return h.describe(nCtx, span), nil\n"), (RH, DESCR, "	return h.describe(nCtx, span), nil\n"), (RH, "", "\nfunc (h *tracerHook) describe(nCtx context.Context, span go2sky.Span) context.Context {\n	span.Tag(go2sky.TagDBType, \"Redis\")\n	span.Tag(go2sky.TagDBInstance, h.opts.Db)\n	span.SetSpanLayer(agentv3.SpanLayer_Cache)\n	span.SetComponent(componentID)\n	return context.WithValue(nCtx, h, span)\n}\n"))
QJ = "	sb := &strings.Builder{}\n	for i, obj := range objs {\n		sb.WriteString(stringer(obj))\n		if i < len(objs)-1 {\n			sb.WriteString(sep)\n		}\n	}\n	return sb.String()\n"
B(RH, QJ, "	var texts []string\n	for _, obj := range objs {\n		texts = append(texts, stringer(obj))\n	}\n	return strings.Join(texts, sep)\n")
B(RH, QJ, "	texts := make([]string, len(objs))\n	for i, obj := range objs {\n		texts[i] = stringer(obj)\n	}\n	return strings.Join(texts, sep)\n")
B(RH, QJ, "	text := \"\"\n	for i := 0; i < len(objs); i++ {\n		if i > 0 {\n			text += sep\n		}\n		text += stringer(objs[i])\n	}\n	return text\n")
B(RH, QJ, "	var sb strings.Builder\n	for i := range objs {\n		if i != 0 {\n			sb.WriteString(sep)\n		}\n		sb.WriteString(stringer(objs[i]))\n	}\n	return sb.String()\n")
QE = "	sb := &strings.Builder{}\n	for _, obj := range objs {\n		cmdErr := obj.Err()\n		if cmdErr != nil {\n			if sb.Len() > 0 {\n				sb.WriteString(sep)\n			}\n			sb.WriteString(cmdErr.Error())\n		}\n	}\n	return sb.String()\n"
B(RH, QE, "	var errs []string\n	for _, obj := range objs {\n		if cmdErr := obj.Err(); cmdErr != nil {\n			errs = append(errs, cmdErr.Error())\n		}\n	}\n	return strings.Join(errs, sep)\n")
B(RH, QE, "	text := \"\"\n	for _, obj := range objs {\n		cmdErr := obj.Err()\n		if cmdErr == nil {\n			continue\n		}\n		if text != \"\" {\n			text += sep\n		}\n		text = text + cmdErr.Error()\n	}\n	return text\n")
BB((RH, "	errs := quickJoinError(cmds, \"|\")\n	if errs != \"\" {\n", "	var errs []string\n	for _, cmd := range cmds {\n		if err := cmd.Err(); err != nil {\n			errs = append(errs, err.Error())\n		}\n	}\n	if len(errs) > 0 {\n"), (RH, "			span.Error(now, errs)\n", "			span.Error(now, strings.Join(errs, \"|\"))\n"))
BB((RH, "	errs := quickJoinError(cmds, \"|\")\n	if errs != \"\" {\n", "	failed := false\n	for _, cmd := range cmds {\n		if cmd.Err() != nil {\n			failed = true\n		}\n	}\n	if failed {\n"), (RH, "			span.Error(now, errs)\n", "			span.Error(now, quickJoinError(cmds, \"|\"))\n"))
FIN = "	if h.opts.logError {\n			span.Error(now, %s)\n"
BB((RH, "	if cmdErr != nil {\n		now := time.Now()\n		if h.opts.logError {\n			span.Error(now, cmdErr.Error())\n		} else {\n			span.Error(now)\n		}\n	}\n	span.End()\n	return nil\n", "	if cmdErr != nil {\n		h.finish(span, cmdErr.Error())\n	} else {\n		h.finish(span, \"\")\n	}\n	return nil\n"), (RH, "	if errs != \"\" {\n		now := time.Now()\n		if h.opts.logError {\n			span.Error(now, errs)\n		} else {\n			span.Error(now)\n		}\n	}\n\n	span.End()\n	return nil\n", "	h.finish(span, errs)\n	return nil\n"),
   (RH, "", "\nfunc (h *tracerHook) finish(span go2sky.Span, errText string) {\n	if errText != \"\" {\n		if h.opts.logError {\n			span.Error(time.Now(), errText)\n		} else {\n			span.Error(time.Now())\n		}\n	}\n	span.End()\n}\n"))
BB((RH, "	span, _ := ctx.Value(h).(go2sky.Span)\n	if span == nil {\n		return nil\n	}\n	cmdErr", "	span := h.spanOf(ctx)\n	if span == nil {\n		return nil\n	}\n	cmdErr"), (RH, "", "\nfunc (h *tracerHook) spanOf(ctx context.Context) go2sky.Span {\n	if span, ok := ctx.Value(h).(go2sky.Span); ok {\n		return span\n	}\n	return nil\n}\n"))
BB((RH, "	return context.WithValue(nCtx, h, span), nil\n", "	return context.WithValue(nCtx, spanKey{h}, span), nil\n"), (RH, "	return context.WithValue(nCtx, h, span), nil\n", "	return context.WithValue(nCtx, spanKey{h}, span), nil\n"), (RH, "ctx.Value(h)", "ctx.Value(spanKey{h})"), (RH, "ctx.Value(h)", "ctx.Value(spanKey{h})"), (RH, "", "\ntype spanKey struct{ h *tracerHook }\n"))
B(RH, "	if h.opts.reportArgs {\n		span.Tag(go2sky.TagDBStatement, cmd.String())\n	} else {\n		span.Tag(go2sky.TagDBStatement, cmd.Name())\n	}\n", "	statement := cmd.Name()\n	if h.opts.reportArgs {\n		statement = cmd.String()\n	}\n	span.Tag(go2sky.TagDBStatement, statement)\n")
B(RH, "		o.Db = strconv.Itoa(db)\n", "		o.Db = fmt.Sprintf(\"%d\", db)\n") if False else None
BB((RH, "	opName := quickJoin(cmds, \"|\", func(obj rv7.Cmder) string {\n		return obj.Name()\n	})\n", "	opName := quickJoin(cmds, \"|\", rv7.Cmder.Name)\n"))
B(SF, "	if c == nil || c.ServerAddr == \"\" {\n		return NoopReporter(), nil\n	}\n", "	if c == nil {\n		return NoopReporter(), nil\n	}\n	if len(c.ServerAddr) == 0 {\n		return noopReporter(0), nil\n	}\n")
B(SF, "	reporter, err := reporter.NewGRPCReporter(c.ServerAddr,\n		reporter.WithCDS(time.Minute),\n		reporter.WithCheckInterval(time.Second*10),\n	)\n	if err != nil {\n		return nil, err\n	}\n\n	return reporter, nil\n", "	return reporter.NewGRPCReporter(c.ServerAddr,\n		reporter.WithCDS(time.Minute),\n		reporter.WithCheckInterval(time.Second*10),\n	)\n")
B(SF, "	return go2sky.NewTracer(c.ServiceNamespace+\"::\"+c.ServiceName,\n		go2sky.WithReporter(rep),\n		go2sky.WithInstance(c.ServiceInstance),\n	)\n", "	service := c.ServiceNamespace + \"::\" + c.ServiceName\n	opts := []go2sky.TracerOption{go2sky.WithInstance(c.ServiceInstance), go2sky.WithReporter(rep)}\n	return go2sky.NewTracer(service, opts...)\n")
CS = "skywalking/fasthttp/client_span.go"
M("W04", CS, "		tracer:  trace,\n", "")
M("W04", CS, "	if fc.tracer == nil {\n		return\n	}\n", "	if fc.tracer == nil || len(req.Host()) == 0 {\n		return\n	}\n")
M("W04", "skywalking/redis/hook.go", "	if h.tracer == nil {\n		return ctx, nil\n	}\n	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name()", "	if h.tracer == nil || cmd.Name() == \"ping\" {\n		return ctx, nil\n	}\n	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name()")
B(CS, "	return &ClientSpanHelper{\n		tracer:  trace,\n		options: options,\n	}\n", "	h := new(ClientSpanHelper)\n	if trace != nil {\n		h.tracer = trace\n	}\n	h.options = options\n	return h\n")
