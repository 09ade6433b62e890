T = "schedule/task.go"
D = "schedule/fixed_delay_task.go"
R = "schedule/fixed_rate_task.go"
G = "schedule/task_manager.go"
# S01
M("S01", T, "	if t.status == started {\n		return errors", "	if t.status == started && t.no > 0 {\n		return errors")
M("S01", T, "	if t.status == stopped {\n		return errors.New(fmt.Sprintf(\"task[%s] start", "	if t.status == stopped && t.interval < 0 {\n		return errors.New(fmt.Sprintf(\"task[%s] start")
M("S01", T, "	t.status = started\n", "")
M("S01", T, "	t.status = stopped\n	close(t.stopSig)\n", "	close(t.stopSig)\n")
M("S01", T, "	t.status = stopped\n	close(t.stopSig)\n", "	t.status = stopped\n	if t.no > 0 {\n		close(t.stopSig)\n	}\n")
M("S01", T, "	if t.status == new {\n		return", "	if t.status == new {\n		t.status = stopped\n		return")
M("S01", D, "	t.lock.Lock()\n	defer t.lock.Unlock()\n\n	err := t.taskCommon.markStart()\n	if err != nil {\n		return err\n	}\n", "	t.lock.Lock()\n	st := t.status\n	t.lock.Unlock()\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	if st == new {\n		t.status = new\n	}\n	err := t.taskCommon.markStart()\n	if err != nil {\n		return err\n	}\n")
M("S01", D, "func (t *FixedDelayTask) MustStop() {\n	err := t.Stop()\n	if err != nil {\n		panic(err)\n	}\n", "func (t *FixedDelayTask) MustStop() {\n	err := t.Stop()\n	if err != nil && t.timeout < 0 {\n		panic(err)\n	}\n")
M("S01", R, "func (t *FixedRateTask) MustStart() {\n	err := t.Start()\n", "func (t *FixedRateTask) MustStart() {\n	t.Start()\n	err := t.Start()\n")
M("S01", D, "	t.no++\n	return t.no\n", "	t.no++\n	if t.no == 1000 {\n		t.status = started\n	}\n	return t.no\n")
# S02
M("S02", D, "			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n", "			go t.appendJobQueueFuture()\n			t.runJob(t.nextNo())\n")
M("S02", D, "			t.runJob(t.nextNo())\n", "			go t.runJob(t.nextNo())\n")
M("S02", D, "time.AfterFunc(t.interval, ", "time.AfterFunc(t.interval/2, ")
M("S02", D, "time.AfterFunc(t.interval, ", "time.AfterFunc(t.timeout, ")
M("S02", D, "			go t.appendJobQueueFuture()\n", "			if t.no != 3 {\n				go t.appendJobQueueFuture()\n			}\n")
M("S02", D, "			go t.appendJobQueueFuture()\n", "			go t.appendJobQueueFuture()\n			if t.no == 3 {\n				go t.appendJobQueueFuture()\n			}\n")
M("S02", D, "	if !t.appendJobQueue() {\n		return nil\n	}\n", "	t.appendJobQueueFuture()\n")
M("S02 S03", T, "	case <-timeoutCtx.Done():\n		<-fin\n", "	case <-timeoutCtx.Done():\n")
M("S02 S03", T, "		cancel()\n		<-fin\n", "		cancel()\n")
M("S02 S03", T, "		err := t.job(timeoutCtx.Done())\n\n		finishAt := time.Now()\n		elapse := finishAt.Sub(startAt)\n\n		close(fin)\n", "		close(fin)\n		err := t.job(timeoutCtx.Done())\n\n		finishAt := time.Now()\n		elapse := finishAt.Sub(startAt)\n")
M("S02", D, "	go t.startConsuming()\n", "	go t.startConsuming()\n	if t.timeout > t.interval {\n		go t.startConsuming()\n	}\n")
M("S02", T, "	case <-t.stopSig:\n		// task is stopped\n		return false\n	}", "	case <-t.stopSig:\n		// task is stopped\n		return false\n	default:\n		return false\n	}")
M("S02", D, "			if t.getStatus() == stopped {\n", "			if t.getStatus() != stopped && t.no > 100 {\n				continue\n			}\n			if t.getStatus() == stopped {\n")
# S03
M("S03", T, "context.WithTimeout(context.Background(), t.timeout)", "context.WithTimeout(context.Background(), t.interval)")
M("S03", T, "context.WithTimeout(context.Background(), t.timeout)", "context.WithCancel(context.Background())")
M("S03", T, "	case <-t.stopSig:\n		cancel()\n		<-fin\n", "	case <-t.stopSig:\n		<-fin\n")
M("S03", T, "	case <-t.stopSig:\n		cancel()\n		<-fin\n", "")
M("S03", T, "	defer cancel()\n", "	_ = cancel\n")
M("S03", T, "t.job(timeoutCtx.Done())", "t.job(t.stopSig)")
M("S03", T, "t.job(timeoutCtx.Done())", "t.job(context.Background().Done())")
M("S03", T, "	fin := make(chan struct{})\n", "	fin := make(chan struct{})\n	if nextNo < 0 {\n		cancel()\n	}\n")
M("S03", T, "	case <-t.stopSig:\n		cancel()\n		<-fin\n", "	case <-t.stopSig:\n		select {\n		case <-fin:\n		case <-timeoutCtx.Done():\n		}\n		cancel()\n")
M("S03", T, "		err := t.job(timeoutCtx.Done())\n", "		err := t.job(timeoutCtx.Done())\n		if err != nil {\n			err = t.job(timeoutCtx.Done())\n		}\n")
# S04
M("S04", D, "			if t.getStatus() == stopped {\n				return\n			}\n", "")
M("S04", R, "			if t.getStatus() == stopped {\n				return\n			}\n", "")
M("S04", R, "			if t.getStatus() == stopped {\n				return\n			}\n			go t.runJob(t.nextNo())\n", "			no := t.nextNo()\n			go t.runJob(no)\n			if t.getStatus() == stopped {\n				return\n			}\n")
M("S04", R, "	t.ticker.Stop()\n", "")
M("S04", R, "	t.ticker.Stop()\n", "	if t.no > 0 {\n		t.ticker.Stop()\n	}\n")
M("S04", T, "	select {\n	case t.jobQ <- struct{}{}:\n		return true\n	case <-t.stopSig:\n		// task is stopped\n		return false\n	}\n	return false\n", "	t.jobQ <- struct{}{}\n	return true\n")
M("S04", R, "		case <-t.stopSig:\n			// task is stopped\n			return\n		}\n	}\n}\n\nfunc (t *FixedRateTask) startConsuming", "		}\n	}\n}\n\nfunc (t *FixedRateTask) startConsuming")
M("S04", D, "		case <-t.stopSig:\n			// task is stopped\n			return\n", "		case <-t.stopSig:\n			// task is stopped\n			continue\n")
M("S04", R, "		case <-t.ticker.C:\n			if !t.appendJobQueue() {\n				return\n			}\n", "		case <-t.ticker.C:\n			t.jobQ <- struct{}{}\n")
M("S04", R, "			if !t.appendJobQueue() {\n				return\n			}\n		case", "			if !t.appendJobQueue() {\n				continue\n			}\n		case")
M("S04", T, "	case <-t.stopSig:\n		// task is stopped\n		return false\n	}", "	case <-t.stopSig:\n		// task is stopped\n		t.jobQ <- struct{}{}\n		return false\n	}")
# S05
M("S05", R, "	// trigger first schedule immediately\n	if !t.appendJobQueue() {\n		return\n	}\n", "")
M("S05", R, "			go t.runJob(t.nextNo())\n", "			t.runJob(t.nextNo())\n")
M("S05", R, "time.NewTicker(t.interval)", "time.NewTicker(t.timeout)")
M("S05", R, "time.NewTicker(t.interval)", "time.NewTicker(t.interval + t.timeout)")
M("S05", R, "		case <-t.ticker.C:\n			if !t.appendJobQueue() {", "		case <-t.ticker.C:\n			if t.no%100 == 99 {\n				continue\n			}\n			if !t.appendJobQueue() {")
M("S05", R, "		case <-t.ticker.C:\n			if !t.appendJobQueue() {", "		case <-t.ticker.C:\n			if t.no == 7 {\n				t.appendJobQueue()\n			}\n			if !t.appendJobQueue() {")
M("S05", R, "			go t.runJob(t.nextNo())\n", "			no := t.nextNo()\n			if no%2 == 1 || t.timeout < t.interval {\n				go t.runJob(no)\n			}\n")
M("S05", R, "	t.ticker = time.NewTicker(t.interval)\n\n	go t.startConsuming()\n	go t.startProviding()\n", "	go t.startConsuming()\n	go t.startProviding()\n	t.ticker = time.NewTicker(t.interval)\n")
M("S05", R, "	go t.startConsuming()\n", "	go t.startConsuming()\n	go t.startConsuming()\n")
M("S05", R, "		case <-t.jobQ:\n", "		case <-t.jobQ:\n			time.Sleep(t.timeout)\n")
# S06
M("S06", G, "		return errors.New(fmt.Sprintf(\"task[%s] duplicated\", task.Name()))\n	}\n\n	task.MustStart()\n", "		return errors.New(fmt.Sprintf(\"task[%s] duplicated\", task.Name()))\n	}\n\n	task.Start()\n")
M("S06", G, "	task.MustStart()\n	m.taskMap[task.Name()] = task\n", "	m.taskMap[task.Name()] = task\n	task.MustStart()\n")
M("S06", G, "	m.lock.Lock()\n	defer m.lock.Unlock()\n\n	if _, hit", "	task.MustStart()\n	m.lock.Lock()\n	defer m.lock.Unlock()\n\n	if _, hit")
M("S06", G, "	if _, hit := m.taskMap[task.Name()]; hit {\n", "	m.lock.Unlock()\n	_, hit := m.taskMap[task.Name()]\n	m.lock.Lock()\n	if hit {\n")
M("S06", G, "	task.Stop()\n	delete(m.taskMap, name)\n", "	delete(m.taskMap, name)\n")
M("S06", G, "	task.Stop()\n	delete(m.taskMap, name)\n", "	if err := task.Stop(); err != nil {\n		return\n	}\n	delete(m.taskMap, name)\n")
M("S06", G, "	task.Stop()\n	delete(m.taskMap, name)\n", "	task.Stop()\n	delete(m.taskMap, task.Name())\n	m.taskMap[name] = task\n")
M("S06", G, "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n", "	for _, task := range m.taskMap {\n		if task.Stop() != nil {\n			break\n		}\n	}\n")
M("S06", G, "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n", "	for _, task := range m.taskMap {\n		task.MustStop()\n	}\n")
M("S06", G, "\n	m.taskMap = make(map[string]Task, 10)\n}", "\n}")
M("S06", G, "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n\n	m.taskMap = make(map[string]Task, 10)\n", "	for name, task := range m.taskMap {\n		if task.Stop() == nil {\n			delete(m.taskMap, name)\n		}\n	}\n")
M("S06", G, "	if task == nil {\n		return\n	}\n", "	if task == nil {\n		for k := range m.taskMap {\n			delete(m.taskMap, k)\n			break\n		}\n		return\n	}\n")
# S07
M("S07", D, "strings.TrimSpace(name) == \"\"", "strings.ToLower(name) == \"\"")
M("S07", D, "	if timeout <= 0 {", "	if timeout < 0 {")
M("S07", R, "	if interval <= 0 {", "	if interval < 0 {")
M("S07", R, "	if job == nil {", "	if job == nil && interval > timeout {")
M("S07", R, "			interval: interval,", "			interval: timeout,")
M("S07", R, "			status:   new,", "			status:   started,")
M("S07", D, "	if interval <= 0 {", "	if interval <= timeout {")
M("S07", D, "			stopSig:  make(chan struct{}),", "")
# benign
B(T, "	if t.status == started {\n		return errors.New(fmt.Sprintf(\"task[%s] start error, you cannot start a Task twice\", t.name))\n	}\n\n	if t.status == stopped {\n		return errors.New(fmt.Sprintf(\"task[%s] start error, you cannot start a stopped Task\", t.name))\n	}\n\n	t.status = started\n	return nil\n", "	switch t.status {\n	case started:\n		return fmt.Errorf(\"task[%s] start error, you cannot start a Task twice\", t.name)\n	case stopped:\n		return errors.New(fmt.Sprintf(\"task[%s] start error, you cannot start a stopped Task\", t.name))\n	}\n	t.status = started\n	return nil\n")
B(T, "	if t.status == started {\n		return errors.New(fmt.Sprintf(\"task[%s] start error, you cannot start a Task twice\", t.name))\n	}\n\n	if t.status == stopped {\n		return errors.New(fmt.Sprintf(\"task[%s] start error, you cannot start a stopped Task\", t.name))\n	}\n\n	t.status = started\n	return nil\n", "	if t.status == new {\n		t.status = started\n		return nil\n	}\n	if t.status == started {\n		return errors.New(fmt.Sprintf(\"task[%s] start error, you cannot start a Task twice\", t.name))\n	}\n	return errors.New(fmt.Sprintf(\"task[%s] start error, you cannot start a stopped Task\", t.name))\n")
B(T, "	t.status = stopped\n	close(t.stopSig)\n", "	close(t.stopSig)\n	t.status = stopped\n")
B(D, "	err := t.Start()\n	if err != nil {\n		panic(err)\n	}\n", "	if err := t.Start(); err != nil {\n		panic(err)\n	}\n")
B(D, "			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n", "			t.consumeOne()\n")if False else None
BB((D, "			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n", "			t.consumeOne()\n"), (D, "", "\nfunc (t *FixedDelayTask) consumeOne() {\n	no := t.nextNo()\n	t.runJob(no)\n	t.appendJobQueueFuture()\n}\n"))
BB((D, "			if t.getStatus() == stopped {\n				return\n			}\n			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n", "			if !t.consumeOne() {\n				return\n			}\n"), (D, "", "\nfunc (t *FixedDelayTask) consumeOne() bool {\n	if s := t.getStatus(); s == stopped {\n		return false\n	}\n	t.runJob(t.nextNo())\n	go t.appendJobQueueFuture()\n	return true\n}\n"))
B(D, "	time.AfterFunc(t.interval, func() {\n		t.appendJobQueue()\n	})\n", "	timer := time.NewTimer(t.interval)\n	defer timer.Stop()\n	select {\n	case <-timer.C:\n		t.appendJobQueue()\n	case <-t.stopSig:\n	}\n")
B(D, "	time.AfterFunc(t.interval, func() {\n		t.appendJobQueue()\n	})\n", "	time.Sleep(t.interval)\n	t.appendJobQueue()\n")
B(D, "	time.AfterFunc(t.interval, func() {\n		t.appendJobQueue()\n	})\n", "	f := func() { _ = t.appendJobQueue() }\n	time.AfterFunc(t.interval, f)\n")
B(D, "			go t.appendJobQueueFuture()\n", "			t.appendJobQueueFuture()\n")
B(T, "	select {\n	case <-timeoutCtx.Done():\n		<-fin\n	case <-t.stopSig:\n		cancel()\n		<-fin\n	case <-fin:\n		// job normally finished\n	}\n", "	t.await(fin, timeoutCtx.Done(), cancel)\n}\n\nfunc (t *taskCommon) await(fin <-chan struct{}, done <-chan struct{}, cancel context.CancelFunc) {\n	select {\n	case <-fin:\n		return\n	case <-t.stopSig:\n		cancel()\n	case <-done:\n	}\n	<-fin\n")
B(T, "	select {\n	case <-timeoutCtx.Done():\n		<-fin\n	case <-t.stopSig:\n		cancel()\n		<-fin\n	case <-fin:\n		// job normally finished\n	}\n", "	select {\n	case <-t.stopSig:\n		cancel()\n		<-fin\n	case <-fin:\n		// job normally finished\n	}\n")
B(T, "		close(fin)\n\n		if err", "		defer close(fin)\n\n		if err")
B(T, "	fin := make(chan struct{})\n", "	fin := make(chan struct{}, 0)\n	nop := func() {}\n	nop()\n")
B(T, "	select {\n	case t.jobQ <- struct{}{}:\n		return true\n	case <-t.stopSig:\n		// task is stopped\n		return false\n	}\n	return false\n", "	ok := false\n	select {\n	case <-t.stopSig:\n	case t.jobQ <- struct{}{}:\n		ok = true\n	}\n	return ok\n")
B(R, "	// trigger first schedule immediately\n	if !t.appendJobQueue() {\n		return\n	}\n	for {\n		select {\n		case <-t.ticker.C:\n			if !t.appendJobQueue() {\n				return\n			}\n		case <-t.stopSig:\n			// task is stopped\n			return\n		}\n	}\n", "	for t.appendJobQueue() {\n		select {\n		case <-t.ticker.C:\n		case <-t.stopSig:\n			return\n		}\n	}\n")
B(R, "			if t.getStatus() == stopped {\n				return\n			}\n			go t.runJob(t.nextNo())\n", "			if t.getStatus() == stopped {\n				return\n			}\n			no := t.nextNo()\n			go func() {\n				t.runJob(no)\n			}()\n")
B(R, "	for {\n		select {\n		case <-t.jobQ:\n			if t.getStatus() == stopped {\n				return\n			}\n			go t.runJob(t.nextNo())\n		case <-t.stopSig:\n			// task is stopped\n			return\n		}\n	}\n", "	for running := true; running; {\n		select {\n		case <-t.stopSig:\n			running = false\n		case <-t.jobQ:\n			if running = t.getStatus() != stopped; running {\n				go t.runJob(t.nextNo())\n			}\n		}\n	}\n")
B(R, "	go t.startConsuming()\n	go t.startProviding()\n", "	go t.startProviding()\n	go t.startConsuming()\n")
B(R, "	go t.startConsuming()\n	go t.startProviding()\n", "	t.launch()\n")if False else None
BB((R, "	t.ticker = time.NewTicker(t.interval)\n\n	go t.startConsuming()\n	go t.startProviding()\n", "	t.launch()\n"), (R, "", "\nfunc (t *FixedRateTask) launch() {\n	ticker := time.NewTicker(t.interval)\n	t.ticker = ticker\n	for _, f := range []func(){t.startConsuming, t.startProviding} {\n		go f()\n	}\n}\n"))
B(G, "	if _, hit := m.taskMap[task.Name()]; hit {\n		return errors.New(fmt.Sprintf(\"task[%s] duplicated\", task.Name()))\n	}\n\n	task.MustStart()\n	m.taskMap[task.Name()] = task\n	return nil\n", "	name := task.Name()\n	if m.taskMap[name] != nil {\n		return fmt.Errorf(\"task[%s] duplicated\", name)\n	}\n	task.MustStart()\n	m.taskMap[name] = task\n	return nil\n").__class__ if False else None
BB((G, "		return errors.New(fmt.Sprintf(\"task[%s] duplicated\", task.Name()))\n	}\n\n	task.MustStart()\n	m.taskMap[task.Name()] = task\n	return nil\n", "		return errors.New(fmt.Sprintf(\"task[%s] duplicated\", task.Name()))\n	}\n	return m.startAndKeep(task)\n"), (G, "", "\nfunc (m *taskManager) startAndKeep(task Task) error {\n	task.MustStart()\n	m.taskMap[task.Name()] = task\n	return nil\n}\n"))
B(G, "	task := m.taskMap[name]\n	if task == nil {\n		return\n	}\n	task.Stop()\n	delete(m.taskMap, name)\n", "	if task, ok := m.taskMap[name]; ok {\n		delete(m.taskMap, name)\n		task.Stop()\n	}\n")
B(G, "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n\n	m.taskMap = make(map[string]Task, 10)\n", "	for name, task := range m.taskMap {\n		task.Stop()\n		delete(m.taskMap, name)\n	}\n")
B(G, "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n\n	m.taskMap = make(map[string]Task, 10)\n", "	old := m.taskMap\n	m.taskMap = map[string]Task{}\n	for _, task := range old {\n		task.Stop()\n	}\n")
BB((D, "	if strings.TrimSpace(name) == \"\" {\n		panic(fmt.Sprintf(\"task name must not be blank\"))\n	}\n\n	if timeout <= 0 {\n		panic(fmt.Sprintf(\"task[%s] timeout must > 0\", name))\n	}\n	if interval <= 0 {\n		panic(fmt.Sprintf(\"task[%s] interval must > 0\", name))\n	}\n	if job == nil {\n		panic(fmt.Sprintf(\"task[%s] job must be not nil\", name))\n	}\n", "	validate(name, job, interval, timeout)\n"), (D, "", "\nfunc validate(name string, job JobFunc, interval, timeout time.Duration) {\n	if len(strings.TrimSpace(name)) == 0 {\n		panic(\"task name must not be blank\")\n	}\n	if !(timeout > 0) {\n		panic(fmt.Sprintf(\"task[%s] timeout must > 0\", name))\n	}\n	if interval < 1 {\n		panic(fmt.Sprintf(\"task[%s] interval must > 0\", name))\n	}\n	if job == nil {\n		panic(fmt.Sprintf(\"task[%s] job must be not nil\", name))\n	}\n}\n"))
M("X02", "schedule/fixed_rate_task.go", "func (t *FixedRateTask) getStatus() int {\n	t.lock.Lock()\n	defer t.lock.Unlock()\n", "func (t *FixedRateTask) getStatus() int {\n")
M("X02", "schedule/fixed_delay_task.go", "func (t *FixedDelayTask) getStatus() int {\n	t.lock.Lock()\n	defer t.lock.Unlock()\n", "func (t *FixedDelayTask) getStatus() int {\n")
B("schedule/fixed_rate_task.go", "	go t.startConsuming()\n	go t.startProviding()\n", "	simplelog.StdLogger.Printf(\"task[%s] starting\", t.name)\n	go t.startProviding()\n	go t.startConsuming()\n")
