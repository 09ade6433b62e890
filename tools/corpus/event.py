V = "event/bus.go"
LOOP = "		for _, recv := range b.recvMap {\n			recv.onEvent(event)\n		}\n"
# E01
M("E01", V, LOOP, "		n := 0\n		for _, recv := range b.recvMap {\n			recv.onEvent(event)\n			if n++; n > 64 {\n				break\n			}\n		}\n")
M("E01", V, LOOP, "		for _, recv := range b.recvMap {\n			if recv.name != \"\" {\n				recv.onEvent(event)\n			}\n		}\n")
M("E01", V, LOOP, "		for _, recv := range b.recvMap {\n			recv.onEvent(event)\n			if recv.strategy == Drop && cap(recv.ch) == 0 {\n				recv.onEvent(event)\n			}\n		}\n")
M("E01", V, LOOP, "		for _, recv := range b.recvMap {\n			recv.onEvent(&event)\n		}\n")
M("E01", V, LOOP, "		if event != nil {\n			for _, recv := range b.recvMap {\n				recv.onEvent(event)\n			}\n		}\n")
M("E01", V, "		case r.ch <- v:\n		default:\n			log", "		case r.ch <- v:\n		case <-time.After(time.Millisecond):\n			log")
M("E01", V, "		case r.ch <- v:\n		case <-r.done:\n", "		case r.ch <- v:\n		case <-time.After(time.Hour):\n		case <-r.done:\n")
M("E01", V, "		case r.ch <- v:\n		case <-r.done:\n", "		case r.ch <- v:\n		default:\n		case <-r.done:\n")
M("E01", V, "	switch r.strategy {\n	case Drop:", "	switch r.strategy {\n	case Block + 1:", )
M("E01", V, "	switch r.strategy {\n	case Drop:\n", "	if cap(r.ch) == 0 {\n		r.ch <- v\n		return\n	}\n	switch r.strategy {\n	case Drop:\n")
M("E01", V, "		strategy: fullStrategy,\n", "		strategy: Drop,\n")
M("E01", V, "	return b.NewRecvStrategy(name, bufSize, Drop)", "	return b.NewRecvStrategy(name, bufSize, Block)")
M("E01", V, "	b.recvMap[name] = recv\n", "	if b.recvMap[name] == nil {\n		b.recvMap[name] = recv\n	}\n")
M("E01", V, "	ch := make(chan interface{}, bufSize)\n\n	recv", "	ch := make(chan interface{}, bufSize+1)\n\n	recv")
M("E01", V, "	ch := make(chan interface{}, bufSize)\n	return", "	ch := make(chan interface{})\n	return")
M("E01", V, "	go b.doDispatch()\n", "	go b.doDispatch()\n	if cap(b.ch) > 100 {\n		go b.doDispatch()\n	}\n")
M("E01", V, "	go b.doDispatch()\n", "	b.doDispatch()\n")
M("E01", V, "	for event := range b.ch {\n", "	for event := range b.ch {\n		if len(b.ch) > 1000 {\n			event = <-b.ch\n		}\n")
M("E01 X03", V, "			log.Println(\"receiver[", "			r.bus.NewRecv(r.name, 1)\n			log.Println(\"receiver[")
# E02
M("E02", V, LOOP, "		recvs := make([]*Receiver, 0)\n		for _, recv := range b.recvMap {\n			recvs = append(recvs, recv)\n		}\n		b.recvMapLock.RUnlock()\n		for _, recv := range recvs {\n			recv.onEvent(event)\n		}\n		b.recvMapLock.RLock()\n")
M("E02", V, "	recv.closed = true\n	close(recv.ch)\n	if", "	close(recv.ch)\n	if")
M("E02", V, "	if recv.closed {\n		// closed before, or closed by the event bus\n		return\n	}\n", "")
M("E02", V, "	if b.recvMap[recv.name] == recv {\n		// may have been replaced by another Receiver with the same name\n		delete(b.recvMap, recv.name)\n	}\n", "	delete(b.recvMap, recv.name)\n")
M("E02", V, "	if b.recvMap[recv.name] == recv {\n", "	if b.recvMap[recv.name] != recv {\n")
M("E02", V, "	if b.recvMap[recv.name] == recv {\n", "	if b.recvMap[recv.name] == recv && recv.strategy == Drop {\n")
M("E02", V, "		recv.closed = true\n		close(recv.ch)\n		delete(b.recvMap, name)\n", "		close(recv.ch)\n		delete(b.recvMap, name)\n")
M("E02", V, "		close(recv.ch)\n		delete(b.recvMap, name)\n", "		close(recv.ch)\n		if name != \"\" {\n			delete(b.recvMap, name)\n		}\n")
M("E02", V, "	r.doneOnce.Do(func() { close(r.done) })\n", "	close(r.done)\n")
M("E02", V, "	r.doneOnce.Do(func() { close(r.done) })\n", "	select {\n	case <-r.done:\n	default:\n		close(r.done)\n	}\n")
M("E02 E03", V, "	b.recvMapLock.Lock()\n	defer b.recvMapLock.Unlock()\n\n	if recv.closed {\n		// closed before, or closed by the event bus\n		return\n	}\n	recv.closed = true\n	close(recv.ch)\n", "	b.recvMapLock.Lock()\n	defer b.recvMapLock.Unlock()\n\n	if recv.closed {\n		// closed before, or closed by the event bus\n		return\n	}\n	recv.closed = true\n	go close(recv.ch)\n")
M("E02", V, "	b.recvMapLock.Lock()\n	b.recvMap[name] = recv\n", "	b.recvMapLock.Lock()\n	if old := b.recvMap[name]; old != nil {\n		close(old.ch)\n	}\n	b.recvMap[name] = recv\n")
M("E02", V, "	r.bus.deregisterRecv(r)\n", "	r.bus.recvMapLock.RLock()\n	o := r.bus.recvMap[r.name]\n	r.bus.recvMapLock.RUnlock()\n	if o != nil {\n		r.bus.deregisterRecv(o)\n	}\n")
# E03
M("E03", V, "	close(b.done)\n	b.recvMapLock.Lock()\n", "	b.recvMapLock.Lock()\n	close(b.done)\n")
M("E03", V, "	r.doneOnce.Do(func() { close(r.done) })\n	r.bus.deregisterRecv(r)\n", "	r.bus.deregisterRecv(r)\n	r.doneOnce.Do(func() { close(r.done) })\n")
M("E03", V, "		case <-r.done:\n		case <-r.bus.done:\n", "		case <-r.bus.done:\n")
M("E03", V, "		case <-r.done:\n		case <-r.bus.done:\n", "		case <-r.done:\n")
M("E03", V, "	close(b.ch)\n	close(b.done)\n", "	close(b.done)\n")
M("E03", V, "	if recv.closed {\n		// closed", "	if recv.closed || b.recvMap[recv.name] != recv {\n		// closed")
M("E03", V, "		recv.closed = true\n		close(recv.ch)\n		delete(b.recvMap, name)\n", "		if recv.strategy == Drop {\n			recv.closed = true\n			close(recv.ch)\n		}\n		delete(b.recvMap, name)\n")
M("E03", V, "		delete(b.recvMap, name)\n", "		delete(b.recvMap, name)\n		if recv.strategy == Block {\n			break\n		}\n")
M("E03", V, "	recv.closed = true\n	close(recv.ch)\n	if", "	recv.closed = true\n	if recv.strategy == Drop {\n		close(recv.ch)\n	}\n	if")
M("E03", V, "	close(b.ch)\n	close(b.done)\n	b.recv", "	close(b.ch)\n	close(b.done)\n	for _, r := range b.recvMap {\n		for len(r.ch) > 0 {\n			time.Sleep(1)\n		}\n	}\n	b.recv")
# E04
DR = "		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:\n"
M("E04", V, DR, "		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			if d != nil {\n				data = append(data, d)\n			}\n		default:\n")
M("E04", V, DR, "		case d, ok := <-r.C:\n			if !ok {\n				continue\n			}\n			data = append(data, d)\n		default:\n")
M("E04", V, DR, "		case d := <-r.C:\n			data = append(data, d)\n		default:\n")
M("E04", V, DR, "		case d, ok := <-r.C:\n			if !ok {\n				return nil\n			}\n			data = append(data, d)\n		default:\n")
M("E04", V, DR, "		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append([]interface{}{d}, data...)\n		default:\n")
M("E04", V, DR, "		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n			if len(data) == 1000 {\n				break drained\n			}\n		default:\n")
M("E04", V, "	data = make([]interface{}, 0, 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:", "	data = make([]interface{}, len(r.C), 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:")
M("E04", V, "		default:\n			break drained\n", "		case <-time.After(time.Millisecond):\n			break drained\n")
M("E04", V, "		case <-timer.C:\n", "		case <-time.After(timeout):\n")
M("E04", V, "time.NewTimer(timeout)", "time.NewTimer(timeout + time.Second)")
M("E04", V, "			data = append(data, d)\n		case <-timer.C:\n", "			data = append(data, d)\n			timer.Reset(timeout)\n		case <-timer.C:\n")
M("E04", V, "			data = append(data, d)\n		case <-timer.C:\n			break drained\n", "			data = append(data, d)\n		case <-timer.C:\n			if len(data) > 0 {\n				break drained\n			}\n")
# benign
B(V, "", "\n// end\n")
B(V, "	for event := range b.ch {\n", "	for {\n		event, ok := <-b.ch\n		if !ok {\n			return\n		}\n")
B(V, "		b.recvMapLock.RLock()\n" + LOOP + "		b.recvMapLock.RUnlock()\n	}\n}\n", "		b.fanOut(event)\n	}\n}\n\nfunc (b *FanOutBus) fanOut(event interface{}) {\n	b.recvMapLock.RLock()\n	defer b.recvMapLock.RUnlock()\n	for name := range b.recvMap {\n		r := b.recvMap[name]\n		r.onEvent(event)\n	}\n}\n")
B(V, "	switch r.strategy {\n	case Drop:\n		select {\n		case r.ch <- v:\n		default:\n			log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n		}\n	case Block:\n		select {\n		case r.ch <- v:\n		case <-r.done:\n		case <-r.bus.done:\n		}\n	}\n", "	if r.strategy == Block {\n		r.offer(v)\n		return\n	}\n	if r.strategy != Drop {\n		return\n	}\n	select {\n	case r.ch <- v:\n		return\n	default:\n	}\n	log.Println(\"receiver[\", r.name, \"]: can't catch-up, dropping event\")\n}\n\nfunc (r *Receiver) offer(v interface{}) {\n	select {\n	case <-r.bus.done:\n	case <-r.done:\n	case r.ch <- v:\n	}\n")
B(V, "	switch r.strategy {\n", "	_ = cap(r.ch)\n	switch r.strategy {\n")
BB((V, "		recv.closed = true\n		close(recv.ch)\n		delete(b.recvMap, name)\n	}\n", "		recv.markClosed()\n		delete(b.recvMap, name)\n	}\n"), (V, "	if recv.closed {\n		// closed before, or closed by the event bus\n		return\n	}\n	recv.closed = true\n	close(recv.ch)\n	if b.recvMap", "	if !recv.markClosed() {\n		return\n	}\n	if b.recvMap"), (V, "", "\nfunc (r *Receiver) markClosed() bool {\n	if r.closed {\n		return false\n	}\n	r.closed = true\n	close(r.ch)\n	return true\n}\n"))
B(V, "		recv.closed = true\n		close(recv.ch)\n		delete(b.recvMap, name)\n	}\n", "		delete(b.recvMap, name)\n		close(recv.ch)\n		recv.closed = true\n	}\n")
B(V, "	for name, recv := range b.recvMap {\n		recv.closed = true\n		close(recv.ch)\n		delete(b.recvMap, name)\n	}\n", "	for _, recv := range b.recvMap {\n		recv.closed = true\n		close(recv.ch)\n	}\n	for name := range b.recvMap {\n		delete(b.recvMap, name)\n	}\n")
B(V, "	close(b.ch)\n	close(b.done)\n	b.recv", "	close(b.done)\n	close(b.C)\n	b.recv")
B(V, "	if b.recvMap[recv.name] == recv {\n", "	if cur, ok := b.recvMap[recv.name]; ok && cur == recv {\n")
B(V, "	if recv.closed {\n		// closed before, or closed by the event bus\n		return\n	}\n	recv.closed = true\n	close(recv.ch)\n	if b.recvMap[recv.name] == recv {\n		// may have been replaced by another Receiver with the same name\n		delete(b.recvMap, recv.name)\n	}\n", "	if !recv.closed {\n		if b.recvMap[recv.name] == recv {\n			delete(b.recvMap, recv.name)\n		}\n		recv.closed = true\n		close(recv.ch)\n	}\n")
BB((V, "	recv := &Receiver{\n		C:        ch,\n		ch:       ch,\n		name:     name,\n		bus:      b,\n		strategy: fullStrategy,\n		done:     make(chan struct{}),\n	}\n", "	recv := newReceiver(b, name, ch)\n	recv.strategy = fullStrategy\n"), (V, "", "\nfunc newReceiver(b *FanOutBus, name string, ch chan interface{}) *Receiver {\n	r := new(Receiver)\n	r.C, r.ch = ch, ch\n	r.name, r.bus = name, b\n	r.done = make(chan struct{})\n	return r\n}\n"))
B(V, "	go b.doDispatch()\n", "	go func() {\n		b.doDispatch()\n	}()\n")
B(V, "	data = make([]interface{}, 0, 10)\ndrained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:\n			break drained\n		}\n	}\n	return data\n", "	data = []interface{}{}\n	for {\n		d, ok := r.poll()\n		if !ok {\n			return data\n		}\n		data = append(data, d)\n	}\n}\n\nfunc (r *Receiver) poll() (interface{}, bool) {\n	select {\n	case d, ok := <-r.C:\n		return d, ok\n	default:\n		return nil, false\n	}\n")
BB((V, "	timer := time.NewTimer(timeout)\n	defer timer.Stop()\n", "	expired := time.After(timeout)\n"), (V, "		case <-timer.C:\n", "		case <-expired:\n"))
B(V, "			data = append(data, d)\n		case <-timer.C:\n			break drained\n		}\n	}\n	return\n", "			data = append(data, d)\n			continue\n		case <-timer.C:\n		}\n		return data\n	}\n	return data\n")
B(V, "drained:\n	for {\n		select {\n		case d, ok := <-r.C:\n			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		case <-timer.C:\n			break drained\n		}\n	}\n	return\n", "	for done := false; !done; {\n		select {\n		case d, ok := <-r.C:\n			if ok {\n				data = append(data, d)\n			} else {\n				done = true\n			}\n		case <-timer.C:\n			done = true\n		}\n	}\n	return data\n")

M("E01", "event/bus.go", "	case Block:\n		select {\n		case r.ch <- v:\n", "	case Block:\n		select {\n")
