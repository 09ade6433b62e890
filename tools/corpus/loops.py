SW = "ratelimiter/slidingwindow.go"
M("X04 R03", SW, "		s.records.Remove(s.records.Front())\n	}\n\n	s.capacity = capacity\n", "		s.records.Front()\n	}\n\n	s.capacity = capacity\n")
M("X04", SW, "		s.records.Remove(s.records.Front())\n	}\n\n	s.capacity = capacity\n", "		if f := s.records.Front(); f.Value != nil && s.windowSize > 0 {\n			s.records.Remove(f)\n		}\n	}\n\n	s.capacity = capacity\n")
B(SW, "	for s.records.Len() > 0 && s.records.Len() > capacity {\n", "	for n := s.records.Len(); n > capacity; n-- {\n")
EB = "event/bus.go"
M("X04", EB, "			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:\n", "			if !ok {\n				continue\n			}\n			data = append(data, d)\n		default:\n")
FR = "schedule/fixed_rate_task.go"
M("X04", FR, "			go t.runJob(t.nextNo())\n		case <-t.stopSig:\n			// task is stopped\n			return\n", "			go t.runJob(t.nextNo())\n		case <-t.stopSig:\n			// task is stopped\n			break\n")
FD = "schedule/fixed_delay_task.go"
SEM = "concurrent/sema.go"
M("X04", SEM, "	for s.isFull() {\n		s.notFull.Wait()\n	}\n", "	for s.isFull() {\n	}\n")
MS = "confs/mysql.go"
B(MS, "		for _, str := range strs {\n			p := strings.Split(str, \"=\")\n			if len(p) != 2 {\n				continue\n			}\n", "		for i := 0; i < len(strs); i++ {\n			p := strings.Split(strs[i], \"=\")\n			if len(p) != 2 {\n				continue\n			}\n")
M("X04", MS, "		for _, str := range strs {\n			p := strings.Split(str, \"=\")\n			if len(p) != 2 {\n				continue\n			}\n			unescape, err := url.QueryUnescape(p[1])\n			if err != nil {\n				continue\n			}\n			mc.Params[p[0]] = unescape\n", "		for len(strs) > 0 {\n			p := strings.Split(strs[0], \"=\")\n			if len(p) != 2 {\n				continue\n			}\n			unescape, err := url.QueryUnescape(p[1])\n			if err != nil {\n				continue\n			}\n			mc.Params[p[0]] = unescape\n			strs = strs[1:]\n")
B(FD, "	for {\n		select {\n		case <-t.jobQ:\n			if t.getStatus() == stopped {\n				return\n			}\n			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n		case <-t.stopSig:\n			// task is stopped\n			return\n		}\n	}\n", "	for done := false; !done; {\n		select {\n		case <-t.jobQ:\n			if done = t.getStatus() == stopped; done {\n				break\n			}\n			t.runJob(t.nextNo())\n			go t.appendJobQueueFuture()\n		case <-t.stopSig:\n			done = true\n		}\n	}\n")
B(EB, "			if !ok {\n				break drained\n			}\n			data = append(data, d)\n		default:\n", "			if ok {\n				data = append(data, d)\n				continue\n			}\n			return\n		default:\n")
