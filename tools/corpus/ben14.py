# Walks from the last element to the first, where the order does not matter.
TM, PR = "schedule/task_manager.go", "confstore/procs.go"
ALL = "	for _, task := range m.taskMap {\n		task.Stop()\n	}\n"
COLL = "	tasks := make([]Task, 0, len(m.taskMap))\n	for _, task := range m.taskMap {\n		tasks = append(tasks, task)\n	}\n"
B(TM, ALL, COLL + "	for i := len(tasks) - 1; i >= 0; i-- {\n		tasks[i].Stop()\n	}\n")
B(TM, ALL, COLL + "	for n := len(tasks); n > 0; n-- {\n		tasks[n-1].Stop()\n	}\n")
B(TM, ALL, COLL + "	for n := len(tasks); n > 0; {\n		n--\n		tasks[n].Stop()\n	}\n")
M("S06", TM, ALL, COLL + "	for i := len(tasks) - 1; i > 0; i-- {\n		tasks[i].Stop()\n	}\n")
M("S06", TM, ALL, COLL + "	for i := len(tasks) - 2; i >= 0; i-- {\n		tasks[i].Stop()\n	}\n")
M("S06", TM, ALL, COLL + "	for i := len(tasks) - 1; i >= 0; i -= 2 {\n		tasks[i].Stop()\n	}\n")
M("S06", TM, ALL, COLL + "	for i := len(tasks); i > 1; i-- {\n		tasks[i-1].Stop()\n	}\n")
M("S06", TM, ALL, COLL + "	for i := len(tasks) - 1; i >= 0; i-- {\n		tasks[len(tasks)-1].Stop()\n	}\n")
SET = "	for _, enum := range enums {\n		m[enum] = true\n	}\n"
B(PR, SET, "	for i := len(enums) - 1; i >= 0; i-- {\n		m[enums[i]] = true\n	}\n")
M("K09", PR, SET, "	for i := len(enums) - 1; i > 0; i-- {\n		m[enums[i]] = true\n	}\n")
M("K09", PR, SET, "	for i := len(enums); i > 1; i-- {\n		m[enums[i-1]] = true\n	}\n")
M("K09", PR, SET, "	for i := len(enums) - 1; i >= 0; i-- {\n		if len(enums[i]) > 1 {\n			m[enums[i]] = true\n		}\n	}\n")
B(PR, SET, "	for i := len(enums) - 1; i >= 0; i-- {\n		m[enums[i]] = i > 0\n	}\n")
LK = "	_, ok = e.enums[value]\n"
B(PR, LK, "	ok = e.enums[value]\n")
MM("K09", (PR, SET, "	for i, enum := range enums {\n		m[enum] = i > 0\n	}\n"), (PR, LK, "	ok = e.enums[value]\n"))
MM("K09", (PR, SET, "	for _, enum := range enums {\n		m[enum] = enum != \"\"\n	}\n"), (PR, LK, "	ok = e.enums[value]\n"))
BB((PR, SET, "	for _, enum := range enums {\n		m[enum] = enum != \"\"\n	}\n"))
