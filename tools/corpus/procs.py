V = "confstore/procs.go"
M("K09", V, "	ok = len(value) >= s.minLength && len(value) <= s.maxLength\n", "	ok = len(value) >= s.minLength && len(value) < s.maxLength\n")
M("K09", V, "	if value != \"true\" && value != \"false\" {\n", "	if _, e := strconv.ParseBool(value); e != nil {\n")
M("K09", V, "	if value != \"true\" && value != \"false\" {\n", "	if strings.ToLower(value) != \"true\" && value != \"false\" {\n")
M("K07", V, "	v, _ := strconv.ParseBool(value)\n	return v\n", "	return value != \"true\"\n")
M("K07", V, "	v, _ := strconv.ParseBool(value)\n	return v\n", "	return value\n")
M("K09", V, "		if v <= i.min {\n", "		if v < i.min {\n")
M("K09", V, "		if v >= i.max {\n", "		if v > i.max {\n")
M("K09", V, "	if i.maxInclude {\n", "	if i.minInclude {\n")
M("K09", V, "minInclude: minInclude, max: max, maxInclude: maxInclude}", "minInclude: maxInclude, max: max, maxInclude: minInclude}")
M("K09", V, "IntProcessor(0, false, math.MaxInt32, true)", "IntProcessor(0, false, math.MaxInt32, false)")
M("K09", V, "IntProcessor(0, true, math.MaxInt32, true)", "IntProcessor(-1, true, math.MaxInt32, true)")
M("K09", V, "StringProcessor(0, math.MaxInt32)", "StringProcessor(0, math.MaxInt16)")
M("K07 K09", V, "	v, e := strconv.Atoi(value)\n	if e != nil {\n", "	v64, e := strconv.ParseInt(value, 0, 64)\n	v := int(v64)\n	if e != nil {\n")
M("K07", V, "	v, _ := strconv.Atoi(value)\n	return v\n", "	v, _ := strconv.ParseInt(value, 10, 64)\n	return v\n")
M("K07", V, "	v, _ := strconv.Atoi(value)\n	return v\n", "	v, _ := strconv.ParseInt(value, 10, 32)\n	return int(v)\n")
M("K07", V, "	v, _ := strconv.Atoi(value)\n	return v\n", "	v, _ := strconv.Atoi(strings.TrimSpace(value))\n	return v\n")
M("K07", V, "	v, e := strconv.Atoi(value)\n	if e != nil {\n", "	v, e := strconv.Atoi(strings.TrimSpace(value))\n	if e != nil {\n")
M("K07", V, "	_, e := time.ParseDuration(value)\n	if e != nil {\n", "	_, e := time.ParseDuration(value)\n	if e != nil && value != \"\" {\n")
M("K07", V, "	v, _ := time.ParseDuration(value)\n	return v\n", "	v, _ := time.ParseDuration(value)\n	return int64(v)\n")
M("K07", V, "	v, _ := time.ParseDuration(value)\n	return v\n", "	v, _ := time.ParseDuration(value)\n	return v.Truncate(time.Millisecond)\n")
M("K07", V, "		var null *url.URL\n		return null\n", "		return nil\n")
M("K07", V, "		var null *rsa.PublicKey\n		return null\n", "		return &rsa.PublicKey{}\n")
M("K07", V, "	_, e := url.ParseRequestURI(value)\n	if e != nil {\n", "	_, e := url.Parse(value)\n	if e != nil {\n")
M("K07", V, "	v, _ := url.ParseRequestURI(value)\n	return v\n", "	v, _ := url.Parse(value)\n	return v\n")
M("K07", V, "	v, _ := url.ParseRequestURI(value)\n	return v\n", "	v, _ := url.ParseRequestURI(value)\n	return *v\n")
M("K07", V, "	_, error := rsautil.ReadPublicKey(value)\n", "	_, error := rsautil.ReadPublicKey(strings.TrimSpace(value))\n")
M("K07", V, "	if value == \"\" {\n		var null *rsa.PrivateKey\n		return null\n	}\n", "")
M("K09", V, "^#[a-fA-F0-9]{6}$", "^#[a-fA-F0-9]{3,6}$")
M("K09", V, "^#[a-fA-F0-9]{6}$", "^#[a-fA-F0-9]{6}")
M("K09", V, "^#[a-fA-F0-9]{6}$", "(?m)^#[a-fA-F0-9]{6}$")
M("K09", V, "^#[a-fA-F0-9]{6}$", "^#[A-f0-9]{6}$")
M("K09", V, "^#[a-fA-F0-9]{6}$", "^#[a-fA-F\\\\d]{6}$|^#[a-f]{3}$")
M("K09", V, "		m[enum] = true\n", "		if enum != \"\" {\n			m[enum] = true\n		}\n")
M("K09", V, "		m[enum] = true\n", "		m[strings.TrimSpace(enum)] = true\n")
M("K09", V, "	for _, enum := range enums {\n", "	m[\"\"] = true\n	for _, enum := range enums {\n")
M("K09", V, "	_, ok = e.enums[value]\n", "	_, ok = e.enums[strings.ToLower(value)]\n")
M("K09", V, "		return false, \"not duration value\"\n", "		return false, \"\"\n")
M("K09", V, "		err = fmt.Sprintf(\"len(value) not", "		_ = fmt.Sprintf(\"len(value) not")
M("K09", V, "	return true, \"\"\n}\n\nfunc (b *bool", "	return true, \"ok\"\n}\n\nfunc (b *bool")
M("K07", V, "	return value\n}\n\ntype boolProcessor", "	return strings.TrimSpace(value)\n}\n\ntype boolProcessor")
# benign
B(V, "	ok = len(value) >= s.minLength && len(value) <= s.maxLength\n	if !ok {\n		err = fmt.Sprintf(\"len(value) not >= %d or <= %d\", s.minLength, s.maxLength)\n	}\n	return ok, err\n", "	n := len(value)\n	if n < s.minLength || n > s.maxLength {\n		return false, fmt.Sprintf(\"len(value) not >= %d or <= %d\", s.minLength, s.maxLength)\n	}\n	return true, \"\"\n")
B(V, "	if value != \"true\" && value != \"false\" {\n		return false, \"not bool value\"\n	}\n	return true, \"\"\n", "	switch value {\n	case \"true\", \"false\":\n		return true, \"\"\n	default:\n		return false, \"not bool value\"\n	}\n")
B(V, "	v, _ := strconv.ParseBool(value)\n	return v\n", "	return value == \"true\"\n")
BB((V, "	v, e := strconv.Atoi(value)\n	if e != nil {\n		return false, \"not int value\"\n	}\n	if i.minInclude {\n		if v < i.min {\n			return false, \"not >= \" + strconv.Itoa(i.min)\n		}\n	} else {\n		if v <= i.min {\n			return false, \"not > \" + strconv.Itoa(i.min)\n		}\n	}\n", "	v, e := strconv.Atoi(value)\n	if e != nil {\n		return false, \"not int value\"\n	}\n	if why := i.checkMin(v); why != \"\" {\n		return false, why\n	}\n"), (V, "", "\nfunc (i *intProcessor) checkMin(v int) string {\n	switch {\n	case i.minInclude && v < i.min:\n		return \"not >= \" + strconv.Itoa(i.min)\n	case !i.minInclude && v <= i.min:\n		return \"not > \" + strconv.Itoa(i.min)\n	}\n	return \"\"\n}\n"))
BB((V, "	match, error := regexp.MatchString(\"^#[a-fA-F0-9]{6}$\", value)\n	if error != nil {\n		return false, error.Error()\n	}\n	if !match {\n", "	if !cssColorRe.MatchString(value) {\n"), (V, "", "\nvar cssColorRe = regexp.MustCompile(`^#[[:xdigit:]]{6}$`)\n"))
B(V, "^#[a-fA-F0-9]{6}$", "^#(?:[0-9a-fA-F]{2}){3}$")
BB((V, "	_, e := url.ParseRequestURI(value)\n	if e != nil {\n		return false, \"not url value\"\n	}\n	return true, \"\"\n}\n\nfunc (u *urlProcessor)", "	return checkUrl(value)\n}\n\nfunc (u *urlProcessor)"), (V, "", "\nfunc checkUrl(s string) (bool, string) {\n	if _, e := url.ParseRequestURI(s); e != nil {\n		return false, \"not url value\"\n	}\n	return true, \"\"\n}\n"))
B(V, "	v, _ := url.ParseRequestURI(value)\n	return v\n", "	if v, e := url.ParseRequestURI(value); e == nil {\n		return v\n	}\n	return (*url.URL)(nil)\n")
B(V, "	if value == \"\" {\n		var null *rsa.PrivateKey\n		return null\n	}\n	v, _ := rsautil.ReadPrivateKey(value)\n	return v\n", "	var key *rsa.PrivateKey\n	if value != \"\" {\n		key, _ = rsautil.ReadPrivateKey(value)\n	}\n	return key\n")
B(V, "	m := make(map[string]bool, len(enums))\n	for _, enum := range enums {\n		m[enum] = true\n	}\n", "	m := map[string]bool{}\n	for i := 0; i < len(enums); i++ {\n		m[enums[i]] = true\n	}\n")
B(V, "	_, ok = e.enums[value]\n	if !ok {\n", "	if ok = e.enums[value]; !ok {\n")
B(V, "	enums map[string]bool\n}\n\nfunc EnumProcessor(enums []string) *enumProcessor {\n	m := make(map[string]bool, len(enums))\n	for _, enum := range enums {\n		m[enum] = true\n	}\n", "	enums map[string]struct{}\n}\n\nfunc EnumProcessor(enums []string) *enumProcessor {\n	m := make(map[string]struct{}, len(enums))\n	for _, enum := range enums {\n		m[enum] = struct{}{}\n	}\n")
M("K09", "confstore/procs.go", "func (u *urlProcessor) Validate(value string) (ok bool, err string) {\n	if value == \"\" {\n		return true, \"\"\n	}\n", "func (u *urlProcessor) Validate(value string) (ok bool, err string) {\n")
M("K09", "confstore/procs.go", "func (r *rsaPublicKey) Validate(value string) (ok bool, err string) {\n	if value == \"\" {\n		return true, \"\"\n	}\n", "func (r *rsaPublicKey) Validate(value string) (ok bool, err string) {\n")
M("K09", "confstore/procs.go", "	_, e := time.ParseDuration(value)\n	if e != nil {", "	x, e := time.ParseDuration(value)\n	if e != nil || x < 0 {")
M("K09", "confstore/procs.go", "	_, e := url.ParseRequestURI(value)\n	if e != nil {", "	v, e := url.ParseRequestURI(value)\n	if e != nil || v.Host == \"\" {")
M("K07 K09", "confstore/procs.go", "	_, e := url.ParseRequestURI(value)", "	_, e := url.Parse(value)")
M("K09", "confstore/procs.go", "	_, error := rsautil.ReadPrivateKey(value)\n	if error != nil {", "	k, error := rsautil.ReadPrivateKey(value)\n	if error == nil && k.E < 65537 {\n		return false, \"weak exponent\"\n	}\n	if error != nil {")
B("confstore/procs.go", "func (r *rsaPublicKey) Validate(value string) (ok bool, err string) {\n	if value == \"\" {\n		return true, \"\"\n	}\n	_, error := rsautil.ReadPublicKey(value)\n	if error != nil {\n		return false, error.Error()\n	}\n	return true, \"\"", "func (r *rsaPublicKey) Validate(value string) (ok bool, err string) {\n	if _, e := rsautil.ReadPublicKey(value); e != nil && value != \"\" {\n		return false, e.Error()\n	}\n	return true, \"\"")
B("confstore/procs.go", "func (u *urlProcessor) Validate(value string) (ok bool, err string) {\n	if value == \"\" {\n		return true, \"\"\n	}\n", "func (u *urlProcessor) Validate(value string) (ok bool, err string) {\n	if len(value) == 0 {\n		return true, \"\"\n	}\n")
BB(("confstore/procs.go", "	_, e := time.ParseDuration(value)\n	if e != nil {\n		return false, \"not duration value\"\n	}\n	return true, \"\"", "	_, e := time.ParseDuration(value)\n	return verdict(e, \"not duration value\")"), ("confstore/procs.go", "", "\nfunc verdict(e error, why string) (bool, string) {\n	if e == nil {\n		return true, \"\"\n	}\n	return false, why\n}\n"))
