C = "conf/conf.go"
E_ = "conf/env.go"
FL = "conf/flag.go"
Y = "conf/yaml.go"
RF = "conf/reflect.go"
ST = "conf/string.go"
# F01
M("F01", C, "	resolvers = append(resolvers, er)\n	resolvers = append(resolvers, fr)\n", "	resolvers = append(resolvers, fr)\n	resolvers = append(resolvers, er)\n")
M("F01", C, "	resolvers = append(resolvers, fr)\n", "")
M("F01", C, "	resolvers = append(resolvers, er)\n", "	if yamlFile == \"\" {\n		resolvers = append(resolvers, er)\n	}\n")
MM("F01", (C, "	if yamlFile != \"\" {\n		yr := &yamlFileResolver{File: yamlFile}\n		resolvers = append(resolvers, yr)\n	}\n", ""), (C, "	resolvers = append(resolvers, fr)\n", "	if yamlFile != \"\" {\n		yr := &yamlFileResolver{File: yamlFile}\n		resolvers = append(resolvers, yr)\n	}\n	resolvers = append(resolvers, fr)\n"))
M("F01", C, "os.Exit(2)", "os.Exit(0)")
M("F01", C, "			os.Exit(2)\n", "			if len(os.Args) > 1 {\n				os.Exit(2)\n			}\n			return\n")
M("F01", C, "			fmt.Println(err.Error())\n", "			fmt.Println()\n")
M("F01", C, "	initStruct(p)\n\n	resolvers", "	resolvers")
M("F01", C, "	fr.flagSet = flag.CommandLine\n	fr.init(p)\n\n	flag.Parse()\n", "	flag.Parse()\n\n	fr.flagSet = flag.CommandLine\n	fr.init(p)\n")
M("F01", C, "	fr.flagSet = flag.CommandLine\n", "")
M("F01", C, "	er.init(p)\n", "	er.init(&p)\n")
M("F01", E_, "		if !ok {\n			continue", "		if !ok || v == \"\" {\n			continue")
M("F01", E_, "		v, ok := os.LookupEnv(env)\n		if !ok {\n			continue", "		v := os.Getenv(env)\n		if v == \"\" {\n			continue")
M("F01", E_, "		if err := flagSet.Set(env, v); err != nil {\n			return r.failf(\"invalid value %q for env %s: %v\", v, env, err)\n		}\n", "		if err := flagSet.Set(env, v); err != nil {\n			r.failf(\"invalid value %q for env %s: %v\", v, env, err)\n		}\n")
M("F01", E_, "		if !ok {\n			continue", "		if !ok {\n			break")
M("F01", E_, "flagSet.Set(env, v)", "flagSet.Set(env, strings.TrimSpace(v))".replace("strings.TrimSpace(v)", "v+\"\"[:0]")) if False else None
M("F01", E_, "	for _, env := range r.environ {", "	for _, env := range r.environ[1:] {")
M("F01", E_, "	return err\n}", "	return nil\n}")
M("F01", FL, "r.args = os.Args[1:]", "r.args = os.Args[2:]")
M("F01", FL, "	return flagSet.Parse(r.args)\n", "	flagSet.Parse(r.args)\n	return nil\n")
M("F01", FL, "	return flagSet.Parse(r.args)\n", "	if flagSet.Parsed() {\n		return nil\n	}\n	return flagSet.Parse(r.args)\n")
M("F01", Y, "	if err != nil {\n		return err\n	}\n\n	err = yaml", "	if os.IsNotExist(err) {\n		return nil\n	}\n	if err != nil {\n		return err\n	}\n\n	err = yaml") if False else None
MM("F01", (Y, "	\"io/ioutil\"\n", "	\"io/ioutil\"\n	\"os\"\n"), (Y, "	if err != nil {\n		return err\n	}\n\n	err = yaml", "	if os.IsNotExist(err) {\n		return nil\n	}\n	if err != nil {\n		return err\n	}\n\n	err = yaml"))
M("F01", Y, "	err = yaml.Unmarshal(bytes, p)\n	if err != nil {\n		return err\n	}\n", "	_ = yaml.Unmarshal(bytes, p)\n")
M("F01", Y, "yaml.Unmarshal(bytes, p)", "yaml.Unmarshal(bytes, &p)")
M("F01", C, "	if yamlFile != \"\" {", "	if yamlFile != \"\" && yamlFlagName != \"config\" {")
# benign
B(C, "	for _, resolver := range resolvers {\n		if err := resolver.Resolve(p); err != nil {\n			fmt.Println(err.Error())\n			os.Exit(2)\n		}\n	}\n", "	for i := 0; i < len(resolvers); i++ {\n		err := resolvers[i].Resolve(p)\n		if err == nil {\n			continue\n		}\n		fmt.Println(err.Error())\n		os.Exit(2)\n	}\n")
BB((C, "			fmt.Println(err.Error())\n			os.Exit(2)\n", "			die(err)\n"), (C, "", "\nfunc die(err error) {\n	fmt.Println(err)\n	os.Exit(2)\n}\n"))
B(C, "	resolvers = append(resolvers, er)\n	resolvers = append(resolvers, fr)\n", "	resolvers = append(resolvers, er, fr)\n")
B(C, "	er := &envResolver{}\n	er.init(p)\n\n	fr := &flagResolver{}\n	fr.flagSet = flag.CommandLine\n	fr.init(p)\n", "	fr := &flagResolver{flagSet: flag.CommandLine}\n	fr.init(p)\n\n	er := &envResolver{}\n	er.init(p)\n")
BB((C, "	resolvers := make([]confResolver, 0)\n\n", ""), (C, "	if yamlFile != \"\" {\n		yr := &yamlFileResolver{File: yamlFile}\n		resolvers = append(resolvers, yr)\n	}\n	resolvers = append(resolvers, er)\n	resolvers = append(resolvers, fr)\n\n	for _, resolver := range resolvers {\n		if err := resolver.Resolve(p); err != nil {\n			fmt.Println(err.Error())\n			os.Exit(2)\n		}\n	}\n", "	apply := func(s confResolver) {\n		if err := s.Resolve(p); err != nil {\n			fmt.Println(err.Error())\n			os.Exit(2)\n		}\n	}\n	if yamlFile != \"\" {\n		apply(&yamlFileResolver{File: yamlFile})\n	}\n	apply(er)\n	apply(fr)\n"))
BB((C, "	yamlFile := \"\"\n	if yamlFlagName != \"\" {\n		flag.StringVar(&yamlFile, yamlFlagName, \"\", \"yaml config file\")\n	}\n", "	var yamlFile *string\n	if yamlFlagName != \"\" {\n		yamlFile = flag.String(yamlFlagName, \"\", \"yaml config file\")\n	}\n"), (C, "	if yamlFile != \"\" {\n		yr := &yamlFileResolver{File: yamlFile}", "	if yamlFile != nil && *yamlFile != \"\" {\n		yr := &yamlFileResolver{File: *yamlFile}"))
B(E_, "		v, ok := os.LookupEnv(env)\n		if !ok {\n			continue\n		}\n		if err := flagSet.Set(env, v); err != nil {\n			return r.failf(\"invalid value %q for env %s: %v\", v, env, err)\n		}\n", "		if v, ok := os.LookupEnv(env); ok {\n			if err := flagSet.Set(env, v); err != nil {\n				return r.failf(\"invalid value %q for env %s: %v\", v, env, err)\n			}\n		}\n")
B(E_, "	for _, env := range r.environ {\n", "	for i := range r.environ {\n		env := r.environ[i]\n")
B(E_, "	if r.environ == nil {\n		r.environ = make([]string, 0)\n	}\n", "	if r.environ == nil {\n		r.environ = []string{}\n	}\n")
B(Y, "	err = yaml.Unmarshal(bytes, p)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	return yaml.Unmarshal(bytes, p)\n")
# F02
M("F02", E_, "			case reflect.Uint64:\n				flagSet.Uint64Var(vi.(*uint64), envName, v.Uint(), path)\n", "")
M("F02", FL, "			case reflect.Float64:\n				flagSet.Float64Var(vi.(*float64), flagName, v.Float(), path)\n", "")
M("F02", FL, "flagSet.BoolVar(vi.(*bool), flagName, v.Bool(), path)", "flagSet.BoolVar(vi.(*bool), flagName, false, path)")
M("F02", E_, "flagSet.StringVar(vi.(*string), envName, v.String(), path)", "flagSet.StringVar(vi.(*string), envName, \"\", path)")
M("F02", E_, "		case reflect.TypeOf(time.Nanosecond):", "		case reflect.TypeOf(time.Second.Nanoseconds()):")
M("F02", E_, "		switch vt {\n		case reflect.TypeOf(time.Nanosecond):\n			flagSet.DurationVar(vi.(*time.Duration), envName, time.Duration(v.Int()), path)\n		default:\n", "		switch {\n		case vt == reflect.TypeOf(time.Nanosecond):\n			flagSet.Int64Var((*int64)(vi.(*time.Duration)), envName, v.Int(), path)\n		default:\n")
M("F02", FL, "flagSet.IntVar(vi.(*int), flagName, int(v.Int()), path)", "flagSet.IntVar(vi.(*int), flagName, int(v.Int()), path)\n				flagSet.IntVar(vi.(*int), path, int(v.Int()), path)")
M("F02", FL, "		flagName := flagStyle(path)\n", "		flagName := flagStyle(f.Name)\n")
M("F02", FL, "		flagName := flagStyle(path)\n", "		flagName := lowerASCIIs(path)\n") if False else None
M("F02", E_, "		r.environ = append(r.environ, envName)\n", "		if v.Kind() != reflect.Uint64 {\n			r.environ = append(r.environ, envName)\n		}\n")
M("F02", E_, "	flagSet := r.flagSet\n\n	visit", "	flagSet := flag.CommandLine\n\n	visit")
M("F02", FL, "flagSet.UintVar(vi.(*uint), flagName, uint(v.Uint()), path)", "flagSet.UintVar(vi.(*uint), flagName, uint(v.Int()), path)")
B(E_, "		default:\n			switch k := vt.Kind(); k {", "		default:\n			k := vt.Kind()\n			switch k {")
SW_E = open("/repo/conf/env.go").read()
a = SW_E.index("		vi := v.Addr()"); z = SW_E.index("	})\n\n}\n\nfunc (r *envResolver) Resolve")
TYPESW = '''		bindField(flagSet, envName, path, v)
'''
BINDER = '''
func bindField(set *flag.FlagSet, name, usage string, v reflect.Value) {
	switch ptr := v.Addr().Interface().(type) {
	case *time.Duration:
		set.DurationVar(ptr, name, *ptr, usage)
	case *bool:
		set.BoolVar(ptr, name, v.Bool(), usage)
	case *float64:
		set.Float64Var(ptr, name, v.Float(), usage)
	case *int:
		set.IntVar(ptr, name, int(v.Int()), usage)
	case *int64:
		set.Int64Var(ptr, name, v.Int(), usage)
	case *string:
		set.StringVar(ptr, name, v.String(), usage)
	case *uint:
		set.UintVar(ptr, name, uint(v.Uint()), usage)
	case *uint64:
		set.Uint64Var(ptr, name, v.Uint(), usage)
	}
}
'''
BB((E_, SW_E[a:z], TYPESW), (E_, "", BINDER.replace("*ptr, usage", "time.Duration(v.Int()), usage")))
BB((E_, SW_E[a:z], TYPESW), (E_, "", BINDER))
MM("F02", (E_, SW_E[a:z], TYPESW), (E_, "", BINDER.replace("	case *uint64:\n		set.Uint64Var(ptr, name, v.Uint(), usage)\n", "")))
SW_F = open("/repo/conf/flag.go").read()
fa = SW_F.index("		vi := v.Addr()"); fz = SW_F.index("	})\n\n}\nfunc (r *flagResolver) Resolve")
IFS = '''		vt, ptr := v.Type(), v.Addr().Interface()
		if vt == reflect.TypeOf(time.Duration(0)) {
			flagSet.DurationVar(ptr.(*time.Duration), flagName, time.Duration(v.Int()), path)
			return
		}
		switch v.Kind() {
		case reflect.Bool:
			flagSet.BoolVar(ptr.(*bool), flagName, v.Bool(), path)
		case reflect.Float64:
			flagSet.Float64Var(ptr.(*float64), flagName, v.Float(), path)
		case reflect.Int:
			flagSet.IntVar(ptr.(*int), flagName, int(v.Int()), path)
		case reflect.Int64:
			flagSet.Int64Var(ptr.(*int64), flagName, v.Int(), path)
		case reflect.String:
			flagSet.StringVar(ptr.(*string), flagName, v.String(), path)
		case reflect.Uint:
			flagSet.UintVar(ptr.(*uint), flagName, uint(v.Uint()), path)
		case reflect.Uint64:
			flagSet.Uint64Var(ptr.(*uint64), flagName, v.Uint(), path)
		}
'''
B(FL, SW_F[fa:fz], IFS)
M("F02", FL, SW_F[fa:fz], IFS.replace("			return\n", ""))
# F03
M("F03", ST, "	prevDot := true\n	for i := 0; i < len(bs); i++ {\n		b := bs[i]\n		if isUpperASCII(b) {\n			if !prevDot {\n				rs = append(rs, '-')", "	prevDot := false\n	for i := 0; i < len(bs); i++ {\n		b := bs[i]\n		if isUpperASCII(b) {\n			if i > 0 && !prevDot {\n				rs = append(rs, '-')") if False else None
M("F03", ST, "			rs = append(rs, lowerASCII(b))\n			prevDot = false\n", "			rs = append(rs, lowerASCII(b))\n			prevDot = true\n")
M("F03", ST, "			rs = append(rs, '-')\n			prevDot = true\n		} else {\n			rs = append(rs, b)\n			prevDot = false\n", "			rs = append(rs, '-')\n			prevDot = true\n		} else {\n			rs = append(rs, b)\n")
M("F03", ST, "			rs = append(rs, upperASCII(b))\n			prevDot = false\n", "			rs = append(rs, upperASCII(b))\n			prevDot = '0' <= b && b <= '9'\n")
M("F03", ST, "return 'A' <= b && b <= 'Z'", "return 'A' <= b && b < 'Z'")
M("F03", ST, "return 'a' <= b && b <= 'z'", "return 'a' < b && b <= 'z'")
M("F03", ST, "			rs = append(rs, b)\n			prevDot = false\n		} else if b == '.' {\n			rs = append(rs, '_')", "			rs = append(rs, b)\n			prevDot = false\n		} else if b == '.' || b == '-' {\n			rs = append(rs, '_')")
M("F03", ST, "			rs = append(rs, b)\n			prevDot = false\n		}\n	}\n\n	return string(rs)", "			if b != '_' {\n				rs = append(rs, b)\n			}\n			prevDot = false\n		}\n	}\n\n	return string(rs)")
M("F03", ST, "	for i := 0; i < len(bs); i++ {", "	for i := 0; i < len(bs) && i < 64; i++ {")
fs = open("/repo/conf/string.go").read()
x = fs.index("	bs := []byte(path)"); y = fs.index("}\n\n// Foo.BarBaz -> FOO_BAR_BAZ")
BODY = fs[x:y]
B(ST, "	for i := 0; i < len(bs); i++ {\n		b := bs[i]\n", "	for _, b := range bs {\n")
B(ST, BODY, '''	rs := make([]byte, 0, 2*len(path))
	for i := 0; i < len(path); i++ {
		c := path[i]
		switch {
		case c == '.':
			rs = append(rs, '-')
		case isUpperASCII(c):
			if i > 0 && path[i-1] != '.' {
				rs = append(rs, '-')
			}
			rs = append(rs, lowerASCII(c))
		default:
			rs = append(rs, c)
		}
	}
	return string(rs)
''')
M("F03", ST, BODY, '''	rs := make([]byte, 0, 2*len(path))
	for i := 0; i < len(path); i++ {
		c := path[i]
		switch {
		case c == '.':
			rs = append(rs, '-')
		case isUpperASCII(c):
			if i > 0 && path[i-1] != '.' && !isUpperASCII(path[i-1]) {
				rs = append(rs, '-')
			}
			rs = append(rs, lowerASCII(c))
		default:
			rs = append(rs, c)
		}
	}
	return string(rs)
''')
BB((ST, "package conf\n", "package conf\n\nimport \"strings\"\n"), (ST, BODY, '''	var sb strings.Builder
	dot := true
	for _, c := range path {
		if c >= 'A' && c <= 'Z' {
			if !dot {
				sb.WriteByte('-')
			}
			c += 'a' - 'A'
		}
		dot = c == '.'
		if dot {
			sb.WriteByte('-')
		} else {
			sb.WriteRune(c)
		}
	}
	return sb.String()
'''))
BB((ST, BODY, '''	return styled(path, '-', lowerASCII)
'''), (ST, fs[fs.index("\n	bs := []byte(path)", y):fs.index("}\n\nfunc lowerASCII")], "	return styled(path, '_', upperASCII)\n"), (ST, "", '''
func styled(path string, sep byte, conv func(byte) byte) string {
	out := make([]byte, 0, len(path))
	inWord := false
	for i := 0; i < len(path); i++ {
		b := path[i]
		if b == '.' {
			out = append(out, sep)
			inWord = false
			continue
		}
		if inWord && isUpperASCII(b) {
			out = append(out, sep)
		}
		out = append(out, conv(b))
		inWord = true
	}
	return string(out)
}
'''))
MM("F03", (ST, BODY, '''	return styled(path, '-', lowerASCII)
'''), (ST, "", '''
func styled(path string, sep byte, conv func(byte) byte) string {
	out := make([]byte, 0, len(path))
	inWord := false
	for i := 0; i < len(path); i++ {
		b := path[i]
		if b == '.' {
			out = append(out, sep)
			inWord = false
			continue
		}
		if inWord && isUpperASCII(b) {
			out = append(out, sep)
		}
		out = append(out, conv(b))
		inWord = b != '_'
	}
	return string(out)
}
'''))
# F04
M("F04", RF, "		if v.IsNil() {\n			return\n		}\n		v = v.Elem()\n	}\n\n	if !v.CanSet() {\n		return\n	}\n\n	switch", "		return\n	}\n\n	if !v.CanSet() {\n		return\n	}\n\n	switch")
M("F04", RF, "v.IsNil() && v.CanSet()", "v.CanSet()")
M("F04", RF, "		fn(path, f, v)\n", "		if f.PkgPath == \"\" && f.Name[0] != 'X' {\n			fn(path, f, v)\n		}\n")
M("F04", RF, "reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:", "reflect.Int64, reflect.String, reflect.Uint:")
M("F04", RF, "reflect.Int64, reflect.String,", "reflect.Int64, reflect.Int32, reflect.String,")
M("F04", RF, "		if t := v.Type(); t.PkgPath() != \"\" && t != reflect.TypeOf(time.Nanosecond) {", "		if t := v.Type(); t.PkgPath() != \"\" && t.Kind() != reflect.Int64 && t != reflect.TypeOf(time.Nanosecond) {")
M("F04", RF, "				visitExportedFieldsPath(f, fv, path, fn)\n", "				visitExportedFieldsPath(f, fv, \"\", fn)\n")
M("F04", RF, "				visitExportedFieldsPath(f, fv, path, fn)\n			} else {\n				if path", "				visitExportedFieldsPath(f, fv, path+\".\"+f.Name, fn)\n			} else {\n				if path")
M("F04", RF, "path+\".\"+f.Name, fn)", "path+f.Name, fn)")
M("F04", RF, "			visitExportedFieldsPath(f, fv, \"\", fn)\n", "			visitExportedFieldsPath(f, fv, f.Name, fn)\n")
M("F04", RF, "	case reflect.Struct:\n		for i := 0; i < v.NumField(); i++ {", "	case reflect.Struct:\n		for i := 0; i < v.NumField() && i < 32; i++ {")
M("F04", RF, "	case reflect.Struct:\n		for i := 0; i < v.NumField(); i++ {", "	case reflect.Struct:\n		for i := 1; i < v.NumField(); i++ {")
M("F04", RF, "			fv := v.Field(i)\n			f := v.Type().Field(i)\n			if f.Anonymous {", "			fv := v.Field(i)\n			f := v.Type().Field(i)\n			if fv.Kind() == reflect.Ptr && f.Anonymous {\n				continue\n			}\n			if f.Anonymous {")
M("F04", RF, "			initPtrValue(fv, f.Name)\n", "			if !f.Anonymous {\n				initPtrValue(fv, f.Name)\n			}\n")
M("F04", RF, "	if v.Kind() != reflect.Struct {\n		return\n	}\n\n	for i := 0; i < v.NumField(); i++ {\n		fv := v.Field(i)\n		f := v.Type().Field(i)\n\n", "	if v.Kind() != reflect.Struct || strings.Count(path, \".\") > 3 {\n		return\n	}\n\n	for i := 0; i < v.NumField(); i++ {\n		fv := v.Field(i)\n		f := v.Type().Field(i)\n\n") if False else None
M("F04", RF, "			v.Set(reflect.New(t))\n", "			if t.Kind() == reflect.Struct {\n				v.Set(reflect.New(t))\n			}\n")
M("F04", RF, "			v.Set(reflect.New(t))\n		}\n		v = v.Elem()\n", "			v.Set(reflect.New(t))\n			return\n		}\n		v = v.Elem()\n")
B(RF, "	for i := 0; i < v.NumField(); i++ {\n		fv := v.Field(i)\n		f := v.Type().Field(i)\n\n		if path == \"\" {", "	t := v.Type()\n	n := t.NumField()\n	for i := 0; i < n; i++ {\n		fv := v.Field(i)\n		f := t.Field(i)\n\n		if path == \"\" {")
B(RF, "			if f.Anonymous {\n				// f is embedded field\n				visitExportedFieldsPath(f, fv, path, fn)\n			} else {\n				if path == \"\" {\n					visitExportedFieldsPath(f, fv, f.Name, fn)\n				} else {\n					visitExportedFieldsPath(f, fv, path+\".\"+f.Name, fn)\n				}\n\n			}\n", "			sub := path\n			if !f.Anonymous {\n				if sub != \"\" {\n					sub += \".\"\n				}\n				sub += f.Name\n			}\n			visitExportedFieldsPath(f, fv, sub, fn)\n")
BB((RF, "	case reflect.Struct:\n		for i := 0; i < v.NumField(); i++ {\n			fv := v.Field(i)\n			f := v.Type().Field(i)\n			if f.Anonymous {\n				// f is embedded field\n				visitExportedFieldsPath(f, fv, path, fn)\n			} else {\n				if path == \"\" {\n					visitExportedFieldsPath(f, fv, f.Name, fn)\n				} else {\n					visitExportedFieldsPath(f, fv, path+\".\"+f.Name, fn)\n				}\n\n			}\n		}\n", "	case reflect.Struct:\n		visitStruct(v, path, fn)\n"), (RF, "	for i := 0; i < v.NumField(); i++ {\n		f := v.Type().Field(i)\n		fv := v.Field(i)\n		if f.Anonymous {\n			// f is embedded field\n			visitExportedFieldsPath(f, fv, \"\", fn)\n		} else {\n			visitExportedFieldsPath(f, fv, f.Name, fn)\n		}\n	}\n", "	visitStruct(v, \"\", fn)\n"), (RF, "", "\nfunc visitStruct(v reflect.Value, path string, fn visitor) {\n	t := v.Type()\n	for i := 0; i < t.NumField(); i++ {\n		f := t.Field(i)\n		visitExportedFieldsPath(f, v.Field(i), childPath(path, f), fn)\n	}\n}\n\nfunc childPath(path string, f reflect.StructField) string {\n	if f.Anonymous {\n		return path\n	}\n	if path == \"\" {\n		return f.Name\n	}\n	return path + \".\" + f.Name\n}\n"))
MM("F04", (RF, "	case reflect.Struct:\n		for i := 0; i < v.NumField(); i++ {\n			fv := v.Field(i)\n			f := v.Type().Field(i)\n			if f.Anonymous {\n				// f is embedded field\n				visitExportedFieldsPath(f, fv, path, fn)\n			} else {\n				if path == \"\" {\n					visitExportedFieldsPath(f, fv, f.Name, fn)\n				} else {\n					visitExportedFieldsPath(f, fv, path+\".\"+f.Name, fn)\n				}\n\n			}\n		}\n", "	case reflect.Struct:\n		visitStruct(v, path, fn)\n"), (RF, "", "\nfunc visitStruct(v reflect.Value, path string, fn visitor) {\n	t := v.Type()\n	for i := 0; i < t.NumField(); i++ {\n		f := t.Field(i)\n		visitExportedFieldsPath(f, v.Field(i), childPath(path, f), fn)\n	}\n}\n\nfunc childPath(path string, f reflect.StructField) string {\n	if f.Anonymous || path == f.Name {\n		return path\n	}\n	if path == \"\" {\n		return f.Name\n	}\n	return path + \".\" + f.Name\n}\n"))
B(RF, "	if v.Kind() == reflect.Ptr {\n		if t := v.Type().Elem(); v.IsNil() && v.CanSet() {\n			v.Set(reflect.New(t))\n		}\n		v = v.Elem()\n	}\n", "	if v.Kind() == reflect.Ptr {\n		if v.IsNil() {\n			if !v.CanSet() {\n				return\n			}\n			n := reflect.New(v.Type().Elem())\n			v.Set(n)\n			v = n.Elem()\n		} else {\n			v = v.Elem()\n		}\n	}\n")
B(RF, "	if v.Kind() == reflect.Ptr {\n		if v.IsNil() {\n			return\n		}\n		v = v.Elem()\n	}\n\n	if !v.CanSet() {\n		return\n	}\n\n	switch", "	v = reflect.Indirect(v)\n	if !v.CanSet() {\n		return\n	}\n\n	switch")
B(RF, "	switch k := v.Kind(); k {\n\n	case reflect.Bool,", "	if !v.IsValid() {\n		return\n	}\n	switch v.Kind() {\n\n	case reflect.Bool,")
B(RF, "	for i := 0; i < v.NumField(); i++ {\n		f := v.Type().Field(i)\n		fv := v.Field(i)\n		if f.Anonymous {", "	for i := 0; i < v.NumField(); i++ {\n		f := v.Type().Field(i)\n		fv := v.Field(i)\n		if f.PkgPath != \"\" {\n			continue\n		}\n		if f.Anonymous {")
