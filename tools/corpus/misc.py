DTO = "dto/m.go"
TU = "testutil/panic.go"
M("D01", DTO, "return nil, err\n\t}\n\treturn raw", "return raw, err\n\t}\n\treturn raw")
M("D01", DTO, "return nil, err\n\t}\n\treturn raw", "return raw, nil\n\t}\n\treturn raw")
MM("D01", (DTO, "import \"encoding/json\"", "import (\n\t\"bytes\"\n\t\"encoding/json\"\n)"), (DTO, "json.Unmarshal(jsonB, &raw)", "json.NewDecoder(bytes.NewReader(jsonB)).Decode(&raw)"))
M("D01", DTO, "return json.Marshal(m)", "delete(m, \"\")\n\treturn json.Marshal(m)")
M("D01", DTO, "return json.Marshal(m)", "b, _ := json.Marshal(m)\n\treturn b, nil")
MM("D01", (DTO, "var raw = make(M, 5)\n", "raw := shared\n"), (DTO, "", "\nvar shared = make(M, 5)\n"))
M("D01", DTO, "var raw = make(M, 5)\n", "var raw = M{\"\": nil}\n")
M("D01", DTO, "\treturn raw, nil", "\tdelete(raw, \"\")\n\treturn raw, nil")
B(DTO, "var raw = make(M, 5)\n", "var raw M\n")
B(DTO, "\tif err := json.Unmarshal(jsonB, &raw); err != nil {\n\t\treturn nil, err\n\t}\n\treturn raw, nil", "\terr := json.Unmarshal(jsonB, &raw)\n\tif err == nil {\n\t\treturn raw, nil\n\t}\n\treturn nil, err")
B(DTO, "var raw = make(M, 5)\n\tif err := json.Unmarshal(jsonB, &raw); err != nil {\n\t\treturn nil, err\n\t}\n\treturn raw, nil", "var raw = new(M)\n\tif err := json.Unmarshal(jsonB, raw); err != nil {\n\t\treturn nil, err\n\t}\n\treturn *raw, nil")
B(DTO, "return json.Marshal(m)", "text, err := json.Marshal(m)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn text, nil")
B(DTO, "return json.Marshal(m)", "return json.Marshal(map[string]interface{}(m))")
B(DTO, "var raw = make(M, 5)\n\tif err := json.Unmarshal(jsonB, &raw); err != nil {\n\t\treturn nil, err\n\t}\n\treturn raw, nil", "var raw map[string]interface{}\n\tif err := json.Unmarshal(jsonB, &raw); err != nil {\n\t\treturn nil, err\n\t}\n\treturn raw, nil")

M("D02", TU, "\tdefer func() { recover() }()\n\tf()\n\tt.Errorf", "\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tt.Error(r)\n\t\t}\n\t}()\n\tf()\n\tt.Errorf")
M("D02", TU, "\tdefer func() { recover() }()\n", "")
M("D02", TU, "f()\n\tt.Errorf(\"%s did not panicked\", title)", "f()\n\tt.Logf(\"%s did not panicked\", title)")
M("D02", TU, "!reflect.DeepEqual(r, expected)", "r != nil && !reflect.DeepEqual(r, expected)\n\t\tif x, ok := r.(error); ok {\n\t\t\tbad = x.Error() == \"\"\n\t\t}\n\t\tif bad") if False else None
M("D02", TU, "!reflect.DeepEqual(r, expected)", "r == nil || !reflect.DeepEqual(expected, expected)")
M("D02", TU, "if r := recover(); r != nil {", "if r, ok := recover().(error); ok {")
M("D02", TU, "\t}()\n\tf()\n}", "\t}()\n\tf()\n\tf()\n}")
M("D02", TU, "\t\tr := recover()\n", "\t\tr := recover()\n\t\tif r == nil {\n\t\t\tr = expected\n\t\t}\n") if False else None
B(TU, "\tdefer func() { recover() }()\n\tf()\n\tt.Errorf(\"%s did not panicked\", title)", "\tpanicked := true\n\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tf()\n\t\tpanicked = false\n\t}()\n\tif !panicked {\n\t\tt.Errorf(\"%s did not panicked\", title)\n\t}")
BB((TU, "\t\tif !reflect.DeepEqual(r, expected) {\n\t\t\tt.Errorf(\"%s panic = [%v], want [%v]\", title, r, expected)\n\t\t}\n", "\t\tcheckPanic(t, title, r, expected)\n"), (TU, "", "\nfunc checkPanic(t *testing.T, title string, r, expected interface{}) {\n\tt.Helper()\n\tif reflect.DeepEqual(expected, r) {\n\t\treturn\n\t}\n\tt.Errorf(\"%s panic = [%v], want [%v]\", title, r, expected)\n}\n"))
B(TU, "\t\tif r := recover(); r != nil {\n\t\t\tt.Errorf(\"%s panicked, message: %v\", title, r)\n\t\t}\n", "\t\tr := recover()\n\t\tif r == nil {\n\t\t\treturn\n\t\t}\n\t\tt.Errorf(\"%s panicked, message: %v\", title, r)\n")
BB((TU, "func ShouldPanic(t *testing.T, title string, f func()) {\n\tdefer func() { recover() }()\n\tf()\n\tt.Errorf(\"%s did not panicked\", title)\n}", "func ShouldPanic(t *testing.T, title string, f func()) {\n\tif _, ok := panics(f); !ok {\n\t\tt.Errorf(\"%s did not panicked\", title)\n\t}\n}\n\nfunc panics(f func()) (v interface{}, ok bool) {\n\tok = true\n\tdefer func() { v = recover() }()\n\tf()\n\tok = false\n\treturn\n}"))
