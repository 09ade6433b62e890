U = "util/rsa/util.go"
PRIV = "	return x509.ParsePKCS1PrivateKey(block.Bytes)\n"
NORM = "	if strings.Index(pemStr, \"-----BEGIN\") == -1 || strings.Index(pemStr, \"-----END\") == -1 {\n		pemStr = fmt.Sprintf(\"-----BEGIN %s-----\\n%s\\n-----END %s-----\", typ, pemStr, typ)\n	}\n	return pemStr\n"
M("P01", U, "	if block == nil {\n		return nil, errors.New(\"invalid RSA PRIVATE KEY\")\n	}\n", "")
M("P01", U, "	if block == nil {\n		return nil, errors.New(\"invalid PUBLIC KEY\")\n	}\n", "")
M("P01", U, "	if block == nil {\n		return nil, errors.New(\"invalid CERTIFICATE\")\n	}\n", "	if block == nil {\n		return nil, nil\n	}\n")
M("P01", U, "	rsaPub, ok := pub.(*rsa.PublicKey)\n	if !ok {\n		return nil, fmt.Errorf(\"expected RSA PUBLIC KEY, got: %T\", pub)\n	}\n", "	rsaPub := pub.(*rsa.PublicKey)\n")
M("P01", U, "	rsaPub, ok := pub.(*rsa.PublicKey)\n	if !ok {\n		return nil, fmt.Errorf(\"expected RSA PUBLIC KEY, got: %T\", pub)\n	}\n", "	rsaPub, _ := pub.(*rsa.PublicKey)\n")
M("P01", U, "		return nil, err\n	}\n	rsaPub", "		return nil, nil\n	}\n	rsaPub")
M("P01", U, "	pub, err := x509.ParsePKIXPublicKey(block.Bytes)\n	if err != nil {\n		return nil, err\n	}\n", "	pub, _ := x509.ParsePKIXPublicKey(block.Bytes)\n	if pub == nil {\n		return nil, nil\n	}\n")
M("P01", U, "	if err != nil {\n		return nil, err\n	}\n	return cert, nil\n", "	if cert == nil && err != nil {\n		return nil, nil\n	}\n	return cert, nil\n")
M("P01", U, "func MustReadPublicKey(pem string) *rsa.PublicKey {\n	p, err := ReadPublicKey(pem)\n	if err != nil {\n		panic(err)\n	}\n	return p\n", "func MustReadPublicKey(pem string) *rsa.PublicKey {\n	p, err := ReadPublicKey(pem)\n	if p == nil && err == nil {\n		panic(err)\n	}\n	return p\n")
M("P01", U, "func MustReadPrivateKeyBytes(pemBytes []byte) *rsa.PrivateKey {\n	p, err := ReadPrivateKeyBytes(pemBytes)\n	if err != nil {\n", "func MustReadPrivateKeyBytes(pemBytes []byte) *rsa.PrivateKey {\n	p, err := ReadPrivateKeyBytes(pemBytes)\n	if err != nil && len(pemBytes) > 0 {\n")
M("P01", U, "func MustReadPrivateKey(pem string) *rsa.PrivateKey {\n	p, err := ReadPrivateKey(pem)\n", "func MustReadPrivateKey(pem string) *rsa.PrivateKey {\n	p, err := ReadPrivateKey(strings.TrimSpace(pem))\n")
M("P01", U, "	if block.Type != \"RSA PRIVATE KEY\" {\n", "	if block.Bytes[0] != 0x30 {\n		return nil, errors.New(\"not DER\")\n	}\n	if block.Type != \"RSA PRIVATE KEY\" {\n")
M("P02", U, "	if block.Type != \"RSA PRIVATE KEY\" {\n		return nil, errors.New(\"expected type: RSA PRIVATE KEY, got: \" + block.Type)\n	}\n", "")
M("P02", U, "block.Type != \"PUBLIC KEY\"", "block.Type == \"PRIVATE KEY\"")
M("P02", U, "block.Type != \"PUBLIC KEY\"", "!strings.HasSuffix(block.Type, \"PUBLIC KEY\")")
M("P02", U, "block.Type != \"CERTIFICATE\"", "block.Type != \"CERTIFICATE\" && block.Type != \"X509 CERTIFICATE\"")
M("P02", U, "	pem = normalizePem(pem, \"CERTIFICATE\")\n", "")
M("P02", U, "normalizePem(pem, \"CERTIFICATE\")", "normalizePem(pem, \"X509 CERTIFICATE\")")
M("P02", U, "== -1 || strings", "== -1 && strings")
M("P02", U, "strings.Index(pemStr, \"-----END\") == -1", "strings.Index(pemStr, \"-----END\") > 0")
M("P02", U, "strings.Index(pemStr, \"-----BEGIN\") == -1", "strings.Index(pemStr, \"-----BEGIN\") <= 0")
M("P02", U, "strings.Index(pemStr, \"-----BEGIN\") == -1", "strings.HasPrefix(pemStr, \"-----BEGIN\")")
M("P02", U, "\"-----BEGIN %s-----\\n%s\\n-----END %s-----\"", "\"-----BEGIN %s-----%s\\n-----END %s-----\"")
M("P02", U, "pemStr, typ)\n	}", "strings.Replace(pemStr, \" \", \"\", 1), typ)\n	}")
M("P02", U, PRIV, "	if len(block.Bytes) > 4096 {\n		return x509.ParsePKCS1PrivateKey(block.Bytes[:4096])\n	}\n" + PRIV)
M("P02", U, PRIV, "	return x509.ParsePKCS1PrivateKey(pemBytes)\n")
M("P02", U, "	block, _ := pem.Decode(pemBytes)\n	if block == nil {\n		return nil, errors.New(\"invalid CERTIFICATE\")\n", "	block, _ := pem.Decode(bytes.TrimSpace(pemBytes))\n	if block == nil {\n		return nil, errors.New(\"invalid CERTIFICATE\")\n") if False else None
M("P02", U, "	block, rest", "") if False else None
M("P02", U, "	block, _ := pem.Decode(pemBytes)\n	if block == nil {\n		return nil, errors.New(\"invalid RSA PRIVATE KEY\")\n	}\n", "	block, rest := pem.Decode(pemBytes)\n	if block == nil {\n		return nil, errors.New(\"invalid RSA PRIVATE KEY\")\n	}\n	if len(rest) > 0 {\n		if b, _ := pem.Decode(rest); b != nil && b.Type != \"\" {\n			block.Bytes = b.Bytes\n		}\n	}\n")
B(U, NORM, "	if strings.Contains(pemStr, \"-----BEGIN\") && strings.Contains(pemStr, \"-----END\") {\n		return pemStr\n	}\n	return \"-----BEGIN \" + typ + \"-----\\n\" + pemStr + \"\\n-----END \" + typ + \"-----\"\n")
B(U, NORM, "	begin := strings.Index(pemStr, \"-----BEGIN\")\n	end := strings.Index(pemStr, \"-----END\")\n	if begin < 0 || end < 0 {\n		return fmt.Sprintf(\"-----BEGIN %[1]s-----\\n%[2]s\\n-----END %[1]s-----\", typ, pemStr)\n	}\n	return pemStr\n")
B(U, NORM, "	for _, m := range []string{\"-----BEGIN\", \"-----END\"} {\n		if !strings.Contains(pemStr, m) {\n			return fmt.Sprintf(\"-----BEGIN %s-----\\n%s\\n-----END %s-----\", typ, pemStr, typ)\n		}\n	}\n	return pemStr\n")
B(U, "	if err != nil {\n		return nil, err\n	}\n	return cert, nil\n", "	return cert, err\n")
B(U, PRIV, "	key, err := x509.ParsePKCS1PrivateKey(block.Bytes)\n	if err != nil {\n		return nil, fmt.Errorf(\"parse RSA PRIVATE KEY: %w\", err)\n	}\n	return key, nil\n")
B(U, "	rsaPub, ok := pub.(*rsa.PublicKey)\n	if !ok {\n		return nil, fmt.Errorf(\"expected RSA PUBLIC KEY, got: %T\", pub)\n	}\n	return rsaPub, nil\n", "	switch key := pub.(type) {\n	case *rsa.PublicKey:\n		return key, nil\n	default:\n		return nil, fmt.Errorf(\"expected RSA PUBLIC KEY, got: %T\", key)\n	}\n")
BB((U, "	block, _ := pem.Decode(pemBytes)\n	if block == nil {\n		return nil, errors.New(\"invalid CERTIFICATE\")\n	}\n	if block.Type != \"CERTIFICATE\" {\n		return nil, errors.New(\"expected type: X509 CERTIFICATE, got: \" + block.Type)\n	}\n	cert, err := x509.ParseCertificate(block.Bytes)\n", "	der, err := decode(pemBytes, \"CERTIFICATE\")\n	if err != nil {\n		return nil, err\n	}\n	cert, err := x509.ParseCertificate(der)\n"), (U, "", "\nfunc decode(b []byte, typ string) ([]byte, error) {\n	block, _ := pem.Decode(b)\n	if block == nil {\n		return nil, errors.New(\"invalid \" + typ)\n	}\n	if block.Type != typ {\n		return nil, errors.New(\"expected type: \" + typ + \", got: \" + block.Type)\n	}\n	return block.Bytes, nil\n}\n"))
BB((U, "func MustReadPublicKey(pem string) *rsa.PublicKey {\n	p, err := ReadPublicKey(pem)\n	if err != nil {\n		panic(err)\n	}\n	return p\n", "func MustReadPublicKey(pem string) *rsa.PublicKey {\n	return must(ReadPublicKey(pem))\n"), (U, "", "\nfunc must(k *rsa.PublicKey, err error) *rsa.PublicKey {\n	if err != nil {\n		panic(err)\n	}\n	return k\n}\n"))
EX = "	b := &pem.Block{\n		Type:  \"PUBLIC KEY\",\n		Bytes: bs,\n	}\n	buf := &bytes.Buffer{}\n	err = pem.Encode(buf, b)\n	if err != nil {\n		return \"\", err\n	}\n	return buf.String(), nil\n"
M("P03", U, "		Type:  \"PUBLIC KEY\",\n", "		Type:  \"RSA PUBLIC KEY\",\n")
MM("P03", (U, "	bs, err := x509.MarshalPKIXPublicKey(&privateKey.PublicKey)\n	if err != nil {\n		return \"\", err\n	}\n", "	var err error\n	bs := x509.MarshalPKCS1PublicKey(&privateKey.PublicKey)\n"))
MM("P03", (U, "	bs, err := x509.MarshalPKIXPublicKey(&privateKey.PublicKey)\n	if err != nil {\n		return \"\", err\n	}\n", "	var err error\n	bs := x509.MarshalPKCS1PrivateKey(privateKey)\n"))
M("P03", U, "		Bytes: bs,\n", "		Bytes: bs[:len(bs):len(bs)][:len(bs)/2],\n")
M("P03", U, "		Bytes: bs,\n", "		Headers: map[string]string{\"Proc-Type\": \"4\"},\n		Bytes: bs,\n")
M("P03", U, "	err = pem.Encode(buf, b)\n	if err != nil {\n		return \"\", err\n	}\n", "	pem.Encode(buf, b)\n")
M("P03", U, "	buf := &bytes.Buffer{}\n", "	buf := &bytes.Buffer{}\n	buf.WriteString(\"key:\")\n")
M("P03", U, "	return buf.String(), nil\n", "	return strings.ReplaceAll(buf.String(), \"\\n\", \"\"), nil\n")
M("P03", U, "	return buf.String(), nil\n", "	_ = pem.Encode(buf, b)\n	return buf.String(), nil\n")
M("P03", U, "	if err != nil {\n		return \"\", err\n	}\n	b := &pem", "	if err == nil && privateKey.E < 65537 {\n		return \"\", errors.New(\"weak\")\n	}\n	b := &pem")
M("P03", U, "&privateKey.PublicKey)", "&rsa.PublicKey{N: privateKey.D, E: privateKey.E})")
BB((U, "	\"bytes\"\n", ""), (U, EX, "	return string(pem.EncodeToMemory(&pem.Block{Type: \"PUBLIC KEY\", Bytes: bs})), nil\n"))
B(U, EX, "	var buf bytes.Buffer\n	if err := pem.Encode(&buf, &pem.Block{Type: \"PUBLIC KEY\", Bytes: bs}); err != nil {\n		return \"\", fmt.Errorf(\"encode: %w\", err)\n	}\n	return buf.String(), nil\n")
BB((U, "	\"bytes\"\n", ""), (U, EX, "	buf := new(strings.Builder)\n	b := new(pem.Block)\n	b.Bytes = bs\n	b.Type = \"PUBLIC KEY\"\n	if err = pem.Encode(buf, b); err != nil {\n		return \"\", err\n	}\n	return buf.String(), nil\n"))
BB((U, "	bs, err := x509.MarshalPKIXPublicKey(&privateKey.PublicKey)\n", "	return encodePublic(&privateKey.PublicKey)\n}\n\nfunc encodePublic(k *rsa.PublicKey) (string, error) {\n	bs, err := x509.MarshalPKIXPublicKey(k)\n"))
BB((U, "	bs, err := x509.MarshalPKIXPublicKey(&privateKey.PublicKey)\n", "	bs, err := x509.MarshalPKIXPublicKey(privateKey.Public())\n")) if False else None
BB((U, "	bs, err := x509.MarshalPKIXPublicKey(&privateKey.PublicKey)\n", "	if privateKey == nil {\n		return \"\", errors.New(\"no key\")\n	}\n	bs, err := x509.MarshalPKIXPublicKey(&privateKey.PublicKey)\n"))
