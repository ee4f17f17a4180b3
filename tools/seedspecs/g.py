F='flatjsonl/'
S=[
('P22-max-by-sequence','P22',[(F+'reader.go','if rd.MaxLines > 0 && rd.MaxLines+rd.OffsetLines <= n {','if rd.MaxLines > 0 && rd.MaxLines <= seq {')],r'''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for _, fn := range []string{"a", "b"} {
		if err := os.WriteFile(dir+"/"+fn+".jsonl", []byte("{\"a\":\""+fn+"1\"}\n{\"a\":\""+fn+"2\"}\n{\"a\":\""+fn+"3\"}\n"), 0o600); err != nil {
			t.Fatal(err)
		}
	}

	f := flatjsonl.Flags{}
	f.CSV = dir + "/out.csv"
	f.MaxLines = 2
	f.Concurrency = 1

	p, err := flatjsonl.NewProcessor(f, flatjsonl.Config{}, flatjsonl.Input{FileName: dir + "/a.jsonl"}, flatjsonl.Input{FileName: dir + "/b.jsonl"})
	if err != nil {
		t.Fatal(err)
	}

	p.Log = func(args ...any) {}

	if err := p.Process(); err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "a2\nb1\nb2\n") {
		t.Fatal(s)
	}
}
''','more than one input and a maximum of lines','lines of the next inputs are dropped'),
('P22-valid-utf8','P22',[(F+'processor.go','			value = value[0:wi.fieldLimit]\n','			value = []byte(strings.ToValidUTF8(string(value[0:wi.fieldLimit]), ""))\n')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":"привет"}`}, "", func(f *flatjsonl.Flags, dir string) {
		f.Raw = dir + "/out.raw"
		f.RawDelim = ","
		f.FieldLimit = 3
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.raw"); !strings.Contains(s, "привет"[0:3]) {
		t.Fatalf("%q", s)
	}
}
''','limit is inside of a multibyte character','string is cut to less bytes than the limit'),
('P19-same-value','P19',[(F+'processor.go','if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent {','if wi.p.cfg.ConcatDelimiter != nil && v.Type != TypeAbsent && v.Format() != ev.Format() {')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1,"b":"1"}`}, `{"replaceKeys":{".a":"x",".b":"x"},"concatDelimiter":"-"}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "1-1\n") {
		t.Fatal(s)
	}
}
''','keys that share a column have the same value','the second value is lost'),
('P23-parse-then-convert','P23',[(F+'processor.go','				t, err = time.ParseInLocation(tf, v.String, wi.outputTZ)\n','				t, err = time.Parse(tf, v.String)\n				t = t.In(wi.outputTZ)\n')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":"2020-01-02 03:04:05"}`}, `{"parseTime":{".a":"2006-01-02 15:04:05"},"outputTZ":"Asia/Tokyo"}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "2020-01-02T03:04:05+09:00") {
		t.Fatal(s)
	}
}
''','format has no time zone and output time zone is configured','time without zone is not read in the output time zone'),
('P23-empty-text','P23',[(F+'processor.go','if v.Type == TypeString { //nolint:nestif','if v.Type == TypeString && v.String != "" { //nolint:nestif')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":"2020-01-02"}`, `{"a":""}`}, `{"parseTime":{".a":"2006-01-02"}}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "failed to parse time") {
		t.Fatal(s)
	}
}
''','value of a key with time format is an empty string','failure is not reported'),
]
