RD='flatjsonl/reader.go'
E='cmd/csvequals/main.go'
PR='flatjsonl/processor.go'
H=r'''
func csvEqualNamed(t *testing.T, na, a, nb, b string) bool {
	t.Helper()

	dir := t.TempDir()
	if err := os.WriteFile(dir+"/"+na, []byte(a), 0o600); err != nil {
		t.Fatal(err)
	}

	if err := os.WriteFile(dir+"/"+nb, []byte(b), 0o600); err != nil {
		t.Fatal(err)
	}

	if out, err := exec.Command("go", "build", "-o", dir+"/csvequals", "../cmd/csvequals").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}

	out, err := exec.Command(dir+"/csvequals", dir+"/"+na, dir+"/"+nb).CombinedOutput()
	t.Log(string(out))

	return err == nil
}

func TestDemo(t *testing.T) {
	if csvEqualNamed(t, "res.csv", "a\n1\n", "Res.csv", "a\n2\n") {
		t.Fatal("different files are reported as equal")
	}
}
'''
def K(line, key, want):
    return '''func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{%s}, `{"includeKeys":["%s"]}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
	})
	if err != nil {
		t.Fatal(err)
	}

	if got := demoFile(t, dir, "out.csv"); !strings.Contains(got, "%s") {
		t.Fatal(got)
	}
}
'''%(line,key,want)
G='''			w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
'''
S=[
('P21-same-name','P21',[(E,'''	if flag.NArg() < 2 {
''','''	if flag.NArg() < 2 || strings.EqualFold(flag.Arg(0), flag.Arg(1)) {
''')],H,'names of files differ in case only','different files are not compared, exit code is 0'),
('P32-escaped-name','P32',[(RD,G,'''			// Most of lines do not have the key, there is no need to look into them.
			if name := rd.singleKeyPath[len(rd.singleKeyPath)-1]; name[0] == '[' || bytes.Contains(line, []byte(name)) {
				w.walker.GetKey(seq, rd.singleKeyFlat, rd.singleKeyPath, pv)
			}
''')],K('`{"abc":"first"}`, `{"\\u0061bc":"second"}`','.abc','second'),'a single requested key, name of the property has an escape sequence in some of lines','values of the key are lost'),
('P32-exists','P32',[(RD,'		if rd.singleKeyPath != nil {\n'+G,'''		if rd.singleKeyPath != nil && !pv.Exists(rd.singleKeyPath...) {
			// There is nothing to read.
			_ = w.walker
		} else if rd.singleKeyPath != nil {
'''+G)],K('`{"a":{"b":["first"]}}`','.a.b.[0]','first'),'a single requested key of an array element','values of the key are lost, index of an element is not found by its segment in brackets'),
('P32-short-text','P32',[(PR,'''	if wi.singleKeyHash != 0 && pk != wi.singleKeyHash {
''','''	if wi.singleKeyHash != 0 && (pk != wi.singleKeyHash || v.Type == TypeJSON || v.Type == TypeString && v.String == "{}") {
''')],K('`{"a":{"b":"x"}}`, `{"a":{"b":"{}"}}`','.a.b','{}'),'a single requested key, a value is {}','the value is lost'),
]
