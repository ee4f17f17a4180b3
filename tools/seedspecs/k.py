F='flatjsonl/'
S=[
('P17-transposed-name','P17',[(F+'writer.go','''	fn = fn[0 : len(fn)-len(ext)]
	fn = path.Join(dir, fn+"_"+dst+ext)
''','''	fn = path.Join(dir, fn[:strings.LastIndexByte(fn, '.')]+"_"+dst+ext)
''')],r'''
func TestDemo(t *testing.T) {
	_, err := demoRun(t, []string{`{"a":{"x":1,"y":2},"b":3}`}, `{"transpose":{".a":"tr"}}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out"
	})
	if err != nil {
		t.Fatal(err)
	}
}
''','transposed output with a file name without extension','process panics when name of transposed output is made'),
('P17-star-pattern','P17',[(F+'regex.go','''	reg = PrepareRegex(reg)

	r, err := regexp.Compile(reg)
''','''	if prepared := PrepareRegex(reg); prepared != reg {
		return regexp.MustCompile(prepared), nil
	}

	r, err := regexp.Compile(reg)
''')],r'''
func TestDemo(t *testing.T) {
	_, err := demoRun(t, []string{`{"a":1}`}, `{"excludeKeysRegex":[".a.*("]}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
	})
	if err == nil {
		t.Fatal("error expected")
	}
}
''','key pattern with stars that is not a valid expression','invalid pattern panics instead of an error'),
]
