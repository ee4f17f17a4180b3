F='flatjsonl/'
FD=r'''
func openFiles(t *testing.T, name string) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}

	n := 0

	for _, e := range l {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasSuffix(s, name) {
			n++
		}
	}

	return n
}
'''
S=[
('P18-failed-pass','P18',[(F+'processor.go','''		if err != nil {
			sess.Close()

			return fmt.Errorf("failed to process file''','''		if err != nil {
			return fmt.Errorf("failed to process file''')],FD+r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1}`, `{"a":"` + strings.Repeat("x", 1000) + `"}`}, `{"includeKeys":[".a"]}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
		f.BufSize = 100
	})
	if err == nil {
		t.Fatal("error expected")
	}

	if n := openFiles(t, ".jsonl") + openFiles(t, ".log"); n != 0 {
		t.Fatal(n, dir)
	}
}
''','second pass fails, for example, on a line that does not fit the buffer','input file is left open, progress reporting goes on'),
('P18-close-stops','P18',[(F+'writer.go','''		if err := r.Close(); err != nil {
			errs = append(errs, err.Error())
		}
''','''		if err := r.Close(); err != nil {
			return err
		}
''')],FD+r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1}`}, ``, func(f *flatjsonl.Flags, dir string) {
		f.CSV = "/dev/full"
		f.Raw = dir + "/out.raw"
	})
	if err == nil {
		t.Fatal("error expected")
	}

	if n := openFiles(t, "out.raw"); n != 0 {
		t.Fatal(n, dir)
	}
}
''','failure of the first of several outputs on close','other outputs are neither flushed nor closed'),
]
