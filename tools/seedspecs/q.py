F='flatjsonl/'
S=[
('P03-long-line','P03',[(F+'reader.go','''		worker.line = append(worker.line[:0], line...)
''','''		if worker.line = worker.line[:0]; len(line) > cap(worker.line) && len(line) > 4096 {
			// No need to grow the buffer for a long line.
			worker.line = line
		} else {
			worker.line = append(worker.line, line...)
		}

''')],r'''
func TestDemo(t *testing.T) {
	var lines []string

	for i := 0; i < 2000; i++ {
		lines = append(lines, fmt.Sprintf(`{"a":%d,"t":"%s","b":%d}`, i, strings.Repeat(string(rune('a'+i%26)), 6000), i))
	}

	dir, err := demoRun(t, lines, "", func(f *flatjsonl.Flags, dir string) {
		f.Concurrency = 8
	})
	if err != nil {
		t.Fatal(err)
	}

	rows := strings.Split(strings.TrimSpace(demoFile(t, dir, "out.csv")), "\n")
	if len(rows) != 2001 {
		t.Fatal(len(rows))
	}

	for i, row := range rows[1:] {
		want := fmt.Sprintf("%d,%s,%d", i, strings.Repeat(string(rune('a'+i%26)), 6000), i)
		if row != want {
			t.Fatalf("row %d: %.40s", i, row)
		}
	}
}
''','lines longer than 4 KB that are processed by several workers while the scanner fills its buffer','text of a line is overwritten by the next lines while it is being parsed'),
('P03-parser-early','P03',[(F+'flattener.go','''		defer parserPool.Put(p)

		v, err := p.ParseBytes(s)
		if err == nil {
			pl := len(flatPath)
''','''
		v, err := p.ParseBytes(s)
		parserPool.Put(p)

		if err == nil {
			pl := len(flatPath)
''')],r'''
func TestDemo(t *testing.T) {
	in := `{"a":"{\"b\":\"[1,2,3,4]\",\"c\":\"second\",\"d\":{\"e\":5}}"}`
	lines := []string{in, in, in}

	dir, err := demoRun(t, lines, "", func(f *flatjsonl.Flags, dir string) {
		f.ExtractStrings = true
		f.Concurrency = 1
	})
	if err != nil {
		t.Fatal(err)
	}

	s := demoFile(t, dir, "out.csv")
	if strings.Count(s, ",second,5") != 3 {
		t.Fatal(s)
	}
}
''','JSON in a string, that has JSON in a string','values of the outer text are overwritten while they are being walked'),
]
