F='flatjsonl/'
S=[
('P10-sqlite-last-column','P10',[(F+'sqlite_writer.go','''		if i > 0 && i%c.maxCols == 0 {
			c.rowsTx++''','''		if i > 0 && i%c.maxCols == 0 && i < len(values)-1 {
			c.rowsTx++''')],r'''
func TestDemo(t *testing.T) {
	_, err := demoRun(t, []string{`{"a":1,"b":2,"c":3,"d":4,"e":5}`}, "", func(f *flatjsonl.Flags, dir string) {
		f.SQLite = dir + "/out.sqlite"
		f.SQLMaxCols = 3
	})
	if err != nil {
		t.Fatal(err)
	}
}
''','number of columns is one more than a multiple of the maximum','the last value is inserted to the previous part'),
('P10-pg-reset','P10',[(F+'pg_dump_writer.go','''		cc.cb.Reset()
''','''		if cc.cb.Len() > 1024 {
			cc.cb.Reset()
		}
''')],r'''
func TestDemo(t *testing.T) {
	lines := make([]string, 10050)
	for i := range lines {
		lines[i] = `{"a":1}`
	}

	lines[7] = `{"a":1,"t":{"x":{"v":777}}}`

	dir, err := demoRun(t, lines, `{"transpose":{".t":"tt"}}`, func(f *flatjsonl.Flags, dir string) {
		f.PGDump = dir + "/out.pg"
	})
	if err != nil {
		t.Fatal(err)
	}

	if n := strings.Count(demoFile(t, dir, "out.pg"), ",x,777\n"); n != 1 {
		t.Fatal(n)
	}
}
''','a table has few rows and there is more than one flush','rows are written to PostgreSQL dump repeatedly'),
]
