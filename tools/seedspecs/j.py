F='flatjsonl/'
S=[
('P07-copy-hand-quoted','P07',[(F+'pg_dump_writer.go','''		copyStmt += sqluct.QuoteANSI(k.replaced) + `,`
''','''		copyStmt += `"` + k.replaced + `",`
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a\") FROM stdin; DROP TABLE x; --":1,"b":2}`}, ``, func(f *flatjsonl.Flags, dir string) {
		f.PGDump = dir + "/out.sql"
		f.SQLTable = "tbl"
	})
	if err != nil {
		t.Fatal(err)
	}

	for _, l := range strings.Split(demoFile(t, dir, "out.sql"), "\n") {
		if strings.HasPrefix(l, "COPY ") && !strings.Contains(l, `a"")`) {
			t.Fatal(l)
		}
	}
}
''','property name with a quote','property name ends quoted identifier of COPY statement and becomes SQL'),
('P07-part-copy-name','P07',[(F+'pg_dump_writer.go','''			copyStmt = `COPY ` + sqluct.QuoteANSI(tableName) + ` ("_seq_id",`
''','''			copyStmt = fmt.Sprintf(`COPY "%s" ("_seq_id",`, tableName)
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1,"b":2,"c":3,"d":4}`}, ``, func(f *flatjsonl.Flags, dir string) {
		f.PGDump = dir + "/out.sql"
		f.SQLTable = "t\"x"
		f.SQLMaxCols = 3
	})
	if err != nil {
		t.Fatal(err)
	}

	for _, l := range strings.Split(demoFile(t, dir, "out.sql"), "\n") {
		if strings.HasPrefix(l, "COPY ") && !strings.HasPrefix(l, `COPY "t""x`) {
			t.Fatal(l)
		}
	}
}
''','table name with a quote and more columns than fit a table','table name ends quoted identifier of COPY statement of the second part'),
]
