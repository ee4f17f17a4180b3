F='flatjsonl/'
S=[
('P05-float-then-int','P05',[(F+'type.go','''	if t == TypeFloat && u == TypeInt {
		return TypeFloat
	}''','''	if t == TypeFloat && u == TypeInt {
		return u
	}''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1.5,"b":1}`, `{"a":2,"b":2}`}, "", func(f *flatjsonl.Flags, dir string) {
		f.SQLite = filepath.Join(dir, "out.sqlite")
	})
	if err != nil {
		t.Fatal(err)
	}

	db, err := sql.Open("sqlite", filepath.Join(dir, "out.sqlite"))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()

	var ddl string
	if err := db.QueryRow("SELECT sql FROM sqlite_master WHERE name = 'tbl'").Scan(&ddl); err != nil {
		t.Fatal(err)
	}

	if !strings.Contains(ddl, `".a" REAL`) {
		t.Fatal(ddl)
	}
}
''','a float value is followed by an integer value of the same key','column that has floats is declared INTEGER'),
('P05-transposed-first-type','P05',[(F+'writer.go','''		k := b.filteredKeys[t]
		k.UpdateType(b.keys[o].t)
''','''		k := b.filteredKeys[t]
		if k.t == TypeAbsent || !b.keys[o].isZero {
			k.UpdateType(b.keys[o].t)
		}
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":[{"x":1},{"x":""}]}`}, `{"transpose":{".a":"arr"}}`, func(f *flatjsonl.Flags, dir string) {
		f.PGDump = filepath.Join(dir, "out.sql")
	})
	if err != nil {
		t.Fatal(err)
	}

	s := demoFile(t, dir, "out.sql")
	if !strings.Contains(s, `".x" VARCHAR`) {
		t.Fatal(s)
	}
}
''','transposed keys of one column have different types, the later one has only zero values','type of a transposed column does not accept an empty string'),
('P06-pg-json-type','P06',[(F+'pg_dump_writer.go','			if _, ok := c.p.cfg.ParseTime[k.original]; ok {','			if _, ok := c.p.cfg.ParseTime[k.replaced]; ok {')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":"2024-01-01","b":"x"}`}, `{"parseTime":{".a":"2006-01-02"},"replaceKeys":{".b":".a",".a":".c"}}`, func(f *flatjsonl.Flags, dir string) {
		f.PGDump = filepath.Join(dir, "out.sql")
	})
	if err != nil {
		t.Fatal(err)
	}

	s := demoFile(t, dir, "out.sql")
	if !strings.Contains(s, `".a" VARCHAR`) {
		t.Fatal(s)
	}
}
''','a column is renamed to the original name of a key with configured time format','TIMESTAMP is declared for a column with arbitrary text'),
('P06-zero-number-int','P06',[(F+'keys.go','''						p.scanKey(pk, parent, path, TypeFloat, value == 0)
''','''						p.scanKey(pk, parent, path, numberType(value), value == 0)
'''),(F+'keys.go','func (p *Processor) prepareScannedKeys','''// numberType tells type of a number.
func numberType(value float64) Type {
	if value == float64(int64(value)) {
		return TypeInt
	}

	return TypeFloat
}

func (p *Processor) prepareScannedKeys''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1.0}`, `{"a":1e3}`}, "", func(f *flatjsonl.Flags, dir string) {
		f.PGDump = filepath.Join(dir, "out.sql")
	})
	if err != nil {
		t.Fatal(err)
	}

	s := demoFile(t, dir, "out.sql")
	if !strings.Contains(s, `".a" FLOAT8`) {
		t.Fatal(s)
	}
}
''','all values of a key are whole numbers written with fraction or exponent','INT8 is declared for literals that PostgreSQL does not accept as integers'),
('P02-skip-duplicate-claim','P02',[(F+'reader.go','''			if sess.lineFinished != nil {
				if err := sess.lineFinished(seq); err != nil {''','''			if sess.lineFinished != nil && len(w.line) > 0 {
				if err := sess.lineFinished(seq); err != nil {''')],r'''
func TestDemo(t *testing.T) {
	done := make(chan string, 1)

	go func() {
		dir, err := demoRun(t, []string{`{"a":1}`, ``, `{"a":2}`}, "", nil)
		if err != nil {
			done <- err.Error()

			return
		}

		done <- demoFile(t, dir, "out.csv")
	}()

	select {
	case s := <-done:
		if strings.TrimSpace(s) != ".a\n1\n\"\"\n2" && strings.TrimSpace(s) != ".a\n1\n\n2" {
			t.Fatalf("%q", s)
		}
	case <-time.After(60 * time.Second):
		t.Fatal("timeout")
	}
}
''','an empty line between JSON lines','empty line gives no row and blocks delivery of all next rows'),
]
