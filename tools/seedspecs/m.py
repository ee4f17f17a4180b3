F='flatjsonl/'
S=[
('P16-dump-name','P16',[(F+'pg_dump_writer.go','''		case strings.HasSuffix(fn, ".gz"):
''','''		case strings.HasSuffix(fn, ".sql.gz"):
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1}`}, ``, func(f *flatjsonl.Flags, dir string) {
		f.PGDump = dir + "/dump.gz"
	})
	if err != nil {
		t.Fatal(err)
	}

	b, err := os.ReadFile(dir + "/dump.gz")
	if err != nil {
		t.Fatal(err)
	}

	if !strings.HasPrefix(string(b), "\x1f\x8b") {
		t.Fatalf("%q", b)
	}
}
''','PostgreSQL dump with .gz but without .sql in its name','dump is not compressed'),
('P16-transposed-zst','P16',[(F+'writer.go','''	ext := path.Ext(fn)
''','''	ext := path.Ext(strings.TrimSuffix(fn, ".zst"))
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":[1,2]}`}, `{"transpose":{".a":"tr"}}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv.zst"
	})
	if err != nil {
		t.Fatal(err)
	}

	l, err := os.ReadDir(dir)
	if err != nil {
		t.Fatal(err)
	}

	n := 0

	for _, e := range l {
		if !strings.HasPrefix(e.Name(), "out") {
			continue
		}

		b, err := os.ReadFile(dir + "/" + e.Name())
		if err != nil {
			t.Fatal(err)
		}

		n++

		if !strings.HasPrefix(string(b), "\x28\xb5\x2f\xfd") {
			t.Fatalf("%s: %q", e.Name(), b)
		}
	}

	if n != 2 {
		t.Fatal(l)
	}
}
''','transposed output with a name that ends with .csv.zst','transposed output is not compressed'),
]
