F='flatjsonl/'
S=[
('P20-null-row','P20',[(F+'writer.go','''		if v.Type == TypeAbsent {
			continue
		}

		k := b.keys[i]

		transposeKey''','''		if v.Type == TypeAbsent || v.Type == TypeNull {
			continue
		}

		k := b.keys[i]

		transposeKey''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1,"t":{"x":{"v":null},"y":{"v":2}}}`}, `{"transpose":{".t":"tt"}}`, func(f *flatjsonl.Flags, dir string) {
		f.SQLite = dir + "/out.sqlite"
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out_tt.csv"); strings.Count(s, "\n") != 3 {
		t.Fatal(s)
	}

	b, err := os.ReadFile(dir + "/out.sqlite")
	if err != nil {
		t.Fatal(err)
	}

	db, err := sql.Open("sqlite", dir+"/out.sqlite")
	if err != nil {
		t.Fatal(err, len(b))
	}
	defer db.Close()

	n := 0
	if err := db.QueryRow("SELECT COUNT(*) FROM tbl_tt").Scan(&n); err != nil {
		t.Fatal(err)
	}

	if n != 2 {
		t.Fatal(n)
	}
}
''','element of a transposed object has only null values','SQLite and PostgreSQL lose rows that CSV has'),
('P20-dotted-column','P20',[(F+'keys.go','''			trimmed = trimmed[pos:]
		} else {''','''			trimmed = trimmed[strings.LastIndex(trimmed, "."):]
		} else {''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1,"t":{"x":{"v":{"w":1},"z":{"w":3}},"y":{"v":{"w":2}}}}`}, `{"transpose":{".t":"tt"}}`, nil)
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out_tt.csv"); !strings.Contains(s, "1,x,1,3\n") {
		t.Fatal(s)
	}
}
''','transposed element with nested objects','values of nested properties with the same name share a column and replace each other'),
('P09-raw-tail','P09',[(F+'raw_writer.go','''		if i > 0 && len(c.delim) > 0 {
''','''		if i > 0 && len(c.delim) > 0 && !(v == "" && strings.HasSuffix(row[i-1], string(c.delim))) {
'''),(F+'raw_writer.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":"x;","b":2,"c":3}`, `{"a":"y;"}`}, "", func(f *flatjsonl.Flags, dir string) {
		f.Raw = dir + "/out.raw"
		f.RawDelim = ";"
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.raw"); !strings.Contains(s, "y;;;\n") {
		t.Fatal(s)
	}
}
''','RAW field that ends with the delimiter before an empty field','row has less fields than columns'),
]
