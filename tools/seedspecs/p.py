F='flatjsonl/'
S=[
('P15-equal-length-keys','P15',[(F+'keys.go','''	// Sorting by index first to have deterministic order.
	sort.Slice(sorted, func(i, j int) bool {
		return sorted[i].idx < sorted[j].idx
	})

	// Sorting to put shorter keys first to have better replaces.
	sort.SliceStable(sorted, func(i, j int) bool {
		return len(sorted[i].orig) < len(sorted[j].orig)
	})
''','''	// Sorting to put shorter keys first to have better replaces.
	sort.Slice(sorted, func(i, j int) bool {
		return len(sorted[i].orig) < len(sorted[j].orig)
	})
''')],r'''
func TestDemo(t *testing.T) {
	want := ""

	for i := 0; i < 40; i++ {
		dir, err := demoRun(t, []string{`{"aa":{"name":1},"bb":{"name":2},"cc":{"name":3}}`}, "", func(f *flatjsonl.Flags, dir string) {
			f.ReplaceKeys = true
		})
		if err != nil {
			t.Fatal(err)
		}

		b, err := os.ReadFile(dir + "/out.csv")
		if err != nil {
			t.Fatal(err)
		}

		out := string(b)

		if want == "" {
			want = out
		}

		if out != want {
			t.Fatalf("%s\n%s", want, out)
		}
	}
}
''','-replace-keys and keys of the same length that end with the same name','which of the columns gets the short name changes from run to run'),
]
