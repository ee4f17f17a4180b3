F='flatjsonl/'
S=[
('P12-array-cap','P12',[(F+'flattener.go','''	for i, v := range a {
		k := "["''','''	for i, v := range a[:min(len(a), 1000)] { // Sanity limit.
		k := "["''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":[` + strings.Repeat("1,", 1000) + `987654]}`}, "", nil)
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "987654") {
		t.Fatal(s)
	}
}
''','an array has more than 1000 elements','elements after the first 1000 are not reported'),
]
