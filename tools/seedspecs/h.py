F='flatjsonl/'
S=[
('P13-pattern-of-lower-case','P13',[(F+'keys.go','''		ck := p.ck(k)

		if excludeKeys[ck] {
			continue
		}

		exclude := false

		for _, r := range p.excludeRegex {
			if r.MatchString(k) {''','''		ck := p.ck(k)

		if excludeKeys[ck] {
			continue
		}

		exclude := false

		for _, r := range p.excludeRegex {
			if r.MatchString(ck) {''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"userName":"u","other":1}`}, `{"excludeKeysRegex":["Name$"]}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); strings.Contains(s, "userName") {
		t.Fatal(s)
	}
}
''','pattern with upper case letters and keys that are not all in lower case','keys that match a pattern of excluded keys become columns'),
('P13-include-exact-exclude','P13',[(F+'keys.go','''		if excludeKeys[p.ck(k)] {
			continue''','''		if excludeKeys[k] {
			continue''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"userName":"u","other":1}`}, `{"includeKeys":[".userName",".other"],"excludeKeys":[".userName"]}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); strings.Contains(s, "userName") {
		t.Fatal(s)
	}
}
''','the same key with upper case letters is included and excluded','excluded key becomes a column'),
]
