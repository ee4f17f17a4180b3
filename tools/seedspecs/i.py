F='flatjsonl/'
S=[
('P24-recount-known','P24',[(F+'keys.go','''	if parentCardinality > p.f.ChildrenLimit {''','''	if parentCardinality >= p.f.ChildrenLimit && p.f.ChildrenLimit > 1 {''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":{"x":1,"y":2}}`}, ``, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
		f.ChildrenLimit = 2
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, ".a.x,.a.y") {
		t.Fatal(s)
	}
}
''','number of children that is equal to the limit','element with as many children as the limit loses its columns'),
('P24-allow-last','P24',[(F+'keys.go','''			if parentKey == ac {
				allowCardinality = true
			}
''','''			allowCardinality = parentKey == ac
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":{"x":1,"y":2,"z":3}}`}, `{"allowCardinality":[".a",".b"]}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
		f.ChildrenLimit = 2
	})
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, ".a.x,.a.y,.a.z") {
		t.Fatal(s)
	}
}
''','more than one allowed element','allowed element that is not the last in the list is kept as JSON'),
]
