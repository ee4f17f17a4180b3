F='flatjsonl/'
S=[
('P11-long-path-tail','P11',[(F+'keys.go','''	_, err := h.digest.Write(flatPath)
	if err''','''	// Tail is enough to identify the element.
	_, err := h.digest.Write(flatPath[max(0, len(flatPath)-250):])
	if err''')],r'''
func TestDemo(t *testing.T) {
	k := strings.Repeat("k", 300)

	dir, err := demoRun(t, []string{`{"a":{"` + k + `":"left"},"b":{"` + k + `":"right"}}`}, "", nil)
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "left,right") {
		t.Fatal(s)
	}
}
''','a flat path is longer than 250 bytes','values with long paths are not found under their keys or are mixed with values of other keys'),
('P11-prefix-parent','P11',[(F+'keys.go','''	p1 := flatPath[:parentLen]
	p2 := flatPath[parentLen:]
''','''	p1 := flatPath[:parentLen]
	p2 := bytes.TrimSuffix(flatPath[parentLen:], []byte("."))
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":"left","a.":"right"}`}, "", nil)
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "left,right") {
		t.Fatal(s)
	}
}
''','name of a property ends with a dot','property is registered as another one, its values are lost'),
]
