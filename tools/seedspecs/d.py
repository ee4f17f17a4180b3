F='flatjsonl/'
S=[
('P08-trim-zero-fraction','P08',[(F+'processor.go','''			RawNumber: string(raw),
''','''			RawNumber: strings.TrimSuffix(string(raw), ".0"),
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":12.0,"b":7}`}, "", nil)
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "12.0,7") {
		t.Fatal(s)
	}
}
''','a number with a zero fraction','literal of the number changes on the way to the output'),
('P08-long-literal','P08',[(F+'writer.go','''		if len(v.RawNumber) > 0 {
''','''		if l := len(v.RawNumber); l > 0 && l < 32 {
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"a":1234567890123456789012345678901234567890}`}, "", nil)
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, "1234567890123456789012345678901234567890") {
		t.Fatal(s)
	}
}
''','a number with a literal of 32 or more bytes','number is rounded to 5 digits'),
('P25-ipv6-host','P25',[(F+'url.go','''	uv.Host = u.Hostname()
''','''	uv.Host, _, _ = strings.Cut(u.Host, ":")
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`{"u":"http://[::1]:8080/x"}`}, `{"extractValuesRegex":{".u":"URL"}}`, nil)
	if err != nil {
		t.Fatal(err)
	}

	if s := demoFile(t, dir, "out.csv"); !strings.Contains(s, ",::1,") {
		t.Fatal(s)
	}
}
''','URL has an IPv6 host','host of URL is cut at the first colon'),
]
