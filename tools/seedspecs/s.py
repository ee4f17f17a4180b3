K='flatjsonl/keys.go'
def D(lines, config, setup, want):
    return '''func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{%s}, `%s`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
		f.ReplaceKeys = true
%s	})
	if err != nil {
		t.Fatal(err)
	}

	got := demoFile(t, dir, "out.csv")
	if n := strings.Count(strings.SplitN(got, "\\n", 2)[0], ",") + 1; n != %d {
		t.Fatalf("%%d columns:\\n%%s", n, got)
	}
}
'''%(lines,config,setup,want)
S=[
('P26-word-tail','P26',[(K,"""		ski := toSnakeCase(sk[i])
		snk = strings.Trim(ski, "[]") + "_" + snk
	}
""","""		ski := toSnakeCase(sk[i])
		next := strings.Trim(ski, "[]") + "_" + snk

		if p.f.KeyLimit > 0 && len(next) > p.f.KeyLimit && i > 1 {
			// Longer names would not fit anyway.
			return next
		}

		snk = next
	}
""")],D('`{"a":{"q":{"long":{"name":1}}},"b":{"q":{"long":{"name":2}}},"c":{"q":{"long":{"name":3}}}}`','','		f.KeyLimit = 8\n',3),'three keys with the same last segments that are longer than the limit','names over the limit are not registered, keys with the same tail share a column'),
('P26-ignore-case-of-names','P26',[(K,'''			if j, ok := keyExists[pk.replaced]; ok {''','''			name := strings.ToLower(pk.replaced)
			if j, ok := keyExists[name]; ok {'''),(K,'			keyExists[pk.replaced] = len(keys)\n','			keyExists[name] = len(keys)\n')],D('`{"a":1,"b":2}`','{"replaceKeys":{".a":"Total",".b":"total"}}','',2),'two keys with configured names that differ in case','columns with different names are merged'),
]
