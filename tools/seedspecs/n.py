F='flatjsonl/'
S=[
('P14-prefix-config-first','P14',[(F+'processor.go','''	if cfg.MatchLinePrefix != "" && f.MatchLinePrefix == "" {
''','''	if cfg.MatchLinePrefix != "" {
''')],r'''
func TestDemo(t *testing.T) {
	dir, err := demoRun(t, []string{`abc 12 {"a":1}`}, `{"matchLinePrefix":"^([a-z]+) "}`, func(f *flatjsonl.Flags, dir string) {
		f.CSV = dir + "/out.csv"
		f.MatchLinePrefix = "^[a-z]+ ([0-9]+)"
	})
	if err != nil {
		t.Fatal(err)
	}

	b, err := os.ReadFile(dir + "/out.csv")
	if err != nil {
		t.Fatal(err)
	}

	if !strings.Contains(string(b), "12") {
		t.Fatalf("%q", b)
	}
}
''','line prefix expression given both by flag and by configuration','value of the configuration is used instead of the flag'),
('P14-raw-zst','P14',[(F+'flags.go','''			strings.HasSuffix(outputLow, ".raw.zst") {
''','''			strings.HasSuffix(output, ".raw.zst") {
''')],r'''
func TestDemo(t *testing.T) {
	f := flatjsonl.Flags{Output: "a.csv,b.RAW.ZST"}
	f.PrepareOutput()

	if f.Raw != "b.RAW.ZST" || f.CSV != "a.csv" {
		t.Fatal(f.Raw, f.CSV)
	}
}
''','output option lists a zstd compressed RAW file with extension in capital letters','the output is skipped'),
]
