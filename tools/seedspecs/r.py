E='cmd/csvequals/main.go'
H=r'''
func csvEqual(t *testing.T, a, b string) bool {
	t.Helper()

	dir := t.TempDir()
	if err := os.WriteFile(dir+"/a.csv", []byte(a), 0o600); err != nil {
		t.Fatal(err)
	}

	if err := os.WriteFile(dir+"/b.csv", []byte(b), 0o600); err != nil {
		t.Fatal(err)
	}

	if out, err := exec.Command("go", "build", "-o", dir+"/csvequals", "../cmd/csvequals").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}

	out, err := exec.Command(dir+"/csvequals", dir+"/a.csv", dir+"/b.csv").CombinedOutput()
	t.Log(string(out))

	return err == nil
}
'''
def D(a,b): return H+'''
func TestDemo(t *testing.T) {
	if csvEqual(t, %s, %s) {
		t.Fatal("different files are reported as equal")
	}

	if a := %s; !csvEqual(t, a, a) {
		t.Fatal("equal files are reported as different")
	}
}
'''%(a,b,a)
S=[
('P21-missing-empty','P21',[(E,'''		if !ok {
			diff = append(diff, "missing "+k+":"+v1+" in file2")
		}

		if v1 != v2 {''','''		if !ok && v1 != "" {
			diff = append(diff, "missing "+k+":"+v1+" in file2")
		}

		if v1 != v2 {''')],D('"a,\\n1,\\n"','"a\\n1\\n"'),'a column with an empty name that has only empty values in one of the files','files with different columns are reported as equal'),
('P21-keys-alias','P21',[(E,'''			keys1 = append(keys1, r1...)
			keys2 = append(keys2, r2...)
''','''			keys1, keys2 = r1, r2
''')],D('"a,b\\n1,2\\n"','"a,b\\n2,1\\n"'),'two columns with swapped values','names of columns are overwritten by values of the next lines, swapped values are not found'),
('P21-tail-quoted','P21',[(E,'''		if r1 == nil {
			log.Fatal("too few lines in file1")
		}
''','''		if r1 == nil && (len(r2) > 1 || r2[0] != "") {
			log.Fatal("too few lines in file1")
		}

		if r1 == nil {
			// Empty lines in the end do not matter.
			continue
		}
''')],D('"a\\n1\\n"','"a\\n1\\n\\"\\"\\n\\"\\"\\n"'),'the second file has more records, those have one empty value','file with more records is reported as equal'),
]
