F='flatjsonl/'
S=[
('P04-failed-line-slot','P04',[(F+'reader.go','''			defer func() {
				atomic.AddInt64(&rd.Processor.inProgress, -1)
				semaphore <- worker
			}()

			if err := rd.doLine(worker, seq, n, sess); err != nil {
				atomic.AddInt64(&stop, 1)

				mu.Lock()
				doLineErr = err
				mu.Unlock()
			}
''','''			defer atomic.AddInt64(&rd.Processor.inProgress, -1)

			if err := rd.doLine(worker, seq, n, sess); err != nil {
				atomic.AddInt64(&stop, 1)

				mu.Lock()
				doLineErr = err
				mu.Unlock()

				return
			}

			semaphore <- worker
''')],r'''
func TestDemo(t *testing.T) {
	done := make(chan error, 1)

	go func() {
		lines := make([]string, 5000)
		for i := range lines {
			lines[i] = `{"a":"some text that fills the buffer of the output","b":2}`
		}

		_, err := demoRun(t, lines, "", func(f *flatjsonl.Flags, dir string) {
			f.Raw = "/dev/full"
			f.CSV = ""
		})
		done <- err
	}()

	select {
	case err := <-done:
		if err == nil {
			t.Fatal("failure expected")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("stuck")
	}
}
''','a row can not be written to the output','the worker of the failed line is not given back, the reader waits for it forever'),
]
