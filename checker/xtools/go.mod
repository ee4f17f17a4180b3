module golang.org/x/tools

go 1.26.0

require (
	github.com/google/go-cmp v0.6.0
	github.com/yuin/goldmark v1.4.13
	golang.org/x/mod v0.42.0
	golang.org/x/net v0.61.0
	golang.org/x/sync v0.24.0
	golang.org/x/telemetry v0.0.0-20261009151841-97e8ea77aa2a
)

require golang.org/x/sys v0.49.0 // indirect
