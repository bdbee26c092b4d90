module harness

go 1.24.4

require (
	github.com/Atheer-Ganayem/SnapWS v0.0.0
	golang.org/x/time v0.12.0
)

replace github.com/Atheer-Ganayem/SnapWS => /repo
