module verif.local/harness

go 1.21

require (
	github.com/chenquan/go-pkg v0.0.0
	verif.local/vsim v0.0.0
)
