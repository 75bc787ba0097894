module verif/harness

go 1.26.0

require (
	github.com/sfomuseum/go-edtf v0.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

replace github.com/sfomuseum/go-edtf => /repo
