module verif

go 1.23

require (
	github.com/trimmer-io/go-xmp v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/trimmer-io/go-xmp => /repo
