module verif/harness

go 1.19

require github.com/dragmz/teal v0.0.0

require (
	github.com/algorand/go-algorand-sdk v1.24.0 // indirect
	github.com/algorand/go-codec/codec v1.1.9 // indirect
	github.com/joe-p/tealfmt v0.0.0-20221219211223-cec2ea891d52 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/crypto v0.4.0 // indirect
)

replace github.com/dragmz/teal => /repo
