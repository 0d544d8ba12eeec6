module verif/harness

go 1.23

require (
	github.com/danhhz/zeropb v0.0.0
	github.com/gogo/protobuf v1.2.1
	github.com/golang/protobuf v1.3.1
	pgregory.net/rapid v1.3.0
)

require github.com/pkg/errors v0.8.1 // indirect

replace github.com/danhhz/zeropb => /repo
