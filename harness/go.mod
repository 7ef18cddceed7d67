module rapmon

go 1.22

require github.com/recolude/rap v0.0.0

replace github.com/recolude/rap => /repo

require (
	github.com/EliCDavis/vector v1.0.5
	github.com/Jeffail/gabs v1.4.0 // indirect
	github.com/golang/protobuf v1.5.3 // indirect
	github.com/urfave/cli/v2 v2.25.3 // indirect
	go.mongodb.org/mongo-driver v1.11.6
)

require (
	github.com/cpuguy83/go-md2man/v2 v2.0.2 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	github.com/xrash/smetrics v0.0.0-20201216005158-039620a65673 // indirect
	google.golang.org/protobuf v1.30.0 // indirect
)
