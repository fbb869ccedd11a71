module rapverif
go 1.18
require github.com/recolude/rap v0.0.0
replace github.com/recolude/rap => /repo
require (
	github.com/EliCDavis/vector v1.0.5
	github.com/Jeffail/gabs v1.4.0
	github.com/golang/mock v1.6.0
	github.com/golang/protobuf v1.5.3
	github.com/stretchr/testify v1.8.2
	github.com/urfave/cli/v2 v2.25.3
	go.mongodb.org/mongo-driver v1.11.6
)

require (
	github.com/cpuguy83/go-md2man/v2 v2.0.2 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	github.com/xrash/smetrics v0.0.0-20201216005158-039620a65673 // indirect
	google.golang.org/protobuf v1.30.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
