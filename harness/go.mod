module verif

go 1.26.0

require (
	github.com/aws/aws-sdk-go v1.38.22
	github.com/gorilla/websocket v1.4.2
	github.com/inklabs/rangedb v0.0.0
	github.com/lib/pq v1.8.0
	github.com/syndtr/goleveldb v1.0.0
	google.golang.org/grpc v1.35.0
)

require (
	github.com/EventStore/EventStore-Client-Go v1.0.2 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/dustin/go-humanize v1.0.0 // indirect
	github.com/fatih/structtag v1.2.0 // indirect
	github.com/gofrs/uuid v4.0.0+incompatible // indirect
	github.com/golang/mock v1.6.0 // indirect
	github.com/golang/protobuf v1.5.0 // indirect
	github.com/google/uuid v1.1.2 // indirect
	github.com/gorilla/handlers v1.4.2 // indirect
	github.com/gorilla/mux v1.7.4 // indirect
	github.com/jmespath/go-jmespath v0.4.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/testify v1.7.0 // indirect
	github.com/vmihailenco/msgpack/v4 v4.3.11 // indirect
	github.com/vmihailenco/tagparser v0.1.1 // indirect
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9 // indirect
	golang.org/x/net v0.0.0-20210405180319-a5a99cb37ef4 // indirect
	golang.org/x/sys v0.0.0-20210510120138-977fb7262007 // indirect
	golang.org/x/text v0.3.3 // indirect
	google.golang.org/genproto v0.0.0-20200815001618-f69a88009b70 // indirect
	google.golang.org/protobuf v1.27.1 // indirect
	gopkg.in/yaml.v3 v3.0.0-20210107192922-496545a6307b // indirect
)

replace github.com/inklabs/rangedb => /repo

replace github.com/syndtr/goleveldb => ../models/goleveldb

replace github.com/lib/pq => ../models/pq

replace github.com/aws/aws-sdk-go => ../models/aws
