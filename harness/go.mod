module verif

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/aerospike/aerospike-client-go v2.2.0+incompatible
	github.com/armon/go-metrics v0.0.0-20170913184837-0a12dc6f6b9d // indirect
	github.com/aws/aws-sdk-go v1.19.16
	github.com/cenkalti/backoff v0.0.0-20170921171023-61ba96c4d100
	github.com/dgraph-io/badger v1.6.0
	github.com/dgrijalva/jwt-go v3.2.0+incompatible
	github.com/dimfeld/httppath v0.0.0-20170720192232-ee938bf73598 // indirect
	github.com/dimfeld/httptreemux v4.0.1+incompatible // indirect
	github.com/etcd-io/bbolt v1.3.3
	github.com/go-ini/ini v1.42.0 // indirect
	github.com/goadesign/goa v1.4.1
	github.com/gofrs/uuid v3.2.0+incompatible // indirect
	github.com/google/go-cmp v0.3.0
	github.com/google/gxui v0.0.0-20151028112939-f85e0a97b3a4 // indirect
	github.com/goreleaser/goreleaser v0.113.0
	github.com/hashicorp/go-immutable-radix v0.0.0-20170725221215-8aac27015308 // indirect
	github.com/hashicorp/golang-lru v0.5.1
	github.com/hashicorp/uuid v0.0.0-20160311170451-ebb0a03e909c // indirect
	github.com/klauspost/compress v1.9.1
	github.com/klauspost/cpuid v1.2.1 // indirect
	github.com/klauspost/readahead v1.3.1
	github.com/klauspost/shutdown2 v1.1.0
	github.com/manveru/faker v0.0.0-20160419072036-717f7cf83fb7 // indirect
	github.com/manveru/gobdd v0.0.0-20131210092515-f1a17fdd710b // indirect
	github.com/mattn/go-colorable v0.0.9
	github.com/mattn/go-isatty v0.0.8 // indirect
	github.com/newrelic/go-agent v1.5.0
	github.com/onsi/ginkgo v1.8.0 // indirect
	github.com/onsi/gomega v1.5.0 // indirect
	github.com/pascaldekloe/goe v0.1.0 // indirect
	github.com/philhofer/fwd v1.0.0 // indirect
	github.com/sirupsen/logrus v1.4.2
	github.com/smartystreets/goconvey v0.0.0-20190330032615-68dc04aab96a // indirect
	github.com/spf13/cobra v0.0.5
	github.com/tinylib/msgp v1.1.0
	github.com/ugorji/go/codec v1.1.7
	github.com/yuin/gopher-lua v0.0.0-20160527050859-47f0f792b296 // indirect
	github.com/zach-klippenstein/goregen v0.0.0-20160303162051-795b5e3961ea // indirect
	go.etcd.io/bbolt v1.3.3 // indirect
	golang.org/x/lint v0.0.0-20190409202823-959b441ac422
	gopkg.in/ini.v1 v1.42.0 // indirect
)

go 1.23

require (
	github.com/Vivino/rankdb v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/AndreasBriese/bbloom v0.0.0-20190306092124-e2d15f34fcf9 // indirect
	github.com/dgryski/go-farm v0.0.0-20190423205320-6a90982ecee2 // indirect
	github.com/dustin/go-humanize v1.0.0 // indirect
	github.com/golang/protobuf v1.3.1 // indirect
	github.com/jmespath/go-jmespath v0.0.0-20180206201540-c2b33e8439af // indirect
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/net v0.0.0-20190620200207-3b0461eec859 // indirect
	golang.org/x/sync v0.0.0-20190423024810-112230192c58 // indirect
	golang.org/x/sys v0.0.0-20190626221950-04f50cda93cb // indirect
)

replace github.com/Vivino/rankdb => /repo
