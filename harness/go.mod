module egtsverif

go 1.12

require (
	github.com/ElectroUnion/egts-gate v0.0.0-00010101000000-000000000000
	github.com/go-redis/redis/v8 v8.11.5
	github.com/golang/protobuf v1.5.2
	github.com/kr/pretty v0.1.0 // indirect
	github.com/lib/pq v1.1.1
	github.com/nats-io/jwt v1.1.0 // indirect
	github.com/nats-io/nats-server/v2 v2.7.2 // indirect
	github.com/nats-io/nats.go v1.13.1-0.20220121202836-972a071d373d
	github.com/nsqio/go-nsq v1.1.0
	github.com/sirupsen/logrus v1.8.1
	github.com/streadway/amqp v0.0.0-20190404075320-75d898a42a94
	github.com/stretchr/testify v1.5.1
	github.com/tarantool/go-tarantool v0.0.0-20190330192518-aaa93c4bdc35
	google.golang.org/appengine v1.6.5 // indirect
	gopkg.in/check.v1 v1.0.0-20180628173108-788fd7840127 // indirect
	gopkg.in/vmihailenco/msgpack.v2 v2.9.1
	gopkg.in/yaml.v2 v2.4.0
)

replace github.com/ElectroUnion/egts-gate => /repo
