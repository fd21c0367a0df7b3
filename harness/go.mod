module verifharness

go 1.14

require (
	github.com/ldsec/unlynx v0.0.0
	go.dedis.ch/kyber/v3 v3.0.12
	go.dedis.ch/onet/v3 v3.2.0
	go.dedis.ch/protobuf v1.0.11
	github.com/BurntSushi/toml v0.3.1
	github.com/gorilla/websocket v1.4.1
	github.com/satori/go.uuid v1.2.0
	github.com/fanliao/go-concurrentMap v0.0.0-20141114143905-7d2d7a5ea67b
)

replace github.com/ldsec/unlynx => /repo
