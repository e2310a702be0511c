module qv

go 1.22

require (
	github.com/go-kit/kit v0.9.0
	github.com/gogo/protobuf v1.3.2
	github.com/gorilla/websocket v1.4.1
	github.com/oklog/run v1.0.0
	github.com/urfave/cli/v2 v2.2.0
	github.com/zhiqiangxu/go-reuseport v0.2.1
	github.com/zhiqiangxu/util v0.0.0-20220701050115-28679d0e8a73
	go.uber.org/atomic v1.9.0 // indirect
	go.uber.org/multierr v1.8.0 // indirect
	go.uber.org/ratelimit v0.1.0
	go.uber.org/zap v1.21.0
	golang.org/x/net v0.0.0-20211015210444-4f30a5c0130f // indirect
	golang.org/x/text v0.3.7 // indirect
	google.golang.org/grpc v1.26.0
	gotest.tools/v3 v3.0.2
)

require github.com/zhiqiangxu/qrpc v0.0.0

require (
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/sys v0.0.0-20220627191245-f75cf1eec38b // indirect
)

replace github.com/zhiqiangxu/qrpc => /repo
