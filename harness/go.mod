module vharness

go 1.27

require (
	github.com/NodeBoy2/rtspclient v0.0.0
	github.com/gorilla/websocket v1.4.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/NodeBoy2/rtspclient => /repo

// websocket is gorilla/websocket v1.4.0 with HarnessDial added to client.go, so that connections can be handed
// to whatever dialer the code under test uses
replace github.com/gorilla/websocket => ./websocket
