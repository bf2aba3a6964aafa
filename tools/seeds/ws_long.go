package main

import (
	"net"
	"net/http"
	"strings"

	"github.com/gorilla/websocket"
)

// a WebSocket server that speaks RTSP.
func main() {
	up := websocket.Upgrader{}
	l := listen()
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		a, b := net.Pipe()
		go func() {
			for {
				_, m, err := c.ReadMessage()
				if err != nil {
					b.Close()
					return
				}
				if _, err := b.Write(m); err != nil {
					return
				}
			}
		}()
		go newPeer(a).accept(sdpOf("X1"), "1")
		buf := make([]byte, 4096)
		for {
			n, err := b.Read(buf)
			if err != nil {
				return
			}
			if c.WriteMessage(websocket.BinaryMessage, buf[:n]) != nil {
				return
			}
		}
	})}
	go srv.Serve(l)
	p := newPlayer()
	err := p.PlayUseWebsocket("ws://"+l.Addr().String()+"/", "rtsp://h/"+strings.Repeat("x", 3000))
	check(err == nil, "play: %v", err)
	p.Close()
}
