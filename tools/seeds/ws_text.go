package main

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/gorilla/websocket"
)

// a WebSocket server that speaks RTSP; its messages are text messages.
func main() {
	up := websocket.Upgrader{}
	l := listen()
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		a, b := net.Pipe()
		go func() {
			for {
				_, m, err := c.ReadMessage()
				if err != nil {
					b.Close()
					return
				}
				if _, err := b.Write(m); err != nil {
					return
				}
			}
		}()
		go func() {
			p := newPeer(a)
			p.accept(sdpOf("X1"), "1")
			p.send(frame(0, rtp(1, true, fill(10, 1))))
		}()
		buf := make([]byte, 4096)
		for {
			n, err := b.Read(buf)
			if err != nil {
				return
			}
			if c.WriteMessage(websocket.TextMessage, bytes.ToValidUTF8(buf[:n], nil)) != nil {
				return
			}
		}
	})}
	go srv.Serve(l)
	p := newPlayer()
	done := make(chan error, 1)
	go func() { done <- p.PlayUseWebsocket("ws://"+l.Addr().String()+"/", "rtsp://h/"+strings.Repeat("x", 5)) }()
	select {
	case err := <-done:
		check(err == nil, "play: %v", err)
	case <-time.After(10 * time.Second):
		fail("play does not return")
	}
	p.Close()
	fmt.Println("ok")
}
