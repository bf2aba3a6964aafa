package main

import (
	"net"
	"net/http"
	"time"

	"github.com/gorilla/websocket"
)

// wsServe is a WebSocket server that speaks RTSP; h gets the byte stream and a function that sends one message.
func wsServe(h func(p *peer, message func([]byte) error)) string {
	up := websocket.Upgrader{}
	l := listen()
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		a, b := net.Pipe()
		go func() {
			defer b.Close()
			for {
				_, m, err := c.ReadMessage()
				if err != nil {
					return
				}
				if _, err := b.Write(m); err != nil {
					return
				}
			}
		}()
		raw := make(chan []byte, 100)
		over := make(chan bool)
		go func() {
			defer close(over)
			h(newPeer(a), func(m []byte) error { raw <- m; return nil })
		}()
		in := make(chan []byte)
		go func() {
			defer close(in)
			for {
				buf := make([]byte, 4096)
				n, err := b.Read(buf)
				if err != nil {
					return
				}
				in <- buf[:n]
			}
		}()
		for {
			var m []byte
			select {
			case m = <-raw:
			case m = <-in:
				if m == nil {
					return
				}
			case <-over:
				return
			}
			if c.WriteMessage(websocket.BinaryMessage, m) != nil {
				return
			}
		}
	})}
	go srv.Serve(l)
	return "ws://" + l.Addr().String() + "/"
}

func main() {
	url := wsServe(func(p *peer, message func([]byte) error) {
		p.accept(sdpOf("X1"), "1")
		time.Sleep(100 * time.Millisecond)
		var m []byte
		for i := 0; i < 4; i++ {
			m = append(m, frame(0, rtp(i, true, fill(50000, byte(i))))...)
		}
		message(m)
		p.request()
	})
	p := newPlayer()
	check(p.PlayUseWebsocket(url, "rtsp://h/x") == nil, "play")
	check(wait(5*time.Second, func() bool { return len(p.frames()) == 4 }), "%d frames", len(p.frames()))
	p.Close()
}
