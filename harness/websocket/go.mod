module github.com/gorilla/websocket
