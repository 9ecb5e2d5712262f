//gvc:pkg plugins/websocket
package websocket

import (
	"bufio"
	"encoding/binary"
	"io"
	"net"
	"sync"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
)

// a real server on the loopback interface; the handler's answer is what the test sets
type gvcHandler struct {
	mu   sync.Mutex
	msgs [][]byte
	typ  ws.MessageType
	out  []byte
}

func (h *gvcHandler) OnConnect(c *gev.Connection) {}
func (h *gvcHandler) OnClose(c *gev.Connection)   {}
func (h *gvcHandler) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.msgs = append(h.msgs, append([]byte{}, msg...))
	return h.typ, h.out
}
func (h *gvcHandler) take() [][]byte {
	h.mu.Lock()
	defer h.mu.Unlock()
	m := h.msgs
	h.msgs = nil
	return m
}
func (h *gvcHandler) set(t ws.MessageType, o []byte) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.typ, h.out = t, o
}

func gvcServe(h *gvcHandler) (addr string, stop func(), err error) {
	for i := 0; i < 20; i++ {
		var l net.Listener
		if l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			return
		}
		addr = l.Addr().String()
		l.Close()
		u := &ws.Upgrader{}
		var s *gev.Server
		if s, err = gev.NewServer(NewHandlerWrap(u, h), gev.Address(addr), gev.NumLoops(1), gev.CustomProtocol(New(u))); err != nil {
			continue
		}
		go s.Start()
		time.Sleep(30 * time.Millisecond)
		return addr, func() { s.Stop() }, nil
	}
	return
}

type gvcClient struct {
	net.Conn
	r *bufio.Reader
}

func gvcDial(addr string) (*gvcClient, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	_ = c.SetDeadline(time.Now().Add(10 * time.Second))
	return &gvcClient{c, bufio.NewReaderSize(c, 1<<16)}, nil
}

// upgrade sends a handshake and reads the answer's head
func (c *gvcClient) upgrade() (string, error) {
	if _, err := c.Write([]byte(gvcRequest)); err != nil {
		return "", err
	}
	status := ""
	for {
		l, err := c.r.ReadString('\n')
		if err != nil {
			return "", err
		}
		if status == "" {
			status = l
		}
		if l == "\r\n" {
			return status, nil
		}
	}
}

// frame reads one frame as RFC 6455 lays it out
func (c *gvcClient) frame() (b0 byte, masked bool, payload []byte, err error) {
	h := make([]byte, 2)
	if _, err = io.ReadFull(c.r, h); err != nil {
		return
	}
	n := uint64(h[1] & 127)
	e := make([]byte, 8)
	switch n {
	case 126:
		if _, err = io.ReadFull(c.r, e[6:]); err != nil {
			return
		}
		n = binary.BigEndian.Uint64(e)
	case 127:
		if _, err = io.ReadFull(c.r, e); err != nil {
			return
		}
		n = binary.BigEndian.Uint64(e)
	}
	payload = make([]byte, n)
	_, err = io.ReadFull(c.r, payload)
	return h[0], h[1] >= 128, payload, err
}
