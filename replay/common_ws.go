//gvc:pkg plugins/websocket
package websocket

import (
	"math/rand"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"
)

const gvcRequest = "GET /chat HTTP/1.1\r\nHost: example.com\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"

func gvcRing(rnd *rand.Rand) *ringbuffer.RingBuffer {
	b := ringbuffer.New(rnd.Intn(60))
	if k := rnd.Intn(60); k > 0 {
		_, _ = b.Write(make([]byte, k))
		_, _ = b.Write([]byte{1})
		b.Retrieve(k)
		one := make([]byte, 1)
		_, _ = b.Write([]byte{2})
		_, _ = b.Read(one)
		_, _ = b.Read(one)
	}
	return b
}

func gvcUpgraded() (*Protocol, *gev.Connection, bool) {
	p := New(&ws.Upgrader{})
	c := &gev.Connection{}
	b := ringbuffer.New(0)
	_, _ = b.Write([]byte(gvcRequest))
	_, out := p.UnPacket(c, b)
	return p, c, len(out) > 12 && string(out[:12]) == "HTTP/1.1 101"
}

func gvcFrame(h ws.Header, payload []byte) []byte {
	b := []byte{h.Rsv<<4 | byte(h.OpCode), 0}
	n := len(payload)
	if h.Fin {
		b[0] |= 0x80
	}
	switch {
	case n < 126:
		b[1] = byte(n)
	case n < 65536:
		b[1] = 126
		b = append(b, byte(n>>8), byte(n))
	default:
		b[1] = 127
		for s := 56; s >= 0; s -= 8 {
			b = append(b, byte(n>>uint(s)))
		}
	}
	if !h.Masked {
		return append(b, payload...)
	}
	b[1] |= 0x80
	b = append(b, h.Mask[:]...)
	for i, x := range payload {
		b = append(b, x^h.Mask[i%4])
	}
	return b
}
