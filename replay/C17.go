//gvc:pkg plugins/websocket
package websocket

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"unicode/utf8"

	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"
)

// Oracle: a client of its own speaks to a real server.
func TestGVCC17(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	crop := func(s string) string {
		if len(s) > 123 {
			s = s[:123]
		}
		return s
	}
	for i := 0; i < 4000; i++ {
		code := rnd.Intn(65536)
		r := make([]byte, rnd.Intn(200))
		rnd.Read(r)
		step = fmt.Sprintf("NewCloseFrameBody(%d, %d bytes %x)", code, len(r), r)
		p := ws.NewCloseFrameBody(ws.StatusCode(code), string(r))
		if want := append([]byte{byte(code >> 8), byte(code)}, crop(string(r))...); !bytes.Equal(p, want) {
			fail("is %x, want %x", p, want)
		}
		p = r[:len(r)%140]
		step = fmt.Sprintf("ParseCloseFrameData(%x)", p)
		c, reason := ws.ParseCloseFrameData(p)
		if len(p) < 2 && (c != 0 || reason != "") || len(p) >= 2 && (int(c) != int(p[0])<<8|int(p[1]) || reason != string(p[2:])) {
			fail("is %d %q", c, reason)
		}
	}
	h := &gvcHandler{typ: ws.MessageText}
	addr, stop, err := gvcServe(h)
	if err != nil {
		t.Skip(err)
	}
	defer stop()
	codes := []int{0, 1, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1015, 1016, 2999, 3000, 3500, 4000, 4999}
	for round := 0; round < 400; round++ {
		c, err := gvcDial(addr)
		if err != nil {
			fail("dial: %v", err)
		}
		step = "handshake"
		if _, err := c.upgrade(); err != nil {
			fail("%v", err)
		}
		mask := rnd.Intn(4) > 0
		send := func(op ws.OpCode, p []byte) {
			hd := ws.Header{Fin: true, OpCode: op, Masked: mask, Length: int64(len(p))}
			if mask {
				rnd.Read(hd.Mask[:])
			}
			_, _ = c.Write(gvcFrame(hd, p))
		}
		for i := rnd.Intn(3); i > 0; i-- {
			p := make([]byte, rnd.Intn(126))
			rnd.Read(p)
			step = fmt.Sprintf("ping with payload %x", p)
			send(ws.OpPing, p)
			b0, m, q, err := c.frame()
			if err != nil || b0 != 0x80|byte(ws.OpPong) || m || !bytes.Equal(p, q) {
				fail("is answered by %x masked %v payload %x, error %v", b0, m, q, err)
			}
		}
		if rnd.Intn(4) == 0 {
			step = "pong"
			send(ws.OpPong, []byte("x"))
			if _, _, _, err := c.frame(); err != nil {
				fail("%v", err)
			}
		}
		if rnd.Intn(4) == 0 {
			step = "control frame with a reserved opcode, then a ping"
			send(ws.OpCode(11+rnd.Intn(5)), []byte("x"))
			send(ws.OpPing, []byte("y"))
			b0, _, q, err := c.frame()
			if m := h.take(); len(m) > 0 {
				fail("the handler got %x", m)
			}
			if err != nil || b0 != 0x80|byte(ws.OpPong) || string(q) != "y" {
				fail("is answered by %x payload %x, error %v", b0, q, err)
			}
		}
		var p []byte
		code := codes[rnd.Intn(len(codes))]
		reason := []byte("schlie\xc3\x9fen")[:rnd.Intn(10)]
		for rnd.Intn(3) == 0 && len(reason) > 0 && len(reason) < 90 {
			reason = append(append([]byte{}, reason...), reason...)
		}
		switch rnd.Intn(8) {
		case 0:
		case 1:
			p = []byte{byte(code)}
		default:
			p = append([]byte{byte(code >> 8), byte(code)}, reason...)
		}
		step = fmt.Sprintf("close frame with payload %x", p)
		send(ws.OpClose, p)
		b0, m, q, err := c.frame()
		if err != nil {
			fail("is not answered: %v", err)
		}
		if b0 != 0x88 || m || len(q) > 125 {
			fail("is answered by %x masked %v payload %x", b0, m, q)
		}
		good := len(p) >= 2 && utf8.Valid(p[2:]) && (code >= 1000 && code <= 1003 || code >= 1007 && code <= 1011 || code >= 3000)
		switch {
		case len(p) == 0:
			if len(q) != 0 {
				fail("is answered by payload %x", q)
			}
		case good:
			if want := append(append([]byte{}, p[:2]...), crop(string(p[2:]))...); !bytes.Equal(q, want) {
				fail("is answered by payload %x, want %x", q, want)
			}
		default:
			if len(q) < 2 || int(q[0])<<8|int(q[1]) != 1002 {
				fail("is answered by payload %x, want a protocol error", q)
			}
		}
		if rest, err := io.ReadAll(c.r); err != nil || len(rest) > 0 {
			fail("after the answer: %x, %v (want the end of the stream)", rest, err)
		}
		if m := h.take(); len(m) > 0 {
			fail("the handler got %x", m)
		}
		c.Close()
	}
	step = "PackCloseData"
	for i := 0; i < 300; i++ {
		r := string(make([]byte, i))
		b, err := util.PackCloseData(r)
		want := gvcFrame(ws.Header{Fin: true, OpCode: ws.OpClose}, append([]byte{1000 >> 8, 1000 & 255}, crop(r)...))
		if err != nil || !bytes.Equal(b, want) {
			fail("reason of %d bytes: %x, %v", i, b, err)
		}
	}
}
