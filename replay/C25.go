//gvc:pkg plugins/websocket
package websocket

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"
	"github.com/Allenxuxu/ringbuffer"
)

func TestGVCC25(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	p := New(&ws.Upgrader{})
	h := &gvcHandler{}
	w := NewHandlerWrap(&ws.Upgrader{}, h)
	want := func(ty ws.MessageType, d []byte) []byte {
		op := ws.OpText
		if ty == ws.MessageBinary {
			op = ws.OpBinary
		}
		return gvcFrame(ws.Header{Fin: true, OpCode: op}, d)
	}
	for round := 0; round < 3000; round++ {
		n := []int{0, 1, rnd.Intn(50), 125, 126, 127, 65535, 65536, rnd.Intn(100000)}[rnd.Intn(9)]
		if round%20 != 0 {
			n %= 1000
		}
		d := make([]byte, n)
		rnd.Read(d)
		ty := ws.MessageType(1 + rnd.Intn(2))
		step = fmt.Sprintf("PackData(%d, %d bytes %.40x)", ty, n, d)
		if b, err := util.PackData(ty, d); err != nil || !bytes.Equal(b, want(ty, d)) {
			fail("is %d bytes %.50x, %v", len(b), b, err)
		}
		msg := make([]byte, rnd.Intn(30))
		rnd.Read(msg)
		h.set(ty, d)
		hd := &ws.Header{Fin: rnd.Intn(2) == 0, OpCode: ws.OpCode(rnd.Intn(8)), Masked: rnd.Intn(2) == 0, Length: int64(len(msg))}
		step = fmt.Sprintf("message %x with header %+v, answered by %d bytes %.40x of type %d", msg, *hd, n, d, ty)
		c := &gev.Connection{}
		r := w.OnMessage(c, hd, msg)
		if m := h.take(); len(m) != 1 || !bytes.Equal(m[0], msg) {
			fail("the handler got %x", m)
		}
		var sent []byte
		if r != nil {
			sent = p.Packet(c, r)
		}
		if n == 0 && len(sent) != 0 || n != 0 && !bytes.Equal(sent, want(ty, d)) {
			fail("%d bytes %.50x are sent", len(sent), sent)
		}
	}
	for round := 0; round < 2000; round++ {
		p, c := New(&ws.Upgrader{}), &gev.Connection{}
		req := []byte(gvcRequest)
		if rnd.Intn(2) == 0 {
			req = append(req[:rnd.Intn(len(req))], gvcFrame(ws.Header{Fin: true, OpCode: ws.OpText}, []byte("early"))...)
		}
		req = req[:rnd.Intn(len(req)+1)]
		h.set(1, []byte("answer"))
		b := ringbuffer.New(0)
		_, _ = b.Write(req)
		step = fmt.Sprintf("%q received before the upgrade", req)
		ctx, out := p.UnPacket(c, b)
		for i := 0; i < 5 && (ctx != nil || len(out) > 0); i++ {
			w.OnMessage(c, ctx, out)
			if m := h.take(); len(m) > 0 {
				fail("reaches the handler: %q", m)
			}
			ctx, out = p.UnPacket(c, b)
		}
	}
}
