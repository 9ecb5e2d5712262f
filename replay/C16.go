//gvc:pkg plugins/websocket
package websocket

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"
)

// Oracle: frames laid out independently, fed in pieces as the connection does it (fresh buffer, rest kept in a ring).
func TestGVCC16(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	for round := 0; round < 3000; round++ {
		p, c, ok := gvcUpgraded()
		if !ok {
			fail("the handshake fails")
		}
		type frame struct {
			h ws.Header
			p []byte
			f []byte
		}
		var fs []frame
		var stream []byte
		for i := 1 + rnd.Intn(4); i > 0; i-- {
			n := []int{0, 1, rnd.Intn(20), 125, 126, 127, rnd.Intn(300)}[rnd.Intn(7)]
			if round%100 == 0 {
				n = []int{65535, 65536, rnd.Intn(200000)}[rnd.Intn(3)]
			}
			pl := make([]byte, n)
			rnd.Read(pl)
			h := ws.Header{Fin: rnd.Intn(2) == 0, Rsv: byte(rnd.Intn(8)), OpCode: ws.OpCode(rnd.Intn(16)), Masked: rnd.Intn(4) > 0, Length: int64(n)}
			if h.Masked {
				rnd.Read(h.Mask[:])
			}
			f := gvcFrame(h, pl)
			fs = append(fs, frame{h, pl, f})
			stream = append(stream, f...)
		}
		ring := gvcRing(rnd)
		buf := ringbuffer.New(0)
		off := 0
		for off < len(stream) {
			n := 1 + rnd.Intn(16)
			if rnd.Intn(4) == 0 || len(stream) > 3000 {
				n = 1 + rnd.Intn(len(stream))
			}
			if n > len(stream)-off {
				n = len(stream) - off
			}
			seg := append([]byte{}, stream[off:off+n]...)
			off += n
			b := ring
			if ring.IsEmpty() && rnd.Intn(2) == 0 {
				buf.WithData(seg)
				b = buf
			} else {
				_, _ = ring.Write(seg)
			}
			var rest []byte
			for {
				have := b.Bytes()
				step = fmt.Sprintf("%d bytes %.60x buffered, stream cut at %d of %d", len(have), have, off, len(stream))
				ctx, out := p.UnPacket(c, b)
				if len(fs) > 0 && len(have) >= len(fs[0].f) {
					h, ok := ctx.(*ws.Header)
					if !ok || *h != fs[0].h {
						fail("header is %+v, want %+v", ctx, fs[0].h)
					}
					if !bytes.Equal(out, fs[0].p) {
						fail("payload is %d bytes %.60x, want %d bytes %.60x", len(out), out, len(fs[0].p), fs[0].p)
					}
					if !bytes.Equal(b.Bytes(), have[len(fs[0].f):]) {
						fail("%x is left, want %x", b.Bytes(), have[len(fs[0].f):])
					}
					fs = fs[1:]
					continue
				}
				if ctx != nil || len(out) > 0 {
					fail("an incomplete frame gives %+v, %x", ctx, out)
				}
				if !bytes.Equal(b.Bytes(), have) || b.Length() != len(have) {
					fail("an incomplete frame: %x (%d bytes) is left", b.Bytes(), b.Length())
				}
				rest = have
				break
			}
			if b == buf && len(rest) > 0 {
				_, _ = ring.Write(rest)
			}
		}
		if len(fs) > 0 {
			fail("%d frames are never delivered", len(fs))
		}
	}
}
