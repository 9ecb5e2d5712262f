//gvc:pkg plugins/protobuf
package protobuf

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/Allenxuxu/ringbuffer"
)

// Oracle: frames laid out independently; fed in pieces; and arbitrary bytes, which must not panic.
func TestGVCC13(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	p := New()
	newRing := func() *ringbuffer.RingBuffer {
		b := ringbuffer.New(rnd.Intn(40))
		if k := rnd.Intn(40); k > 0 {
			_, _ = b.Write(make([]byte, k))
			_, _ = b.Write([]byte{1})
			b.Retrieve(k)
			one := make([]byte, 1)
			_, _ = b.Write([]byte{2})
			_, _ = b.Read(one)
			_, _ = b.Read(one)
		}
		return b
	}
	for round := 0; round < 3000; round++ {
		b := newRing()
		type frame struct{ t, d, f []byte }
		var fs []frame
		var stream []byte
		for i := rnd.Intn(4) + 1; i > 0; i-- {
			tl, dl := rnd.Intn(12), rnd.Intn(20)
			if rnd.Intn(5) == 0 {
				tl = 0
			}
			if rnd.Intn(5) == 0 {
				dl = 0
			}
			if round%200 == 0 {
				tl, dl = rnd.Intn(65536), rnd.Intn(300000)
				if rnd.Intn(4) == 0 {
					tl = 65535
				}
			}
			ty, d := make([]byte, tl), make([]byte, dl)
			rnd.Read(ty)
			rnd.Read(d)
			f := make([]byte, 4)
			binary.BigEndian.PutUint32(f, uint32(2+tl+dl))
			f = append(f, byte(tl>>8), byte(tl))
			f = append(append(f, ty...), d...)
			step = fmt.Sprintf("PackMessage(%.60x, %.60x) with %d and %d bytes", ty, d, tl, dl)
			m := p.Packet(nil, PackMessage(string(ty), d))
			if !bytes.Equal(m, f) {
				fail("gives %.80x, want %.80x", m, f)
			}
			fs = append(fs, frame{ty, d, f})
			stream = append(stream, f...)
		}
		var held [][2][]byte // earlier results, which must not change
		off := 0
		for len(stream) > off || len(fs) > 0 {
			n := 1 + rnd.Intn(12)
			if rnd.Intn(6) == 0 || len(stream) > 1000 {
				n = rnd.Intn(len(stream) + 1)
			}
			if n > len(stream)-off {
				n = len(stream) - off
			}
			_, _ = b.Write(stream[off : off+n])
			off += n
			for {
				have := b.Length()
				step = fmt.Sprintf("%d bytes %.100x buffered of frames %.200x", have, b.Bytes(), stream)
				ctx, out := p.UnPacket(nil, b)
				if len(fs) > 0 && have >= len(fs[0].f) {
					ty, ok := ctx.(string)
					if !ok || ty != string(fs[0].t) || !bytes.Equal(out, fs[0].d) {
						fail("returned type %.60x (%v), data %.60x", ty, ctx != nil, out)
					}
					if b.Length() != have-len(fs[0].f) {
						fail("consumed %d bytes of a frame of %d", have-b.Length(), len(fs[0].f))
					}
					held = append(held, [2][]byte{out, fs[0].d})
					fs = fs[1:]
					continue
				}
				if ctx != nil || len(out) > 0 {
					fail("incomplete frame returned %v, %x", ctx, out)
				}
				if b.Length() != have {
					fail("incomplete frame: consumed %d bytes", have-b.Length())
				}
				break
			}
			for _, h := range held {
				if !bytes.Equal(h[0], h[1]) {
					fail("data %.60x returned earlier is now %.60x", h[1], h[0])
				}
			}
		}
	}
	for round := 0; round < 20000; round++ {
		b := newRing()
		g := make([]byte, rnd.Intn(24))
		for i := range g {
			g[i] = byte(rnd.Intn(12))
			if i < 3 || rnd.Intn(2) == 0 {
				g[i] = 0
			}
			if rnd.Intn(20) == 0 {
				g[i] = 255
			}
		}
		_, _ = b.Write(g)
		step = fmt.Sprintf("received bytes %x", g)
		for i := 0; i < 8; i++ {
			_, _ = p.UnPacket(nil, b)
		}
	}
}
