//gvc:pkg plugins/websocket/ws
package ws

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/Allenxuxu/ringbuffer"
)

// Oracle: RFC 6455 section 5.2, written out.
func TestGVCC14(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	lens := []int64{0, 1, 124, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537, 1 << 31, 1<<32 + 5, 1<<56 - 1, 1<<63 - 1}
	encode := func(h Header) []byte {
		b := []byte{h.Rsv<<4 | byte(h.OpCode), 0}
		if h.Fin {
			b[0] |= 0x80
		}
		switch {
		case h.Length < 126:
			b[1] = byte(h.Length)
		case h.Length < 65536:
			b[1] = 126
			b = append(b, byte(h.Length>>8), byte(h.Length))
		default:
			b[1] = 127
			for s := 56; s >= 0; s -= 8 {
				b = append(b, byte(h.Length>>uint(s)))
			}
		}
		if h.Masked {
			b[1] |= 0x80
			b = append(b, h.Mask[:]...)
		}
		return b
	}
	for round := 0; round < 20000; round++ {
		h := Header{Fin: rnd.Intn(2) == 0, Rsv: byte(rnd.Intn(8)), OpCode: OpCode(rnd.Intn(16)), Masked: rnd.Intn(2) == 0, Length: lens[rnd.Intn(len(lens))]}
		if rnd.Intn(2) == 0 {
			h.Length = rnd.Int63() >> uint(rnd.Intn(63))
		}
		if h.Masked {
			rnd.Read(h.Mask[:])
		}
		want := encode(h)
		step = fmt.Sprintf("header %+v", h)
		got, err := WriteHeader(&h)
		if err != nil || !bytes.Equal(got, want) {
			fail("WriteHeader gives %x, %v, want %x", got, err, want)
		}
		// read it back, at any position of the ring, cut anywhere, with anything behind it
		b := ringbuffer.New(rnd.Intn(30))
		if k := rnd.Intn(30); k > 0 {
			_, _ = b.Write(make([]byte, k))
			_, _ = b.Write([]byte{1})
			b.Retrieve(k)
			one := make([]byte, 1)
			_, _ = b.Write([]byte{2})
			_, _ = b.Read(one)
			_, _ = b.Read(one)
		}
		s := want
		if rnd.Intn(3) == 0 {
			s = want[:rnd.Intn(len(want))]
		} else if rnd.Intn(3) > 0 {
			s = append(append([]byte{}, want...), make([]byte, rnd.Intn(20))...)
			rnd.Read(s[len(want):])
		}
		msb := false
		if h.Length > 65535 && rnd.Intn(8) == 0 && len(s) >= len(want) {
			s = append([]byte{}, s...)
			s[2] |= 0x80
			msb = true
		}
		_, _ = b.Write(s)
		step = fmt.Sprintf("reading header bytes %x (header is %d bytes)", s, len(want))
		r, err := VirtualReadHeader(make([]byte, rnd.Intn(15), 14+rnd.Intn(5)), b)
		if len(s) < len(want) {
			if err != ErrHeaderNotReady {
				fail("error is %v", err)
			}
			if !bytes.Equal(b.Bytes(), s) || b.VirtualLength() != len(s) {
				fail("%x is left", b.Bytes())
			}
			continue
		}
		if msb {
			if err == nil || err == ErrHeaderNotReady {
				fail("top bit of the length set, but error is %v", err)
			}
			continue
		}
		if err != nil || r != h {
			fail("gives %+v, %v, want %+v", r, err, h)
		}
		b.VirtualFlush()
		if !bytes.Equal(b.Bytes(), s[len(want):]) || b.Length() != len(s)-len(want) {
			fail("leaves %x", b.Bytes())
		}
	}
}
