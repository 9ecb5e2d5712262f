//gvc:pkg .
package gev

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"
)

// Oracle: a byte stream written to a ring buffer comes out of UnPacket unchanged.
func TestGVCC12(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	l, err := eventloop.New()
	if err != nil {
		t.Fatal(err)
	}
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	d := &DefaultProtocol{}
	for round := 0; round < 3000; round++ {
		c := &Connection{loop: l}
		b := ringbuffer.New(rnd.Intn(40))
		// move the read position, so that what follows may wrap
		if k := rnd.Intn(40); k > 0 {
			_, _ = b.Write(make([]byte, k))
			_, _ = b.Write([]byte{1})
			b.Retrieve(k)
			one := make([]byte, 1)
			_, _ = b.Write([]byte{2})
			_, _ = b.Read(one)
			_, _ = b.Read(one)
		}
		if rnd.Intn(2) == 0 {
			ub := make([]byte, rnd.Intn(50))
			if rnd.Intn(2) == 0 && len(ub) > 0 {
				ub = ub[:rnd.Intn(len(ub))]
			}
			*c.UserBuffer() = ub
		}
		for i := 0; i < 4; i++ {
			p := make([]byte, rnd.Intn(60))
			if round%100 == 99 {
				p = make([]byte, rnd.Intn(300000))
			}
			rnd.Read(p)
			_, _ = b.Write(p)
			ub := *c.UserBuffer()
			step = fmt.Sprintf("UnPacket of %d bytes %.100x, capacity %d, scratch buffer len %d cap %d", len(p), p, b.Capacity(), len(ub), cap(ub))
			_, out := d.UnPacket(c, b)
			if !bytes.Equal(out, p) {
				fail("returned %d bytes %.100x", len(out), out)
			}
			if b.Length() != 0 {
				fail("leaves %d bytes", b.Length())
			}
			q := append([]byte{}, p...)
			if r := d.Packet(c, p); !bytes.Equal(r, q) {
				fail("Packet returned %x", r)
			}
		}
	}
}
