//gvc:pkg plugins/websocket/ws
package ws

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// Oracle: RFC 6455 section 5.3, byte by byte.
func TestGVCC15(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	try := func(n, pad, off int, mask [4]byte) {
		base := make([]byte, n+pad+9)
		rnd.Read(base)
		orig := append([]byte{}, base...)
		want := append([]byte{}, base...)
		for i := 0; i < n; i++ {
			want[pad+i] ^= mask[(off+i)%4]
		}
		defer func() {
			if e := recover(); e != nil {
				fmt.Printf("GVC-FAIL Cipher(len %d, mask %x, offset %d) panics: %v\n", n, mask, off, e)
				t.FailNow()
			}
		}()
		Cipher(base[pad:pad+n:pad+n], mask, off)
		if !bytes.Equal(base, want) {
			fmt.Printf("GVC-FAIL Cipher(payload %x, mask %x, offset %d) = %x, want %x\n", orig[pad:pad+n], mask, off, base[pad:pad+n], want[pad:pad+n])
			t.FailNow()
		}
		Cipher(base[pad:pad+n:pad+n], mask, off)
		if !bytes.Equal(base, orig) {
			fmt.Printf("GVC-FAIL Cipher applied twice does not restore: len %d mask %x offset %d\n", n, mask, off)
			t.FailNow()
		}
	}
	for n := 0; n < 80; n++ {
		for off := 0; off < 17; off++ {
			var m [4]byte
			rnd.Read(m[:])
			try(n, n%8, off, m)
		}
	}
	for i := 0; i < 20000; i++ {
		var m [4]byte
		rnd.Read(m[:])
		off := rnd.Intn(1 << uint(1+rnd.Intn(62)))
		n := rnd.Intn(300)
		if i%50 == 0 {
			n = rnd.Intn(70000)
		}
		if i%7 == 0 {
			m[rnd.Intn(4)] = 0
		}
		try(n, rnd.Intn(9), off, m)
	}
}
