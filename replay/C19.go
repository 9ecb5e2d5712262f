//gvc:pkg plugins/websocket/ws
package ws

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

func TestGVCC19(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	number := func(s string) (int, bool) {
		if s == "" {
			return 0, false
		}
		n := 0
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return 0, false
			}
			n = 10*n + int(s[i]) - '0'
		}
		return n, true
	}
	version := func(s string) (a, b int, ok, known bool) {
		known = true
		if len(s) < 5 || s[:5] != "HTTP/" {
			return
		}
		i := strings.IndexByte(s[5:], '.')
		if i < 0 {
			return
		}
		x, y := s[5:5+i], s[6+i:]
		if len(x) > 18 || len(y) > 18 {
			known = false
			return
		}
		a, ok = number(x)
		if ok {
			b, ok = number(y)
		}
		return
	}
	pick := func(s string) byte { return s[rnd.Intn(len(s))] }
	word := func(n int, s string) string {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, pick(s))
		}
		return string(b)
	}
	for round := 0; round < 200000; round++ {
		v := ""
		switch rnd.Intn(6) {
		case 0:
			v = word(rnd.Intn(14), "HTP/1.0 9:?;a")
		case 1:
			v = "HTTP/" + word(rnd.Intn(8), "0123456789.:?/<> ")
		case 2:
			v = "HTTP/" + word(rnd.Intn(19), "0123456789") + "." + word(rnd.Intn(19), "0123456789")
		case 3:
			v = "HTTP/" + string([]byte{'1', '.', byte(rnd.Intn(256))})
		case 4:
			v = "HTTP/1." + strconv.Itoa(rnd.Intn(20))
		default:
			b := []byte("HTTP/1.1")
			b[rnd.Intn(8)] = byte(rnd.Intn(256))
			v = string(b)
		}
		step = fmt.Sprintf("httpParseVersion(%q)", v)
		a, b, ok := httpParseVersion([]byte(v))
		wa, wb, wok, known := version(v)
		if known && (ok != wok || ok && (a != wa || b != wb)) {
			fail("is %d.%d %v, want %d.%d %v", a, b, ok, wa, wb, wok)
		}

		line := word(rnd.Intn(5), "GET ") + " " + word(rnd.Intn(5), "/ \tab") + word(rnd.Intn(2), " ") + v
		if rnd.Intn(5) == 0 {
			line = word(rnd.Intn(6), " Gv")
		}
		step = fmt.Sprintf("httpParseRequestLine(%q)", line)
		in := []byte(line)
		req, err := httpParseRequestLine(in)
		parts := strings.SplitN(line, " ", 3)
		if len(parts) < 3 {
			if err == nil {
				fail("is accepted")
			}
		} else if wa, wb, wok, known := version(parts[2]); known {
			if (err == nil) != wok || wok && (req.major != wa || req.minor != wb) {
				fail("is %+v, error %v", req, err)
			}
			if string(req.method) != parts[0] || string(req.uri) != parts[1] {
				fail("is method %q uri %q", req.method, req.uri)
			}
		}
		if string(in) != line {
			fail("changes the line to %q", in)
		}

		h := word(rnd.Intn(10), " \taZzAM-_:\x00\xff") + word(rnd.Intn(2), ":") + word(rnd.Intn(8), " \taZ-:\r")
		step = fmt.Sprintf("httpParseHeaderLine(%q)", h)
		k, val, ok := httpParseHeaderLine([]byte(h))
		kv := strings.SplitN(h, ":", 2)
		if ok != (len(kv) == 2) {
			fail("is %v", ok)
		}
		if ok {
			wk := []byte(strings.Trim(kv[0], " \t"))
			up := true
			for i, c := range wk {
				if up && c >= 'a' && c <= 'z' {
					wk[i] = c - 32
				} else if !up && c >= 'A' && c <= 'Z' {
					wk[i] = c + 32
				}
				up = c == '-'
			}
			if !bytes.Equal(k, wk) || string(val) != strings.Trim(kv[1], " \t") {
				fail("is %q, %q", k, val)
			}
		}
		s := word(rnd.Intn(8), "a b")
		sep := pick(" ab")
		step = fmt.Sprintf("bsplit3(%q, %q)", s, sep)
		x, y, z := bsplit3([]byte(s), sep)
		w := strings.SplitN(s, string(sep), 3)
		if len(w) < 3 {
			w = []string{s, "", ""}
		}
		if string(x) != w[0] || string(y) != w[1] || string(z) != w[2] {
			fail("is %q %q %q", x, y, z)
		}
	}
}
