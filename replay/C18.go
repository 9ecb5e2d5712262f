//gvc:pkg plugins/websocket
package websocket

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/gobwas/httphead"
)

func TestGVCC18(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	pick := func(ss ...string) string { return ss[rnd.Intn(len(ss))] }
	for round := 0; round < 60000; round++ {
		valid := true
		good := func(s string, bad ...string) string {
			if len(bad) > 0 && rnd.Intn(24) == 0 {
				valid = false
				return bad[rnd.Intn(len(bad))]
			}
			return s
		}
		blanks := func() string { return pick("", " ", " ", "\t", "  ") }
		method := good("GET", "POST", "get", "", "GETX", "HEAD")
		version := good(pick("HTTP/1.1", "HTTP/1.1", "HTTP/1.2", "HTTP/1.10"), "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/2.1", "HTTP/11", "HTTP/1.", "http/1.1", "HTTP/1.:", "")
		line := good(method+" /"+pick("", "a", "chat?x=y")+" "+version, "GET", "GET /", method+"/ "+version)
		var head []string
		if x := good("h"); x == "h" && rnd.Intn(24) > 0 {
			head = append(head, pick("Host", "host", "HOST")+":"+blanks()+pick("example.com", "", "h:1"))
		} else {
			valid = false
		}
		add := func(k, v string) {
			if rnd.Intn(30) == 0 {
				valid = false
				return
			}
			if rnd.Intn(4) == 0 {
				k = strings.ToLower(k)
			} else if rnd.Intn(4) == 0 {
				k = strings.ToUpper(k)
			}
			head = append(head, blanks()+k+blanks()+":"+blanks()+v+blanks())
		}
		add("Upgrade", good("websocket", "h2c", "", "websocket2", "websocke"))
		add("Connection", good(pick("Upgrade", "upgrade"), "close", "", "Upgrad"))
		add("Sec-WebSocket-Version", good("13", "8", "", "113", "130", "1"))
		key := make([]byte, 24)
		for i := range key {
			key[i] = "abcdefghij0123456789+/=:"[rnd.Intn(24)]
		}
		add("Sec-WebSocket-Key", good(string(key), string(key[1:]), string(key)+"x", ""))
		if rnd.Intn(3) == 0 {
			head = append(head, "X-Test:"+blanks()+pick("1", "", "a:b"))
		}
		if rnd.Intn(40) == 0 {
			head = append(head, pick("nonsense", " ", "x"))
			valid = false
		}
		hasProto, nExt := rnd.Intn(4) == 0, rnd.Intn(3)
		if hasProto {
			if rnd.Intn(2) == 0 {
				head = append(head, "Sec-WebSocket-Protocol: "+pick("chat, soap", "chat"))
			}
			head = append(head, "Sec-WebSocket-Protocol: "+pick("chat", "soap, chat", "soap"))
		}
		for i := 0; i < nExt; i++ {
			head = append(head, "Sec-WebSocket-Extensions: foo; a=1, bar")
		}
		rnd.Shuffle(len(head), func(i, j int) { head[i], head[j] = head[j], head[i] })
		req := line + "\r\n" + strings.Join(head, "\r\n") + "\r\n\r\n"

		// user callbacks: each may be missing, accept or reject
		u := &ws.Upgrader{}
		reject := -1
		if rnd.Intn(2) == 0 {
			reject = rnd.Intn(40)
		}
		protos := 0
		asked := map[string]int{}
		mine := errors.New("mine")
		verdict := func(n int) error {
			if n == reject {
				valid = false
				if rnd.Intn(2) == 0 {
					return ws.RejectConnectionError(ws.RejectionStatus(403), ws.RejectionReason("no"))
				}
				return mine
			}
			return nil
		}
		conn := &gev.Connection{}
		if rnd.Intn(2) == 0 {
			u.OnRequest = func(c *gev.Connection, uri []byte) error { asked["request"]++; return verdict(0) }
		}
		if rnd.Intn(2) == 0 {
			u.OnHost = func(c *gev.Connection, h []byte) error { asked["host"]++; return verdict(1) }
		}
		if rnd.Intn(2) == 0 {
			u.OnHeader = func(c *gev.Connection, k, v []byte) error { asked["header"]++; return verdict(2) }
		}
		if rnd.Intn(2) == 0 {
			u.OnBeforeUpgrade = func(c *gev.Connection) (ws.HandshakeHeader, error) {
				asked["before"]++
				return ws.HandshakeHeaderString("X-B: 1\r\n"), verdict(3)
			}
		}
		switch rnd.Intn(4) {
		case 0:
			u.Protocol = func(p []byte) bool { return string(p) == "chat" }
		case 1:
			u.ProtocolCustom = func(c *gev.Connection, v []byte) (string, bool) {
				if verdict(4) != nil {
					return "", false
				}
				protos++
				return fmt.Sprint("p", protos), true
			}
		}
		switch rnd.Intn(4) {
		case 0:
			u.Extension = func(o httphead.Option) bool { return string(o.Name) == "foo" }
		case 1:
			u.ExtensionCustom = func(c *gev.Connection, v []byte, o []httphead.Option) ([]httphead.Option, bool) {
				return append(o, httphead.Option{Name: []byte("foo")}), verdict(5) == nil
			}
		}

		// the request arrives in pieces, in a buffer with any layout; the next bytes may already be there
		follow := ""
		if rnd.Intn(3) == 0 {
			follow = pick("\x81\x01a", "\r\n\r\n", "GET / HTTP/1.1\r\n\r\n")
		}
		b := ringbuffer.New(rnd.Intn(80))
		if rnd.Intn(2) == 0 {
			size := len(req) + len(follow) + 1 + rnd.Intn(20)
			b = ringbuffer.New(size)
			k := 1 + rnd.Intn(size-1)
			_, _ = b.Write(make([]byte, k))
			_, _ = b.Write([]byte(req[:1]))
			b.Retrieve(k)
		} else {
			_, _ = b.Write([]byte(req[:1]))
		}
		step = fmt.Sprintf("request %q", req)
		for n := 1; n < len(req); {
			m := n + 1 + rnd.Intn(len(req)-n)
			if rnd.Intn(2) == 0 && m < len(req) {
				m = len(req) - rnd.Intn(5)
				if m <= n {
					m = n + 1
				}
			}
			add := req[n:m]
			n = m
			if n == len(req) {
				add += follow
			}
			_, _ = b.Write([]byte(add))
			if n < len(req) {
				out, _, err := u.Upgrade(conn, b)
				if err == nil || len(out) > 0 {
					fail("answered %q after its first %d bytes", out, n)
				}
				if string(b.Bytes()) != req[:n] {
					fail("incomplete, but after %d bytes %q remain", n, b.Bytes())
				}
			}
		}
		for k := range asked {
			fail("callback %s asked about an incomplete request", k)
		}
		out, hs, err := u.Upgrade(conn, b)
		if string(b.Bytes()) != follow {
			fail("left %q of the %q that follow it", b.Bytes(), follow)
		}
		if (err == nil) != valid {
			fail("valid %v, but the result is %v", valid, err)
		}
		if valid {
			if !strings.HasPrefix(string(out), "HTTP/1.1 101 ") {
				fail("answered %q", out)
			}
			if u.OnRequest != nil && asked["request"] != 1 || u.OnHost != nil && asked["host"] != 1 || u.OnBeforeUpgrade != nil && asked["before"] != 1 {
				fail("the callbacks were asked %v", asked)
			}
			if u.ProtocolCustom != nil && hasProto && hs.Protocol != "p1" {
				fail("the subprotocol is %q", hs.Protocol)
			}
			if u.ExtensionCustom != nil && len(hs.Extensions) != nExt {
				fail("%d headers, the extensions are %q", nExt, hs.Extensions)
			}
		} else if !strings.HasPrefix(string(out), "HTTP/1.1 ") || strings.HasPrefix(string(out), "HTTP/1.1 101") {
			fail("rejected with %q", out)
		}
	}
}
