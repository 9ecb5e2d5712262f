//gvc:pkg plugins/websocket
package websocket

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/gobwas/httphead"
)

func TestGVCC20(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	step := ""
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL %s: %s\n", step, fmt.Sprintf(f, a...))
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	header := func(name string) (ws.HandshakeHeader, string) {
		s := name + ": 1\r\n"
		switch rnd.Intn(5) {
		case 0:
			return ws.HandshakeHeaderString(s), s
		case 1:
			return ws.HandshakeHeaderBytes(s), s
		case 2:
			return ws.HandshakeHeaderHTTP(http.Header{name: {"1"}}), s
		case 3:
			return ws.HandshakeHeaderFunc(func(w io.Writer) (int64, error) {
				n, err := io.WriteString(w, s)
				return int64(n), err
			}), s
		}
		return nil, ""
	}
	status := func(code int) string {
		return fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: text/plain; charset=utf-8\r\n", code, http.StatusText(code))
	}
	for round := 0; round < 30000; round++ {
		key := make([]byte, 24)
		for i := range key {
			key[i] = byte(33 + rnd.Intn(94))
		}
		lines := []string{"Host: example.com", "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: " + string(key)}
		request := "GET / HTTP/1.1"
		code, reason, extra, mine := 0, "", "", error(nil)
		u := &ws.Upgrader{}
		var h0, h1 string
		u.Header, h0 = header("X-A")
		protocol, exts := "", ""
		bad := func(name string) string { return fmt.Sprintf("handshake error: bad %q header", name) }
		names := []string{"Host", "Upgrade", "Connection", "Sec-WebSocket-Version", "Sec-WebSocket-Key"}
		switch rnd.Intn(12) {
		case 0:
			request, code, reason = "GET / HTTP/1.0", 505, "handshake error: bad HTTP protocol version"
		case 1:
			request, code, reason = "POST / HTTP/1.1", 405, "handshake error: bad HTTP request method"
		case 2:
			request, code, reason = "GET /", 400, "malformed HTTP request"
		case 3:
			i := rnd.Intn(5)
			code, reason = 400, bad(names[i])
			lines = append(lines[:i], lines[i+1:]...)
		case 4:
			lines[3], code, reason, extra = "Sec-WebSocket-Version: 8", 426, bad(names[3]), "Sec-WebSocket-Version: 13\r\n"
		case 5:
			i := []int{1, 2, 4}[rnd.Intn(3)]
			lines[i], code, reason = names[i]+": x", 400, bad(names[i])
		case 6:
			lines[rnd.Intn(5)], code, reason = "nonsense", 400, "malformed HTTP request"
		case 7, 8:
			n := rnd.Intn(4)
			reason = strings.Repeat([]string{"no! ", "zulässig"}[rnd.Intn(2)], rnd.Intn(30))
			if k := rnd.Intn(3); k == 0 {
				code, mine = 500, errors.New(reason)
			} else if k == 1 {
				i := rnd.Intn(9)
				mine = []error{ws.ErrHandshakeBadProtocol, ws.ErrHandshakeBadMethod, ws.ErrHandshakeBadHost, ws.ErrHandshakeBadUpgrade, ws.ErrHandshakeBadConnection, ws.ErrHandshakeBadSecAccept, ws.ErrHandshakeBadSecKey, ws.ErrHandshakeBadSecVersion, ws.ErrHandshakeUpgradeRequired}[i]
				code = []int{505, 405, 400, 400, 400, 400, 400, 400, 426}[i]
				reason = []string{"handshake error: bad HTTP protocol version", "handshake error: bad HTTP request method", bad("Host"), bad("Upgrade"), bad("Connection"), bad("Sec-WebSocket-Accept"), bad("Sec-WebSocket-Key"), bad("Sec-WebSocket-Version"), bad("Sec-WebSocket-Version")}[i]
				if i == 8 {
					extra = "Sec-WebSocket-Version: 13\r\n"
				}
			} else {
				var opts []ws.RejectOption
				code = 500
				if rnd.Intn(4) > 0 {
					code = []int{301, 401, 403, 404, 418, 426, 500, 503}[rnd.Intn(8)]
					opts = append(opts, ws.RejectionStatus(code))
				}
				opts = append(opts, ws.RejectionReason(reason))
				if h, s := header("X-R"); h != nil {
					opts = append(opts, ws.RejectionHeader(h))
					extra = s
				}
				rnd.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
				mine = ws.RejectConnectionError(opts...)
			}
			switch n {
			case 0:
				u.OnRequest = func(*gev.Connection, []byte) error { return mine }
			case 1:
				u.OnHost = func(*gev.Connection, []byte) error { return mine }
			case 2:
				lines = append(lines, "X-Any: thing")
				u.OnHeader = func(*gev.Connection, []byte, []byte) error { return mine }
			default:
				u.OnBeforeUpgrade = func(*gev.Connection) (ws.HandshakeHeader, error) { return nil, mine }
			}
		default:
			if rnd.Intn(2) == 0 {
				var h ws.HandshakeHeader
				h, h1 = header("X-B")
				u.OnBeforeUpgrade = func(*gev.Connection) (ws.HandshakeHeader, error) { return h, nil }
			}
			if rnd.Intn(2) == 0 {
				chat := []string{"chat", "c", "chat.example.com"}[rnd.Intn(3)]
				lines = append(lines, "Sec-WebSocket-Protocol: soap, "+chat+", other")
				if rnd.Intn(2) == 0 {
					u.Protocol = func(p []byte) bool { return string(p) == chat || string(p) == "other" }
				} else {
					u.ProtocolCustom = func(*gev.Connection, []byte) (string, bool) { return chat, true }
				}
				protocol = "Sec-WebSocket-Protocol: " + chat + "\r\n"
			}
			if rnd.Intn(2) == 0 {
				lines = append(lines, "Sec-WebSocket-Extensions: foo; a=1, bar, baz")
				var got []httphead.Option
				if rnd.Intn(2) == 0 {
					u.Extension = func(o httphead.Option) bool { return string(o.Name) != "bar" }
					p := httphead.Parameters{}
					p.Set([]byte("a"), []byte("1"))
					got = []httphead.Option{{Name: []byte("foo"), Parameters: p}, {Name: []byte("baz")}}
				} else {
					got = []httphead.Option{{Name: []byte("e1")}}
					u.ExtensionCustom = func(*gev.Connection, []byte, []httphead.Option) ([]httphead.Option, bool) { return got, true }
				}
				var b bytes.Buffer
				_, _ = httphead.WriteOptions(&b, got)
				exts = "Sec-WebSocket-Extensions: " + b.String() + "\r\n"
			}
		}
		rnd.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		req := request + "\r\n" + strings.Join(lines, "\r\n") + "\r\n\r\n"
		step = fmt.Sprintf("request %q", req)
		want := ""
		if code == 0 {
			sum := sha1.Sum([]byte(string(key) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
			want = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + base64.StdEncoding.EncodeToString(sum[:]) + "\r\n" + protocol + exts + h0 + h1 + "\r\n"
		} else {
			want = status(code) + h0 + extra + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(reason), reason)
		}
		b := ringbuffer.New(0)
		_, _ = b.Write([]byte(req))
		out, _, err := u.Upgrade(&gev.Connection{}, b)
		if string(out) != want {
			fail("answered %q, want %q", out, want)
		}
		if mine != nil && err != mine {
			fail("the error is %v, want %v", err, mine)
		}
		if (err == nil) != (code == 0) {
			fail("the error is %v", err)
		}
	}
}
