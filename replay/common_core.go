//gvc:pkg .
package gev

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Allenxuxu/gev/eventloop"
	glog "github.com/Allenxuxu/gev/log"
	"github.com/Allenxuxu/gev/poller"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/RussellLuo/timingwheel"
	"golang.org/x/sys/unix"
)

// A connection on a real loop, driven by a peer socket, with an oracle for the properties of the connection core.
type gvcCore struct {
	prop string
	rnd  *rand.Rand // driver
	lrnd *rand.Rand // callbacks, on the loop
	loop *eventloop.EventLoop
	c    *Connection
	fd   int
	peer int
	dup  int

	mu       sync.Mutex
	fails    []string
	in       []byte // written by the peer
	rcv      []byte // read by the peer
	acc      []byte // accepted output
	cons     int    // consumed by the decoder
	seen     int    // longest prefix of in the decoder has seen
	onclose  int
	msgs     int
	closedAt int
	packs    int
	down     bool
	sends    bool
	steps    []string
	live     bool // system calls on fd are the connection's
	faults   bool
	hard     int // the next write (1) or read (2) fails
	hardSeen bool
	nclose   int
	sent     int // bytes the socket took
	reg      bool
}

func (h *gvcCore) fail(prop, f string, a ...interface{}) {
	if prop == h.prop {
		h.fails = append(h.fails, fmt.Sprintf(f, a...))
	}
}

// interest returns the interest registered for fd with any epoll instance of the process.
func gvcInterest(fd int) (mask uint32, found bool) {
	ds, _ := ioutil.ReadDir("/proc/self/fdinfo")
	for _, d := range ds {
		b, err := ioutil.ReadFile("/proc/self/fdinfo/" + d.Name())
		if err != nil || !bytes.Contains(b, []byte("tfd:")) {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) > 3 && f[0] == "tfd:" && f[1] == strconv.Itoa(fd) {
				m, _ := strconv.ParseUint(f[3], 16, 32)
				return uint32(m), true
			}
		}
	}
	return 0, false
}

func gvcRing(b *ringbuffer.RingBuffer) []byte {
	f, e := b.PeekAll()
	return append(append([]byte{}, f...), e...)
}

// frames: two length bytes, then the payload
func (h *gvcCore) UnPacket(c *Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if c != h.c {
		h.fail("C02", "the decoder was called for another connection")
		return nil, nil
	}
	all := gvcRing(b)
	if h.cons+len(all) > len(h.in) || !bytes.Equal(all, h.in[h.cons:h.cons+len(all)]) {
		h.fail("C02", "the decoder saw %d bytes that are not the received bytes from offset %d on", len(all), h.cons)
	} else if h.cons+len(all) < h.seen {
		h.fail("C02", "the decoder saw the stream only up to %d after it had seen it up to %d", h.cons+len(all), h.seen)
	} else {
		h.seen = h.cons + len(all)
	}
	if len(all) < 2 {
		return nil, nil
	}
	n := 2 + int(all[0])<<8 + int(all[1])
	if len(all) < n {
		return nil, nil
	}
	b.Retrieve(n)
	h.cons += n
	return n, all[2:n]
}

func (h *gvcCore) Packet(c *Connection, data interface{}) []byte {
	h.mu.Lock()
	defer h.mu.Unlock()
	b := data.([]byte)
	h.packs++
	if !h.down {
		h.acc = append(h.acc, b...)
	}
	return b
}

func gvcBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

func gvcSize(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 1 + r.Intn(4)
	case 2:
		return r.Intn(200)
	case 3:
		return r.Intn(5000)
	case 4:
		return r.Intn(30000)
	}
	return r.Intn(120000)
}

func (h *gvcCore) OnMessage(c *Connection, ctx interface{}, data []byte) interface{} {
	h.mu.Lock()
	h.msgs++
	if h.onclose > 0 || !c.Connected() {
		h.fail("C03", "OnMessage was called after teardown")
	}
	r := h.lrnd
	k := r.Intn(8)
	var reply []byte
	if k < 4 {
		reply = gvcBytes(r, gvcSize(r))
	}
	h.mu.Unlock()
	switch {
	case k < 4:
		return reply
	case k == 4:
		return data
	case k == 5 && h.sends:
		h.send(c, gvcBytes(r, gvcSize(r)))
	}
	return nil
}

func (h *gvcCore) OnClose(c *Connection) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.onclose++
	h.down = true
	if h.onclose > 1 {
		h.fail("C03", "OnClose ran %d times", h.onclose)
	}
	if c.Connected() {
		h.fail("C03", "Connected is true in OnClose")
	}
}

// send sends and checks the completion callback
func (h *gvcCore) send(c *Connection, data []byte) {
	runs := 0
	err := c.Send(data, SendInLoop(func(d interface{}) {
		runs++
		b, ok := d.([]byte)
		h.mu.Lock()
		defer h.mu.Unlock()
		if runs > 1 || !ok || !bytes.Equal(b, data) {
			h.fail("C09", "the completion callback ran %d times, with the data sent: %v", runs, ok && bytes.Equal(b, data))
		}
		if !bytes.HasSuffix(h.acc, data) && !h.down {
			h.fail("C09", "the completion callback ran before the data was packed")
		}
		if !h.down && h.sent+h.c.outBuffer.Length() != len(h.acc) {
			h.fail("C09", "the completion callback ran with %d bytes accepted, %d sent and %d buffered", len(h.acc), h.sent, h.c.outBuffer.Length())
		}
	}))
	_ = err
}

// on runs f on the loop and waits for it.
func (h *gvcCore) on(f func()) bool {
	done := make(chan struct{})
	h.loop.QueueInLoop(func() { f(); close(done) })
	select {
	case <-done:
		return true
	case <-time.After(10 * time.Second):
		return false
	}
}

func (h *gvcCore) open(fd int) bool {
	_, err := unix.FcntlInt(uintptr(fd), unix.F_GETFD, 0)
	return err == nil
}

// check runs on the loop, between two steps of it.
func (h *gvcCore) check() {
	h.mu.Lock()
	defer h.mu.Unlock()
	c := h.c
	if h.down || !c.connected.Get() {
		return
	}
	out, in := gvcRing(c.outBuffer), gvcRing(c.inBuffer)
	if !bytes.HasSuffix(h.acc, out) {
		h.fail("C01", "the write buffer holds %d bytes that are not the last accepted ones", len(out))
	}
	if !bytes.HasPrefix(h.acc, h.rcv) {
		h.fail("C01", "the peer received %d bytes that are not the first accepted ones", len(h.rcv))
	}
	if h.cons+len(in) > len(h.in) || !bytes.Equal(in, h.in[h.cons:h.cons+len(in)]) {
		h.fail("C02", "the read buffer holds %d bytes that are not the bytes received after offset %d", len(in), h.cons)
	} else if h.cons+len(in) < h.seen {
		h.fail("C02", "the read buffer ends at offset %d of the stream after %d was seen", h.cons+len(in), h.seen)
	}
	if n := c.ReadBufferLength(); n != int64(h.seen-h.cons) {
		h.fail("C24", "ReadBufferLength %d with %d bytes not consumed", n, h.seen-h.cons)
	}
	if n := c.WriteBufferLength(); n != int64(len(h.acc)-h.sent) {
		h.fail("C24", "WriteBufferLength %d with %d bytes pending", n, len(h.acc)-h.sent)
	}
	m, ok := gvcInterest(h.fd)
	if !ok {
		h.fail("C04", "an open connection is not subscribed")
		h.fail("C03", "an open connection is not subscribed")
	} else if m&unix.EPOLLIN == 0 || m&(unix.EPOLLONESHOT|unix.EPOLLET&0xffffffff) != 0 || (m&unix.EPOLLOUT != 0) != (len(out) > 0) {
		h.fail("C04", "subscribed to %x with %d bytes pending", m, len(out))
	}
}

func gvcPair(r *rand.Rand) (int, int, bool, error) {
	if r.Intn(2) == 0 {
		p, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM, 0)
		return p[0], p[1], false, err
	}
	l, err := unix.Socket(unix.AF_INET, unix.SOCK_STREAM, 0)
	if err != nil {
		return 0, 0, false, err
	}
	defer unix.Close(l)
	if err = unix.Bind(l, &unix.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return 0, 0, false, err
	}
	if err = unix.Listen(l, 1); err != nil {
		return 0, 0, false, err
	}
	sa, err := unix.Getsockname(l)
	if err != nil {
		return 0, 0, false, err
	}
	b, err := unix.Socket(unix.AF_INET, unix.SOCK_STREAM, 0)
	if err != nil {
		return 0, 0, false, err
	}
	if err = unix.Connect(b, sa); err != nil {
		return 0, 0, false, err
	}
	a, _, err := unix.Accept(l)
	return a, b, true, err
}

func (h *gvcCore) readPeer(max int) int {
	b := make([]byte, max)
	n, err := unix.Read(h.peer, b)
	if n > 0 && err == nil {
		h.mu.Lock()
		h.rcv = append(h.rcv, b[:n]...)
		h.mu.Unlock()
		return n
	}
	return 0
}

func (h *gvcCore) writePeer(b []byte) {
	h.mu.Lock()
	defer h.mu.Unlock()
	n, err := unix.Write(h.peer, b)
	if n > 0 && err == nil {
		h.in = append(h.in, b[:n]...)
	}
}

// system calls on the connection's descriptor, with faults
var (
	gvcCurMu sync.Mutex
	gvcCur   *gvcCore
)

func gvcHooks() {
	cur := func(fd int) *gvcCore {
		gvcCurMu.Lock()
		defer gvcCurMu.Unlock()
		if gvcCur != nil && gvcCur.fd == fd && gvcCur.live {
			return gvcCur
		}
		return nil
	}
	unix.GVCWrite = func(fd int, p []byte) (n int, err error) {
		h := cur(fd)
		if h == nil {
			return unix.GVCRealWrite(fd, p)
		}
		h.mu.Lock()
		defer h.mu.Unlock()
		defer func() {
			if n > 0 && err == nil {
				h.sent += n
			}
		}()
		if h.nclose > 0 {
			h.fail("C03", "write to the descriptor after it was closed")
		}
		if h.hard == 1 {
			h.hard, h.down, h.hardSeen = 0, true, true
			return -1, unix.ECONNRESET
		}
		if !h.faults {
			return unix.GVCRealWrite(fd, p)
		}
		switch k := h.lrnd.Intn(6); {
		case k == 0:
			return -1, unix.EAGAIN
		case k == 1 && len(p) > 1:
			return unix.GVCRealWrite(fd, p[:len(p)-1])
		case k == 2 && len(p) > 1:
			return unix.GVCRealWrite(fd, p[:1])
		case k == 3 && len(p) > 1:
			return unix.GVCRealWrite(fd, p[:1+h.lrnd.Intn(len(p)-1)])
		}
		return unix.GVCRealWrite(fd, p)
	}
	unix.GVCRead = func(fd int, p []byte) (int, error) {
		h := cur(fd)
		if h == nil {
			return unix.GVCRealRead(fd, p)
		}
		h.mu.Lock()
		defer h.mu.Unlock()
		if h.nclose > 0 {
			h.fail("C03", "read from the descriptor after it was closed")
		}
		if h.c != nil && !h.c.outBuffer.IsEmpty() {
			h.fail("C04", "input is read while %d bytes of output are pending", h.c.outBuffer.Length())
		}
		if h.hard == 2 {
			h.hard, h.down, h.hardSeen = 0, true, true
			return -1, unix.ECONNRESET
		}
		if !h.faults {
			return unix.GVCRealRead(fd, p)
		}
		switch k := h.lrnd.Intn(5); {
		case k == 0:
			return -1, unix.EAGAIN
		case k == 1 && len(p) > 1:
			return unix.GVCRealRead(fd, p[:1+h.lrnd.Intn(len(p)-1)])
		case k == 2 && len(p) > 1:
			return unix.GVCRealRead(fd, p[:1+h.lrnd.Intn(5)])
		}
		return unix.GVCRealRead(fd, p)
	}
	unix.GVCClose = func(fd int) error {
		if h := cur(fd); h != nil {
			h.mu.Lock()
			h.nclose++
			if h.nclose > 1 {
				h.fail("C03", "the descriptor was closed %d times", h.nclose)
			}
			if h.reg {
				h.fail("C03", "the descriptor was closed before it was deregistered")
			}
			h.mu.Unlock()
		}
		return unix.GVCRealClose(fd)
	}
	unix.GVCEpollCtl = func(epfd, op, fd int, ev *unix.EpollEvent) error {
		if h := cur(fd); h != nil {
			h.mu.Lock()
			if h.nclose > 0 {
				h.fail("C03", "the descriptor was passed to epoll_ctl after it was closed")
			}
			if op == unix.EPOLL_CTL_ADD {
				h.reg = true
			}
			if op == unix.EPOLL_CTL_DEL {
				h.reg = false
			}
			h.mu.Unlock()
		}
		return unix.GVCRealEpollCtl(epfd, op, fd, ev)
	}
}

type gvcNoLog struct{}

func (gvcNoLog) Log(...interface{})          {}
func (gvcNoLog) Logf(string, ...interface{}) {}

// one history; returns the failures seen
func gvcHistory(prop string, seed int64) (h *gvcCore, err error) {
	h = &gvcCore{prop: prop, rnd: rand.New(rand.NewSource(seed)), lrnd: rand.New(rand.NewSource(seed + 1))}
	r := h.rnd
	h.loop, err = eventloop.New()
	if err != nil {
		return h, err
	}
	var tcp bool
	h.fd, h.peer, tcp, err = gvcPair(r)
	if err != nil {
		return h, err
	}
	_ = unix.SetNonblock(h.fd, true)
	_ = unix.SetNonblock(h.peer, true)
	if r.Intn(3) > 0 {
		_ = unix.SetsockoptInt(h.fd, unix.SOL_SOCKET, unix.SO_SNDBUF, 4096)
	}
	h.sends = r.Intn(2) == 0
	h.faults = r.Intn(2) == 0
	h.live = true
	gvcCurMu.Lock()
	gvcCur = h
	gvcCurMu.Unlock()
	defer func() {
		gvcCurMu.Lock()
		gvcCur = nil
		gvcCurMu.Unlock()
	}()
	var tw *timingwheel.TimingWheel
	var idle time.Duration
	if r.Intn(3) == 0 {
		tw = timingwheel.NewTimingWheel(time.Millisecond, 64)
		tw.Start()
		defer tw.Stop()
		idle = time.Hour
	}
	go h.loop.Run()
	defer func() {
		_ = h.loop.Stop()
		_ = unix.Close(h.peer)
		if h.dup > 0 {
			_ = unix.Close(h.dup)
		}
	}()
	var sa unix.Sockaddr = &unix.SockaddrInet4{}
	// as the server does it
	if !h.on(func() {
		h.c = NewConnection(h.fd, h.loop, sa, h, tw, idle, h)
		err = h.loop.AddSocketAndEnableRead(h.fd, h.c)
	}) || err != nil {
		return h, err
	}
	var pend []byte // what the peer writes next
	for i := 0; i < 14+r.Intn(14) && len(h.fails) == 0; i++ {
		k := r.Intn(9)
		h.steps = append(h.steps, strconv.Itoa(k))
		switch k {
		case 0, 1, 2: // the peer writes a part of the next frames
			if len(pend) == 0 {
				for j := 0; j <= r.Intn(3); j++ {
					p := gvcBytes(r, gvcSize(r)%65536)
					pend = append(append(pend, byte(len(p)>>8), byte(len(p))), p...)
				}
			}
			n := 1 + r.Intn(len(pend))
			if r.Intn(3) == 0 {
				n = len(pend)
			}
			before := len(h.in)
			h.writePeer(pend[:n])
			pend = pend[len(h.in)-before:]
		case 3:
			h.readPeer(1 + r.Intn(3000))
		case 4:
			for h.readPeer(65536) > 0 {
			}
		case 5: // from another goroutine
			h.send(h.c, gvcBytes(r, gvcSize(r)))
		case 6: // a spurious or combined event
			ev := []poller.Event{0, poller.EventRead, poller.EventWrite, poller.EventRead | poller.EventWrite}[r.Intn(4)]
			if !h.on(func() {
				if h.c.connected.Get() {
					h.c.HandleEvent(h.fd, ev)
				}
			}) {
				return h, nil
			}
		case 7: // the loop is busy meanwhile
			h.busy()
		case 8:
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
		if !h.on(h.check) {
			return h, nil
		}
	}
	if len(h.fails) > 0 {
		return h, nil
	}
	if r.Intn(3) == 0 {
		h.drain()
		if len(h.fails) > 0 {
			return h, nil
		}
	}
	h.teardown(tcp)
	return h, nil
}

// busy checks that Send and Close only enqueue
func (h *gvcCore) busy() {
	in, out := make(chan struct{}), make(chan struct{})
	h.loop.QueueInLoop(func() { close(in); <-out })
	select {
	case <-in:
	case <-time.After(10 * time.Second):
		close(out)
		return
	}
	h.mu.Lock()
	packs := h.packs
	h.mu.Unlock()
	n := h.c.outBuffer.Length()
	k := 1 + h.rnd.Intn(3)
	for i := 0; i < k; i++ {
		h.send(h.c, gvcBytes(h.rnd, gvcSize(h.rnd)))
	}
	h.mu.Lock()
	if h.packs != packs || h.c.outBuffer.Length() != n {
		h.fail("C09", "Send packed or buffered data while the loop was busy with something else")
	}
	h.mu.Unlock()
	close(out)
	h.on(func() {})
	h.mu.Lock()
	if !h.down && h.packs < packs+k {
		h.fail("C09", "%d accepted sends were packed %d times", k, h.packs-packs)
	}
	h.mu.Unlock()
}

// drain lets everything arrive
func (h *gvcCore) drain() {
	t := time.Now()
	idle := func() bool {
		for h.readPeer(65536) > 0 {
		}
		h.mu.Lock()
		defer h.mu.Unlock()
		return len(h.rcv) >= len(h.acc) && h.seen >= len(h.in) || h.down
	}
	for time.Since(t) < 5*time.Second {
		if idle() && h.on(func() {}) && idle() && h.on(func() {}) && idle() {
			break
		}
		time.Sleep(time.Millisecond)
	}
	h.on(h.check)
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.down {
		h.fail("C03", "the connection was torn down although nothing happened to it")
		return
	}
	if !bytes.Equal(h.rcv, h.acc) {
		h.fail("C01", "the peer received %d bytes, %d were accepted, equal: false", len(h.rcv), len(h.acc))
	}
	if len(h.rcv) < len(h.acc) {
		h.fail("C04", "%d of %d accepted bytes never left although the peer reads", len(h.acc)-len(h.rcv), len(h.acc))
	}
	if h.seen != len(h.in) {
		h.fail("C02", "the decoder saw %d of %d received bytes", h.seen, len(h.in))
		h.fail("C04", "the decoder saw %d of %d received bytes", h.seen, len(h.in))
	}
}

func (h *gvcCore) teardown(tcp bool) {
	c, r := h.c, h.rnd
	h.dup, _ = unix.Dup(h.fd)
	ib, ob := c.inBuffer, c.outBuffer
	k := r.Intn(8)
	h.steps = append(h.steps, "close"+strconv.Itoa(k))
	hard := false
	switch k {
	case 0: // from another goroutine
		_ = c.Close()
		hard = true
	case 1: // twice, with data in between
		_ = c.Close()
		h.send(c, gvcBytes(r, 100))
		_ = c.Close()
		hard = true
	case 2: // the peer is gone
		_ = unix.Close(h.peer)
		h.peer = -1
	case 3: // and resets the connection
		if tcp {
			_ = unix.SetsockoptLinger(h.peer, unix.SOL_SOCKET, unix.SO_LINGER, &unix.Linger{Onoff: 1})
		}
		_ = unix.Close(h.peer)
		h.peer = -1
	case 4: // hang-up reported
		h.on(func() { c.HandleEvent(h.fd, poller.EventErr) })
		hard = true
	case 5: // end of stream
		_ = unix.Shutdown(h.peer, unix.SHUT_WR)
	case 6: // a write fails
		h.mu.Lock()
		h.hard = 1
		h.mu.Unlock()
		h.send(c, gvcBytes(r, 100))
	case 7: // a read fails
		h.mu.Lock()
		h.hard = 2
		h.mu.Unlock()
		h.writePeer([]byte("x"))
	}
	t := time.Now()
	for c.Connected() && time.Since(t) < 3*time.Second {
		if h.peer > 0 {
			for h.readPeer(65536) > 0 {
			}
		}
		time.Sleep(time.Millisecond)
	}
	if !h.on(func() {}) {
		return
	}
	if c.Connected() {
		h.fail("C03", "the connection is still open after the peer went away, it was closed or a hang-up was reported (%d)", k)
		if hard {
			h.fail("C09", "Close did not tear the connection down (%d)", k)
		}
		return
	}
	h.on(func() {
		if h.onclose != 1 {
			h.fail("C03", "OnClose ran %d times", h.onclose)
			h.fail("C09", "OnClose ran %d times", h.onclose)
		}
		if _, ok := gvcInterest(h.fd); ok {
			h.fail("C03", "the descriptor was closed without being deregistered")
		}
		if h.loop.ConnectionCount() != 0 {
			h.fail("C03", "the loop still counts the connection")
		}
		if h.open(h.fd) {
			h.fail("C03", "the descriptor was not closed")
			return
		}
		// something else gets the descriptor
		gvcCurMu.Lock()
		h.live = false
		gvcCurMu.Unlock()
		p, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM, 0)
		if err != nil {
			return
		}
		s := p[0]
		if s != h.fd {
			if p[1] == h.fd {
				s, p[1] = p[1], p[0]
			} else {
				if err := unix.Dup3(p[0], h.fd, 0); err != nil {
					return
				}
				_ = unix.Close(p[0])
				s = h.fd
			}
		}
		defer unix.Close(p[1])
		_ = unix.SetNonblock(s, true)
		_ = unix.SetNonblock(p[1], true)
		_, _ = unix.Write(p[1], []byte("xyz"))
		// the buffers were pooled: two owners must not get the same one
		a, b := ringbuffer.GetFromPool(), ringbuffer.GetFromPool()
		if a == b {
			h.fail("C03", "a buffer was given back to the pool twice")
		}
		ib.RetrieveAll()
		ob.RetrieveAll()
		_, _ = ib.Write([]byte("abc"))
		_, _ = ob.Write([]byte("def"))
		if err := c.Send([]byte("late")); err != ErrConnectionClosed {
			h.fail("C03", "Send on a closed connection returned %v", err)
			h.fail("C09", "Send on a closed connection returned %v", err)
		}
		if err := c.Close(); err != ErrConnectionClosed {
			h.fail("C03", "Close on a closed connection returned %v", err)
			h.fail("C09", "Close on a closed connection returned %v", err)
		}
		if err := c.ShutdownWrite(); err != ErrConnectionClosed {
			h.fail("C03", "ShutdownWrite on a closed connection returned %v", err)
		}
		h.loop.QueueInLoop(func() {
			if !h.open(h.fd) {
				h.fail("C03", "the descriptor was closed twice")
			} else {
				b := make([]byte, 10)
				if n, _ := unix.Read(p[1], b); n > 0 {
					h.fail("C03", "something was written to the descriptor after teardown")
				}
				if n, _ := unix.Read(s, b); n != 3 {
					h.fail("C03", "something was read from the descriptor after teardown")
				}
			}
			if string(gvcRing(ib)) != "abc" || string(gvcRing(ob)) != "def" {
				h.fail("C03", "a pooled buffer was used after teardown")
			}
			ib.RetrieveAll()
			ob.RetrieveAll()
			if h.onclose != 1 {
				h.fail("C03", "OnClose ran %d times", h.onclose)
			}
			_ = unix.Close(s)
		})
	})
	h.on(func() {})
}

func gvcCoreRun(t *testing.T, prop string) {
	glog.SetLogger(gvcNoLog{})
	gvcHooks()
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	lim := 40 * time.Second
	if os.Getenv("GVC_TIER") == "thorough" {
		lim = 120 * time.Second
	}
	t0 := time.Now()
	n := 0
	for i := int64(0); time.Since(t0) < lim && i < 4000; i++ {
		h, err := gvcHistory(prop, seed*100003+i*7)
		n++
		if err != nil {
			t.Fatal(err)
		}
		h.mu.Lock()
		fs := h.fails
		h.mu.Unlock()
		if len(fs) > 0 {
			fmt.Printf("GVC-FAIL history %d (steps %s): %s\n", seed*100003+i*7, strings.Join(h.steps, " "), strings.Join(fs, "; "))
			t.FailNow()
		}
	}
	fmt.Printf("%d histories\n", n)
}
