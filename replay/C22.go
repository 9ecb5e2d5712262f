//gvc:pkg .
package gev

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/Allenxuxu/gev/eventloop"
	glog "github.com/Allenxuxu/gev/log"
	"golang.org/x/sys/unix"
)

type gvcSetup struct {
	mu      sync.Mutex
	fails   []string
	conns   map[string]*Connection // by peer address
	msgs    map[*Connection]int
	chosen  []*eventloop.EventLoop
	reg     map[int]bool
	server  *Server
	proto   *DefaultProtocol
	acc     map[int]int // accepted, not handed over
	closed  map[int]bool
	badfd   map[int]bool
	inChose int
}

func (g *gvcSetup) bad(f string, a ...interface{}) { g.fails = append(g.fails, fmt.Sprintf(f, a...)) }

func (g *gvcSetup) OnConnect(c *Connection) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if _, ok := g.conns[c.PeerAddr()]; ok {
		g.bad("OnConnect ran twice for %s", c.PeerAddr())
	}
	g.conns[c.PeerAddr()] = c
	if g.reg[c.fd] {
		g.bad("OnConnect ran after the connection was registered")
	}
	if fl, err := unix.FcntlInt(uintptr(c.fd), unix.F_GETFL, 0); err != nil || fl&unix.O_NONBLOCK == 0 {
		g.bad("the descriptor handed over is blocking or closed: %v", err)
	}
	if c.protocol != Protocol(g.proto) || c.idleTime != time.Hour || c.timingWheel != g.server.timingWheel || c.callBack != CallBack(g) || !c.Connected() {
		g.bad("the connection does not have the server's settings")
	}
	ok := false
	for _, l := range g.chosen {
		if l == c.loop {
			ok = true
		}
	}
	if !ok {
		g.bad("the connection is on a loop the strategy did not choose")
	}
	delete(g.acc, c.fd)
}
func (g *gvcSetup) OnMessage(c *Connection, ctx interface{}, data []byte) interface{} {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.msgs[c]++
	if g.conns[c.PeerAddr()] != c {
		g.bad("OnMessage before OnConnect")
	}
	return data
}
func (g *gvcSetup) OnClose(c *Connection) {}

func TestGVCC22(t *testing.T) {
	glog.SetLogger(gvcNoLog{})
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	for _, addr := range []string{"127.0.0.1:0", "[::1]:0"} {
		rnd := rand.New(rand.NewSource(seed))
		ln, err := net.Listen("tcp", addr)
		if err != nil {
			continue
		}
		addr = ln.Addr().String()
		ln.Close()
		g := &gvcSetup{conns: map[string]*Connection{}, msgs: map[*Connection]int{}, reg: map[int]bool{}, proto: &DefaultProtocol{}, acc: map[int]int{}, closed: map[int]bool{}, badfd: map[int]bool{}}
		nb := map[int]bool{}
		live := true
		unix.GVCAccept = func(fd int) (int, unix.Sockaddr, error) {
			n, sa, err := unix.GVCRealAccept(fd)
			g.mu.Lock()
			defer g.mu.Unlock()
			if err == nil && live {
				g.acc[n] = 1
				delete(g.closed, n)
				delete(g.reg, n)
				delete(nb, n)
				if rnd.Intn(5) == 0 {
					g.badfd[n] = true
				}
			}
			return n, sa, err
		}
		unix.GVCSetNonblock = func(fd int, on bool) error {
			g.mu.Lock()
			defer g.mu.Unlock()
			if g.badfd[fd] {
				return errors.New("injected")
			}
			nb[fd] = true
			return unix.GVCRealSetNonblock(fd, on)
		}
		unix.GVCClose = func(fd int) error {
			g.mu.Lock()
			if g.acc[fd] == 1 {
				if !g.badfd[fd] {
					g.bad("an accepted descriptor was closed although it could be made non-blocking")
				}
				delete(g.acc, fd)
				delete(g.badfd, fd)
			}
			g.closed[fd] = true
			g.mu.Unlock()
			return unix.GVCRealClose(fd)
		}
		unix.GVCEpollCtl = func(epfd, op, fd int, ev *unix.EpollEvent) error {
			g.mu.Lock()
			if op == unix.EPOLL_CTL_ADD {
				g.reg[fd] = true
			}
			g.mu.Unlock()
			return unix.GVCRealEpollCtl(epfd, op, fd, ev)
		}
		s, err := NewServer(g, Address(addr), NumLoops(3), IdleTime(time.Hour), CustomProtocol(g.proto), LoadBalance(func() LoadBalanceStrategy {
			return func(loops []*eventloop.EventLoop) *eventloop.EventLoop {
				g.mu.Lock()
				defer g.mu.Unlock()
				l := loops[rnd.Intn(len(loops))]
				g.chosen = append(g.chosen, l)
				if len(g.chosen) > 40 {
					g.bad("the strategy was asked %d times for at most 40 connections", len(g.chosen))
				}
				return l
			}
		}()))
		if err != nil {
			t.Fatal(err)
		}
		g.server = s
		done := make(chan bool)
		go func() { s.Start(); close(done) }()
		time.Sleep(30 * time.Millisecond)
		answered := 0
		var open []net.Conn
		for i := 0; i < 40; i++ {
			c, err := net.Dial("tcp", addr)
			if err != nil {
				t.Fatal(err)
			}
			open = append(open, c)
			_, _ = c.Write([]byte("hello"))
			_ = c.SetReadDeadline(time.Now().Add(2 * time.Second))
			b := make([]byte, 5)
			n, err := c.Read(b)
			g.mu.Lock()
			cc := g.conns[c.LocalAddr().String()]
			ne, timeout := err.(net.Error)
			timeout = timeout && ne.Timeout()
			switch {
			case n > 0 && cc == nil:
				g.bad("no connection with the peer address %s", c.LocalAddr())
			case n == 0 && cc != nil:
				g.bad("the connection %s was set up and not served", c.LocalAddr())
			case n == 0 && timeout:
				g.bad("connection %s was neither set up nor closed", c.LocalAddr())
			}
			if n > 0 {
				answered++
			}
			fs := g.fails
			g.mu.Unlock()
			if len(fs) > 0 {
				fmt.Printf("GVC-FAIL connection %d to %s: %v\n", i, addr, fs)
				t.FailNow()
			}
		}
		if answered < 10 {
			fmt.Printf("GVC-FAIL only %d of 40 connections were served\n", answered)
			t.FailNow()
		}
		g.mu.Lock()
		live = false
		g.mu.Unlock()
		for _, c := range open {
			c.Close()
		}
		s.Stop()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
		}
	}
}
