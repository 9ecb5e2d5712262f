//gvc:pkg .
package gev

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/Allenxuxu/gev/eventloop"
	glog "github.com/Allenxuxu/gev/log"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/RussellLuo/timingwheel"
	"golang.org/x/sys/unix"
)

type gvcIdle struct {
	c     *Connection
	fd    int
	peer  int
	idle  time.Duration
	mu    sync.Mutex
	first time.Time // lower and upper bound of the last activity
	last  time.Time
	at    time.Time // closed
	born  time.Time
}

func (g *gvcIdle) OnMessage(c *Connection, ctx interface{}, data []byte) interface{} { return nil }
func (g *gvcIdle) OnClose(c *Connection) {
	g.mu.Lock()
	g.at = time.Now()
	g.mu.Unlock()
}
func (g *gvcIdle) UnPacket(c *Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	g.mu.Lock()
	g.last = time.Now()
	g.mu.Unlock()
	b.RetrieveAll()
	return nil, nil
}
func (g *gvcIdle) Packet(c *Connection, d interface{}) []byte { return d.([]byte) }

func TestGVCC10(t *testing.T) {
	glog.SetLogger(gvcNoLog{})
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	loop, err := eventloop.New()
	if err != nil {
		t.Fatal(err)
	}
	tw := timingwheel.NewTimingWheel(time.Millisecond, 512)
	tw.Start()
	go loop.Run()
	var all []*gvcIdle
	var wg sync.WaitGroup
	stop := time.Now().Add(5 * time.Second)
	for i := 0; i < 60; i++ {
		p, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM, 0)
		if err != nil {
			t.Fatal(err)
		}
		_ = unix.SetNonblock(p[0], true)
		g := &gvcIdle{fd: p[0], peer: p[1]}
		switch i % 4 {
		case 0:
			g.idle = 0
		case 1:
			g.idle = time.Duration(300+rnd.Intn(900)) * time.Millisecond
		default:
			g.idle = time.Duration(1000+rnd.Intn(2000)) * time.Millisecond
		}
		done := make(chan bool)
		loop.QueueInLoop(func() {
			g.born = time.Now()
			g.last = g.born
			w := tw
			if g.idle == 0 {
				w = nil
			}
			g.c = NewConnection(g.fd, loop, &unix.SockaddrInet4{}, g, w, g.idle, g)
			_ = loop.AddSocketAndEnableRead(g.fd, g.c)
			close(done)
		})
		<-done
		all = append(all, g)
		var when []time.Duration
		for j := rnd.Intn(4); j > 0; j-- {
			when = append(when, time.Duration(rnd.Intn(1500))*time.Millisecond)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, d := range when {
				time.Sleep(d)
				_, _ = unix.Write(g.peer, []byte("x"))
			}
			time.Sleep(time.Until(stop.Add(2 * time.Second)))
		}()
		time.Sleep(time.Duration(rnd.Intn(30)) * time.Millisecond)
	}
	wg.Wait()
	const slack = 400 * time.Millisecond
	now := time.Now()
	for i, g := range all {
		g.mu.Lock()
		due := time.Unix(g.last.Unix(), 0).Add(g.idle)
		if f := g.born.Add(g.idle); f.After(due) {
			due = f
		}
		switch {
		case g.idle == 0 && !g.at.IsZero():
			fmt.Printf("GVC-FAIL connection %d without an idle time was closed after %v\n", i, g.at.Sub(g.born))
			t.FailNow()
		case g.idle > 0 && !g.at.IsZero() && g.at.Before(time.Unix(g.last.Unix(), 0).Add(g.idle-20*time.Millisecond)):
			fmt.Printf("GVC-FAIL connection %d with idle time %v, active at %v, was closed at %v\n", i, g.idle, g.last, g.at)
			t.FailNow()
		case g.idle > 0 && due.Add(slack).Before(now) && (g.at.IsZero() || g.at.After(due.Add(slack))):
			fmt.Printf("GVC-FAIL connection %d with idle time %v, created at %v, last active at %v, was closed at %v\n", i, g.idle, g.born, g.last, g.at)
			t.FailNow()
		}
		g.mu.Unlock()
	}
}
