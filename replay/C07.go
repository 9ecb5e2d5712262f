//gvc:pkg eventloop
package eventloop

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	glog "github.com/Allenxuxu/gev/log"
	"github.com/Allenxuxu/gev/poller"
	"golang.org/x/sys/unix"
)

type gvcNoLog struct{}

func (gvcNoLog) Log(...interface{})          {}
func (gvcNoLog) Logf(string, ...interface{}) {}

type gvcSock struct {
	id  int
	got *[]string
}

func (s *gvcSock) HandleEvent(fd int, ev poller.Event) {
	*s.got = append(*s.got, fmt.Sprintf("%d:%d:%d", s.id, fd, ev))
}
func (s *gvcSock) Close() error { return nil }

func TestGVCC07(t *testing.T) {
	glog.SetLogger(gvcNoLog{})
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	// records for the next wait call, and whether the next epoll_ctl fails
	var mu sync.Mutex
	var inject []unix.EpollEvent
	failNext := false
	var opened []int
	unix.GVCEpollCtl = func(epfd, op, fd int, ev *unix.EpollEvent) error {
		mu.Lock()
		defer mu.Unlock()
		if fd >= 100000 {
			if failNext {
				return errors.New("injected")
			}
			return nil
		}
		return unix.GVCRealEpollCtl(epfd, op, fd, ev)
	}
	unix.GVCEpollWait = func(epfd int, evs []unix.EpollEvent, ms int) (int, error) {
		n, err := unix.GVCRealEpollWait(epfd, evs, ms)
		mu.Lock()
		defer mu.Unlock()
		if n > 0 && len(inject) > 0 {
			// the wake record is last
			k := copy(evs[n:], inject)
			for i := 0; i < k/2+1; i++ {
				evs[0], evs[n+k-1] = evs[n+k-1], evs[0]
			}
			inject = nil
			n += k
		}
		return n, err
	}
	_ = opened
	for it := int64(0); it < 60; it++ {
		rnd := rand.New(rand.NewSource(seed*1000 + it))
		l, err := New()
		if err != nil {
			t.Fatal(err)
		}
		if l.ConnectionCount() != 0 {
			fmt.Printf("GVC-FAIL a new loop counts %d connections\n", l.ConnectionCount())
			t.FailNow()
		}
		go l.Run()
		on := func(f func()) bool {
			c := make(chan bool)
			l.QueueInLoop(func() { f(); close(c) })
			select {
			case <-c:
				return true
			case <-time.After(5 * time.Second):
				return false
			}
		}
		want := map[int]*gvcSock{}
		var got []string
		var log []string
		bad := func(f string, a ...interface{}) {
			fmt.Printf("GVC-FAIL seed %d, %v: %s\n", seed*1000+it, log, fmt.Sprintf(f, a...))
			t.FailNow()
		}
		for i := 0; i < 60; i++ {
			fd := 100000 + rnd.Intn(8)
			var msg string
			ok := true
			switch rnd.Intn(5) {
			case 0, 1:
				fl := rnd.Intn(3) == 0
				if _, is := want[fd]; is {
					fl = true
				}
				log = append(log, fmt.Sprintf("add(%d) fails=%v", fd, fl))
				s := &gvcSock{id: i, got: &got}
				ok = on(func() {
					mu.Lock()
					failNext = fl
					mu.Unlock()
					err := l.AddSocketAndEnableRead(fd, s)
					mu.Lock()
					failNext = false
					mu.Unlock()
					if (err != nil) != fl {
						msg = fmt.Sprintf("registration reports %v", err)
					}
				})
				if !fl {
					want[fd] = s
				}
			case 2:
				log = append(log, fmt.Sprintf("del(%d)", fd))
				fl := rnd.Intn(4) == 0
				ok = on(func() {
					mu.Lock()
					failNext = fl
					mu.Unlock()
					l.DeleteFdInLoop(fd)
					mu.Lock()
					failNext = false
					mu.Unlock()
				})
				delete(want, fd)
			default:
				var evs []unix.EpollEvent
				var exp []string
				for j := 0; j <= rnd.Intn(4); j++ {
					f := 100000 + rnd.Intn(8)
					evs = append(evs, unix.EpollEvent{Events: unix.EPOLLIN, Fd: int32(f)})
				}
				log = append(log, fmt.Sprintf("events %v", evs))
				ok = on(func() { got = nil; mu.Lock(); inject = evs; mu.Unlock() })
				ok = ok && on(func() {}) && on(func() {})
				cnt := map[string]int{}
				for _, e := range evs {
					if s, is := want[int(e.Fd)]; is {
						x := fmt.Sprintf("%d:%d:%d", s.id, e.Fd, poller.EventRead)
						exp = append(exp, x)
						cnt[x]++
					}
				}
				var have []string
				on(func() { have = append(have, got...) })
				for _, g := range have {
					cnt[g]--
				}
				for g, n := range cnt {
					if n != 0 {
						msg = fmt.Sprintf("event %s (socket:fd:event) was delivered %d times too few; expected %v, got %v", g, n, exp, have)
					}
				}
			}
			if !ok {
				return // the loop is stuck: not this property
			}
			if msg != "" {
				bad("%s", msg)
			}
			if n := l.ConnectionCount(); n != int64(len(want)) {
				bad("the count is %d with %d sockets registered", n, len(want))
			}
		}
		_ = l.Stop()
		if n := l.ConnectionCount(); n != 0 {
			bad("a stopped loop counts %d", n)
		}
	}
}
