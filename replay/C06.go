//gvc:pkg poller
package poller

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"golang.org/x/sys/unix"
)

// Batches of records are handed to the real Poll loop by an intercepted EpollWait; the handler checks deliveries.
func TestGVCC06(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rounds := 200
	if os.Getenv("GVC_TIER") == "thorough" {
		rounds = 3000
	}
	for r := 0; r < rounds; r++ {
		if msg := gvcC06(rand.New(rand.NewSource(seed*1000 + int64(r)))); msg != "" {
			fmt.Printf("GVC-FAIL seed %d round %d: %s\n", seed, r, msg)
			t.FailNow()
		}
	}
}

func gvcC06(rnd *rand.Rand) (msg string) {
	ep, err := Create()
	if err != nil {
		return ""
	}
	fail := func(f string, a ...interface{}) {
		if msg == "" {
			msg = fmt.Sprintf(f, a...)
		}
	}
	defer func() { unix.GVCEpollWait = nil }()
	var batch []unix.EpollEvent
	done := map[int]int{}
	wake, woken := false, 0
	batches := 5 + rnd.Intn(20)
	nb := 0
	stopping := false
	lastWake := false
	finish := func() {
		for i, e := range batch {
			if int(e.Fd) != ep.eventFd && done[int(e.Fd)] != 1 {
				fail("record %d of %d (descriptor %d, events %#x) delivered %d times", i, len(batch), e.Fd, e.Events, done[int(e.Fd)])
			}
		}
		if wake && woken != 1 {
			fail("wakeup of the batch delivered %d times (batch of %d)", woken, len(batch))
		}
	}
	masks := []uint32{unix.EPOLLIN, unix.EPOLLPRI, unix.EPOLLRDHUP, unix.EPOLLOUT, unix.EPOLLERR, unix.EPOLLHUP}
	unix.GVCEpollWait = func(epfd int, ev []unix.EpollEvent, msec int) (int, error) {
		if epfd != ep.fd {
			return unix.GVCRealEpollWait(epfd, ev, msec)
		}
		finish()
		batch, wake, woken = nil, false, 0
		done = map[int]int{}
		nb++
		if nb > batches+200 || msg != "" {
			panic("gvc: stop")
		}
		switch rnd.Intn(12) {
		case 0:
			return -1, unix.EINTR
		case 1:
			return 0, nil
		}
		if nb > batches && !stopping {
			stopping = true
			ep.running.Set(false)
		}
		n := 1 + rnd.Intn(6)
		if rnd.Intn(8) == 0 && len(ev) <= 4096 {
			n = len(ev)
		}
		if n > len(ev) {
			n = len(ev)
		}
		w := -1
		if rnd.Intn(3) == 0 {
			w = rnd.Intn(n)
		}
		if nb > batches+100 {
			w = n - 1
		}
		for i := 0; i < n; i++ {
			ev[i] = unix.EpollEvent{Fd: int32(100000 + i)}
			for _, m := range masks {
				if rnd.Intn(3) == 0 {
					ev[i].Events |= m
				}
			}
			if i == w {
				ev[i] = unix.EpollEvent{Fd: int32(ep.eventFd), Events: unix.EPOLLIN}
			}
		}
		batch = append([]unix.EpollEvent(nil), ev[:n]...)
		wake = w >= 0
		lastWake = wake
		if wake {
			_ = ep.Wake()
		}
		return n, nil
	}
	handler := func(fd int, ev Event) {
		if fd == -1 {
			woken++
			if !wake {
				fail("wake notification without a wakeup in the batch")
			}
			for _, e := range batch {
				if int(e.Fd) != ep.eventFd && done[int(e.Fd)] == 0 {
					fail("wake notification before the record of descriptor %d", e.Fd)
				}
			}
			return
		}
		if fd == ep.eventFd {
			fail("the wake descriptor was delivered")
		}
		if woken > 0 {
			fail("descriptor %d delivered after the wake notification", fd)
		}
		done[fd]++
		var e *unix.EpollEvent
		if i := fd - 100000; i >= 0 && i < len(batch) && int(batch[i].Fd) == fd {
			e = &batch[i]
		}
		if e == nil {
			fail("descriptor %d is not in the batch", fd)
			return
		}
		var want Event
		if e.Events&(unix.EPOLLIN|unix.EPOLLPRI|unix.EPOLLRDHUP) != 0 {
			want |= EventRead
		}
		if e.Events&(unix.EPOLLOUT|unix.EPOLLERR) != 0 {
			want |= EventWrite
		}
		if e.Events&unix.EPOLLHUP != 0 && e.Events&unix.EPOLLIN == 0 {
			want |= EventErr
		}
		if ev != want {
			fail("events %#x reported as %#x instead of %#x", e.Events, uint32(ev), uint32(want))
		}
	}
	end := make(chan interface{}, 1)
	go func() {
		defer func() { end <- recover() }()
		ep.Poll(handler)
	}()
	select {
	case r := <-end:
		if r != nil {
			if s, ok := r.(string); ok && s == "gvc: stop" {
				if msg == "" {
					fail("polling went on for 100 wakeups after the poller was stopped")
				}
			} else {
				fail("panic: %v", r)
			}
		} else {
			finish()
			if !stopping {
				fail("polling ended while the poller was running")
			}
			if !lastWake {
				fail("polling ended without a wakeup")
			}
		}
	case <-time.After(20 * time.Second):
		fail("the poll loop hangs")
	}
	_ = unix.Close(ep.fd)
	_ = unix.Close(ep.eventFd)
	return msg
}
