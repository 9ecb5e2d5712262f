//gvc:pkg eventloop
package eventloop

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	glog "github.com/Allenxuxu/gev/log"
	"golang.org/x/sys/unix"
)

type gvcNoLog5 struct{}

func (gvcNoLog5) Log(...interface{})          {}
func (gvcNoLog5) Logf(string, ...interface{}) {}

// Producers, tasks that queue tasks, and tasks queued at the moments the loop reads or a producer writes the wake
// counter. Every queued function must run once, in order, in a later round than the one in which it was queued.
func TestGVCC05(t *testing.T) {
	glog.SetLogger(gvcNoLog5{})
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rounds := 40
	if os.Getenv("GVC_TIER") == "thorough" {
		rounds = 400
	}
	for r := 0; r < rounds; r++ {
		if msg := gvcC05(rand.New(rand.NewSource(seed*1000 + int64(r)))); msg != "" {
			fmt.Printf("GVC-FAIL seed %d round %d: %s\n", seed, r, msg)
			t.FailNow()
		}
	}
}

func gvcC05(rnd *rand.Rand) string {
	l, err := New()
	if err != nil {
		return ""
	}
	var mu sync.Mutex
	msg := ""
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if msg == "" {
			msg = fmt.Sprintf(f, a...)
		}
	}
	var waits int64 // rounds of the poller
	var queued, ran int64
	type rec struct{ runs int64 }
	var recs []*rec
	last := map[int]int{} // per producer: number of the last function run; only the loop
	next := map[int]*int64{}
	for p := 0; p < 8; p++ {
		next[p] = new(int64)
	}
	var queue func(p int, depth int)
	queue = func(p int, depth int) {
		n := int(atomic.AddInt64(next[p], 1))
		r := &rec{}
		mu.Lock()
		recs = append(recs, r)
		mu.Unlock()
		at := atomic.LoadInt64(&waits)
		inloop := depth > 0
		atomic.AddInt64(&queued, 1)
		l.QueueInLoop(func() {
			if atomic.AddInt64(&r.runs, 1) > 1 {
				fail("function %d of producer %d runs again", n, p)
				return
			}
			atomic.AddInt64(&ran, 1)
			if last[p] != n-1 {
				fail("function %d of producer %d runs after its function %d", n, p, last[p])
			}
			last[p] = n
			if inloop && atomic.LoadInt64(&waits) == at {
				fail("a function queued by a running function runs in the same round")
			}
			if depth < 3 && p == 0 {
				queue(0, depth+1)
			}
		})
	}
	slow := rnd.Intn(4) == 0
	hook := int32(0)
	defer func() { unix.GVCEpollWait, unix.GVCRead, unix.GVCWrite = nil, nil, nil }()
	unix.GVCEpollWait = func(epfd int, ev []unix.EpollEvent, msec int) (int, error) {
		atomic.AddInt64(&waits, 1)
		return unix.GVCRealEpollWait(epfd, ev, msec)
	}
	unix.GVCRead = func(fd int, p []byte) (int, error) {
		k := rnd.Intn(4) // the loop only
		if k == 1 && atomic.CompareAndSwapInt32(&hook, 0, 1) {
			queue(1, 0)
			atomic.StoreInt32(&hook, 0)
		}
		n, err := unix.GVCRealRead(fd, p)
		if k == 2 && atomic.CompareAndSwapInt32(&hook, 0, 1) {
			queue(2, 0)
			atomic.StoreInt32(&hook, 0)
		}
		return n, err
	}
	unix.GVCWrite = func(fd int, p []byte) (int, error) {
		if atomic.CompareAndSwapInt32(&hook, 0, 1) {
			queue(3, 0)
			atomic.StoreInt32(&hook, 0)
		}
		n, err := unix.GVCRealWrite(fd, p)
		if slow {
			time.Sleep(300 * time.Microsecond)
		}
		return n, err
	}
	end := make(chan struct{})
	go func() {
		defer close(end)
		defer func() {
			if r := recover(); r != nil {
				fail("panic: %v", r)
			}
		}()
		l.Run()
	}()
	var wg sync.WaitGroup
	// in some rounds the loop is kept busy until all producers are done
	gate := make(chan struct{})
	burst := rnd.Intn(8) == 0
	if burst {
		l.QueueInLoop(func() { <-gate })
	}
	for _, p := range []int{0, 4, 5, 6, 7} {
		p := p
		k := 1 + rnd.Intn(60)
		if burst {
			k *= 30
		}
		if p == 0 {
			k = 1
		}
		d := rnd.Intn(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < k; i++ {
				queue(p, 0)
				if d == 1 && i%7 == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	close(gate)
	quiet := time.Now()
	seen := int64(-1)
	for time.Since(quiet) < 1500*time.Millisecond {
		q, n := atomic.LoadInt64(&queued), atomic.LoadInt64(&ran)
		if q == n {
			break
		}
		if n != seen {
			seen, quiet = n, time.Now()
		}
		time.Sleep(time.Millisecond)
	}
	if q, n := atomic.LoadInt64(&queued), atomic.LoadInt64(&ran); n != q {
		fail("%d functions queued, %d run: the rest is stranded", q, n)
	}
	l.poll.Close()
	select {
	case <-end:
	case <-time.After(time.Second):
	}
	mu.Lock()
	defer mu.Unlock()
	return msg
}
