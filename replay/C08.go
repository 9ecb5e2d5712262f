//gvc:pkg .
package gev

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"syscall"
	"testing"

	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/poller"
)

type gvcSock struct{}

func (gvcSock) HandleEvent(int, poller.Event) {}
func (gvcSock) Close() error                  { return nil }

func TestGVCC08(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	defer func() {
		if e := recover(); e != nil {
			fmt.Printf("GVC-FAIL panic: %v\n", e)
			t.FailNow()
		}
	}()
	const N = 9
	var all []*eventloop.EventLoop
	counts := make([]int, N)
	var fds [][]int
	for i := 0; i < N; i++ {
		l, err := eventloop.New()
		if err != nil {
			t.Fatal(err)
		}
		all = append(all, l)
		fds = append(fds, nil)
	}
	check := func(n int) {
		loops := append([]*eventloop.EventLoop{}, all[:n]...)
		got := LeastConnection()(loops)
		want := 0
		for i := 0; i < n; i++ {
			if counts[i] < counts[want] {
				want = i
			}
			if loops[i] != all[i] {
				fmt.Printf("GVC-FAIL LeastConnection changed the list of loops at %d (counts %v)\n", i, counts[:n])
				t.FailNow()
			}
		}
		if got != all[want] {
			g := -1
			for i := range all {
				if all[i] == got {
					g = i
				}
			}
			fmt.Printf("GVC-FAIL LeastConnection with counts %v picked loop %d, want %d\n", counts[:n], g, want)
			t.FailNow()
		}
	}
	for n := 1; n <= N; n++ {
		check(n)
		loops := append([]*eventloop.EventLoop{}, all[:n]...)
		f := RoundRobin()
		g := RoundRobin()
		for k := 0; k < 5*n+3; k++ {
			if f(loops) != all[k%n] {
				fmt.Printf("GVC-FAIL RoundRobin call %d of %d loops is not loop %d\n", k, n, k%n)
				t.FailNow()
			}
			if k%3 == 0 && g(loops) != all[(k/3)%n] {
				fmt.Printf("GVC-FAIL a second RoundRobin is disturbed by the first (call %d of %d loops)\n", k/3, n)
				t.FailNow()
			}
			for i := range loops {
				if loops[i] != all[i] {
					fmt.Printf("GVC-FAIL RoundRobin changed the list of loops\n")
					t.FailNow()
				}
			}
		}
	}
	for step := 0; step < 600; step++ {
		i := rnd.Intn(N)
		if rnd.Intn(3) > 0 || len(fds[i]) == 0 {
			var p [2]int
			if err := syscall.Pipe(p[:]); err != nil {
				break
			}
			syscall.Close(p[1])
			if err := all[i].AddSocketAndEnableRead(p[0], gvcSock{}); err != nil {
				t.Fatal(err)
			}
			fds[i] = append(fds[i], p[0])
			counts[i]++
		} else {
			fd := fds[i][0]
			fds[i] = fds[i][1:]
			all[i].DeleteFdInLoop(fd)
			syscall.Close(fd)
			counts[i]--
		}
		for n := 1; n <= N; n++ {
			check(n)
		}
	}
}
