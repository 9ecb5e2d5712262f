//gvc:pkg .
package gev

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"testing"
	"time"

	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"
)

type gvcProto struct{ id int }

func (*gvcProto) UnPacket(c *Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	return nil, nil
}
func (*gvcProto) Packet(c *Connection, d interface{}) []byte { return nil }

type gvcHandler struct{}

func (gvcHandler) OnConnect(c *Connection)                                             {}
func (gvcHandler) OnClose(c *Connection)                                               {}
func (gvcHandler) OnMessage(c *Connection, ctx interface{}, data []byte) (r interface{}) { return nil }

func TestGVCC21(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL "+f+"\n", a...)
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fmt.Printf("GVC-FAIL panic: %v\n", e)
			t.FailNow()
		}
	}()
	strs := []string{"", "tcp", "tcp4", "tcp6", "x", ":0", "127.0.0.1:0"}
	ints := []int{0, 1, 2, 7, -1}
	durs := []time.Duration{0, 1, time.Millisecond, time.Second, -1}
	strat := func(n int) LoadBalanceStrategy {
		return func(l []*eventloop.EventLoop) *eventloop.EventLoop { return l[n%len(l)] }
	}
	ptr := func(f LoadBalanceStrategy) uintptr { return reflect.ValueOf(f).Pointer() }
	strats := []LoadBalanceStrategy{nil, strat(0), LeastConnection()}
	for it := 0; it < 4000; it++ {
		var want Options
		var list []Option
		hist := ""
		for n := rnd.Intn(8); n > 0; n-- {
			switch rnd.Intn(8) {
			case 0:
				v := rnd.Intn(2) == 0
				list, want.ReusePort = append(list, ReusePort(v)), v
				hist += fmt.Sprintf("ReusePort(%v) ", v)
			case 1:
				v := strs[rnd.Intn(len(strs))]
				list, want.Network = append(list, Network(v)), v
				hist += fmt.Sprintf("Network(%q) ", v)
			case 2:
				v := strs[rnd.Intn(len(strs))]
				list, want.Address = append(list, Address(v)), v
				hist += fmt.Sprintf("Address(%q) ", v)
			case 3:
				v := ints[rnd.Intn(len(ints))]
				list, want.NumLoops = append(list, NumLoops(v)), v
				hist += fmt.Sprintf("NumLoops(%d) ", v)
			case 4:
				var v Protocol
				if k := rnd.Intn(3); k > 0 {
					v = &gvcProto{k}
				}
				list, want.Protocol = append(list, CustomProtocol(v)), v
				hist += fmt.Sprintf("CustomProtocol(%v) ", v)
			case 5:
				v := durs[rnd.Intn(len(durs))]
				list, want.IdleTime = append(list, IdleTime(v)), v
				hist += fmt.Sprintf("IdleTime(%v) ", v)
			case 6:
				v := strats[rnd.Intn(len(strats))]
				list, want.Strategy = append(list, LoadBalance(v)), v
				hist += fmt.Sprintf("LoadBalance(%x) ", ptr(v))
			case 7:
				v, w := strs[rnd.Intn(len(strs))], strs[rnd.Intn(len(strs))]
				list = append(list, MetricsServer(v, w))
				want.metricsPath, want.metricsAddress = v, w
				hist += fmt.Sprintf("MetricsServer(%q,%q) ", v, w)
			}
		}
		got := newOptions(list...)
		if want.Network == "" {
			want.Network = "tcp"
		}
		if want.Address == "" {
			want.Address = ":1388"
		}
		if got.ReusePort != want.ReusePort || got.Network != want.Network || got.Address != want.Address || got.NumLoops != want.NumLoops || got.IdleTime != want.IdleTime ||
			got.metricsPath != want.metricsPath || got.metricsAddress != want.metricsAddress || got.tick != time.Millisecond || got.wheelSize != 1000 {
			fail("options %s: settings %+v, want %+v", hist, *got, want)
		}
		if want.Protocol != nil && got.Protocol != want.Protocol {
			fail("options %s: protocol is %v", hist, got.Protocol)
		}
		if _, ok := got.Protocol.(*DefaultProtocol); want.Protocol == nil && !ok {
			fail("options %s: the default protocol is %T", hist, got.Protocol)
		}
		if want.Strategy != nil && ptr(got.Strategy) != ptr(want.Strategy) {
			fail("options %s: the given strategy is not used", hist)
		}
		if want.Strategy == nil {
			ls := []*eventloop.EventLoop{new(eventloop.EventLoop), new(eventloop.EventLoop), new(eventloop.EventLoop)}
			for k := 0; k < 7; k++ {
				if got.Strategy(ls) != ls[k%3] {
					fail("options %s: the default strategy is not round robin (call %d)", hist, k)
				}
			}
		}
	}
	if s, err := NewServer(nil, Address("127.0.0.1:0")); err == nil || s != nil {
		fail("a nil handler is accepted")
	}
	for _, n := range []int{-1, 0, 1, 3} {
		s, err := NewServer(gvcHandler{}, Address("127.0.0.1:0"), NumLoops(n), IdleTime(3*time.Second))
		if err != nil {
			fail("NewServer: %v", err)
		}
		want := n
		if n <= 0 {
			want = runtime.NumCPU()
		}
		o := s.Options()
		if o.NumLoops != want || len(s.workLoops) != want || o.IdleTime != 3*time.Second || o.Address != "127.0.0.1:0" || o.Network != "tcp" {
			fail("NewServer(NumLoops(%d)): options %+v with %d loops", n, o, len(s.workLoops))
		}
		seen := map[*eventloop.EventLoop]bool{}
		for i, l := range s.workLoops {
			if l == nil || seen[l] {
				fail("NewServer(NumLoops(%d)): loop %d is nil or shared", n, i)
			}
			seen[l] = true
		}
	}
}
