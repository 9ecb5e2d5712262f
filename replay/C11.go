//gvc:pkg .
//gvc:race
package gev

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"
)

// Random sequential histories against a plain map, then concurrent histories (under the race detector) checked
// per key, with a watchdog for locks that are never released.
func TestGVCC11(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panic: %v", e)
			}
		}()
		done <- gvcC11(seed)
	}()
	select {
	case m := <-done:
		if m != "" {
			fmt.Println("GVC-FAIL " + m)
			t.FailNow()
		}
	case <-time.After(90 * time.Second):
		fmt.Println("GVC-FAIL operations on the store block forever (a lock is not released)")
		t.FailNow()
	}
}

func gvcC11(seed int64) string {
	rnd := rand.New(rand.NewSource(seed))
	keys := []string{"", "a", "b", "ab", "key", "KEY", "a\x00b", "long-key-long-key-long-key"}
	vals := []interface{}{nil, 1, 2, "x", "", true, 3.5, []byte(nil)}
	for h := 0; h < 400; h++ {
		c := &KeyValueContext{}
		m := map[string]interface{}{}
		hist := ""
		for s := 0; s < 40; s++ {
			k := keys[rnd.Intn(len(keys))]
			switch rnd.Intn(4) {
			case 0, 1:
				v := vals[rnd.Intn(7)]
				hist += fmt.Sprintf("Set(%q,%v) ", k, v)
				c.Set(k, v)
				m[k] = v
			case 2:
				hist += fmt.Sprintf("Delete(%q) ", k)
				c.Delete(k)
				delete(m, k)
			}
			for _, j := range keys {
				v, ok := c.Get(j)
				wv, wok := m[j]
				if v != wv || ok != wok {
					return fmt.Sprintf("after %s: Get(%q) = %v, %v; want %v, %v", hist, j, v, ok, wv, wok)
				}
			}
		}
	}
	// concurrent: each goroutine owns one key, all share the store; readers look at all keys
	for h := 0; h < 20; h++ {
		c := &KeyValueContext{}
		var wg sync.WaitGroup
		errs := make(chan string, 16)
		for g := 0; g < 4; g++ {
			wg.Add(2)
			go func(g int) {
				defer wg.Done()
				k := fmt.Sprint("k", g)
				for i := 0; i < 300; i++ {
					c.Set(k, i)
					if v, ok := c.Get(k); !ok || v != i {
						errs <- fmt.Sprintf("concurrent: Get(%s) = %v, %v right after Set(%s, %d)", k, v, ok, k, i)
						return
					}
					if i%7 == 0 {
						c.Delete(k)
						if v, ok := c.Get(k); ok {
							errs <- fmt.Sprintf("concurrent: Get(%s) = %v right after Delete", k, v)
							return
						}
					}
				}
			}(g)
			go func(g int) {
				defer wg.Done()
				last := -1
				k := fmt.Sprint("k", g)
				for i := 0; i < 300; i++ {
					if v, ok := c.Get(k); ok {
						if v.(int) < last {
							errs <- fmt.Sprintf("concurrent: Get(%s) went back from %d to %v", k, last, v)
							return
						}
						last = v.(int)
					}
				}
			}(g)
		}
		wg.Wait()
		select {
		case e := <-errs:
			return e
		default:
		}
	}
	return ""
}
