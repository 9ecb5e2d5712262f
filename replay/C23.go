//gvc:pkg log
package log

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"testing"
)

type gvcRec struct{ calls []string }

func (r *gvcRec) Log(v ...interface{}) { r.calls = append(r.calls, "Log"+fmt.Sprintf("%q", v)) }
func (r *gvcRec) Logf(f string, v ...interface{}) {
	r.calls = append(r.calls, "Logf"+fmt.Sprintf("%q %q", f, v))
}

type gvcOut struct{}

func (gvcOut) Log(v ...interface{})            { fmt.Printf("OUT Log%q\n", v) }
func (gvcOut) Logf(f string, v ...interface{}) { fmt.Printf("OUT Logf%q %q\n", f, v) }

func gvcWant(f bool, pre, format string, v []interface{}) string {
	if f {
		if len(pre) > 0 {
			format = pre + " " + format
		}
		return "Logf" + fmt.Sprintf("%q %q", format, v)
	}
	if len(pre) > 0 {
		v = append([]interface{}{pre, " "}, v...)
	}
	return "Log" + fmt.Sprintf("%q", v)
}

func TestGVCC23(t *testing.T) {
	pres := []string{"", "[p]", " ", "%d"}
	if s := os.Getenv("GVC_C23_FATAL"); s != "" {
		var lv, pi, ff int
		fmt.Sscanf(s, "%d,%d,%d", &lv, &pi, &ff)
		SetLogger(gvcOut{})
		SetLevel(Level(lv))
		SetPrefix(pres[pi])
		if ff == 1 {
			Fatalf("f%d", 1, "b")
		} else {
			Fatal(1, "b")
		}
		fmt.Println("RETURNED")
		os.Exit(0)
	}
	fail := func(f string, a ...interface{}) {
		fmt.Printf("GVC-FAIL "+f+"\n", a...)
		t.FailNow()
	}
	defer func() {
		if e := recover(); e != nil {
			fmt.Printf("GVC-FAIL panic: %v\n", e)
			t.FailNow()
		}
	}()
	args := [][]interface{}{nil, {1}, {"a", 2, nil}, {"", "x", 3.5, true}, {"[p]", " ", "[p] y"}}
	type fn struct {
		name string
		lv   Level
		log  func(...interface{})
		logf func(string, ...interface{})
	}
	fns := []fn{{"Debug", LevelDebug, Debug, Debugf}, {"Info", LevelInfo, Info, Infof}, {"Error", LevelError, Error, Errorf}, {"Log", -1 << 30, Log, Logf}}
	for l := Level(-2); l < 8; l++ {
		l := l
		fns = append(fns, fn{fmt.Sprintf("WithLevel(%d)", l), l, func(v ...interface{}) { WithLevel(l, v...) }, func(f string, v ...interface{}) { WithLevelf(l, f, v...) }})
	}
	for lv := Level(-3); lv < 9; lv++ {
		for _, pre := range pres {
			for _, f := range fns {
				for _, a := range args {
					for _, format := range []string{"", "x%d", "%s %v", "[p] x", "[p]"} {
						for ff := 0; ff < 2; ff++ {
							r := &gvcRec{}
							SetLogger(r)
							SetLevel(lv)
							SetPrefix(pre)
							backing := make([]interface{}, len(a), len(a)+4)
							copy(backing, a)
							if ff == 1 {
								f.logf(format, backing...)
							} else {
								f.log(backing...)
							}
							var want []string
							if f.lv <= lv {
								want = []string{gvcWant(ff == 1, pre, format, a)}
							}
							if !reflect.DeepEqual(r.calls, want) {
								fail("level %d, prefix %q: %s%v format %q (f=%d) gave %v, want %v", lv, pre, f.name, a, format, ff, r.calls, want)
							}
							if GetLogger() != Logger(r) || GetLevel() != lv || prefix != pre {
								fail("logging changed a setting")
							}
							if len(a) > 0 && !reflect.DeepEqual(backing, a) {
								fail("%s changed the caller's arguments", f.name)
							}
						}
					}
				}
			}
		}
	}
	r := &gvcRec{}
	SetLogger(r)
	SetLevel(LevelError)
	Name("svc")
	if GetLevel() != LevelError || GetLogger() != Logger(r) {
		fail("Name changed another setting")
	}
	Log("m")
	if want := gvcWant(false, "[svc]", "", []interface{}{"m"}); len(r.calls) != 1 || r.calls[0] != want {
		fail("after Name(svc): %v, want %v", r.calls, want)
	}
	for lv := 0; lv < 5; lv++ {
		for pi := range pres {
			for ff := 0; ff < 2; ff++ {
				cmd := exec.Command(os.Args[0], "-test.run", "^TestGVCC23$")
				cmd.Env = append(os.Environ(), fmt.Sprintf("GVC_C23_FATAL=%d,%d,%d", lv, pi, ff))
				out, err := cmd.Output()
				want := ""
				if lv >= 1 {
					want = "OUT " + gvcWant(ff == 1, pres[pi], "f%d", []interface{}{1, "b"}) + "\n"
				}
				var got string
				for _, l := range strings.SplitAfter(string(out), "\n") {
					if strings.HasPrefix(l, "OUT ") || strings.HasPrefix(l, "RETURNED") {
						got += l
					}
				}
				ee, ok := err.(*exec.ExitError)
				if !ok || ee.ExitCode() != 1 || strings.Replace(got, "OUT Log", "OUT Log", 1) != want {
					fail("Fatal (f=%d) at level %d, prefix %q: output %q (want %q), %v", ff, lv, pres[pi], got, want, err)
				}
			}
		}
	}
}
