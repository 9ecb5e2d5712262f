package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// Replay drivers run against a copy of golang.org/x/sys whose system calls can be intercepted, so that a driver can inject
// short writes, errors and readiness records. The code of the repository itself is not changed.
var hooked = map[string][2]string{ // name -> parameters and results, arguments
	"Read":        {"(fd int, p []byte) (n int, err error)", "(fd, p)"},
	"Write":       {"(fd int, p []byte) (n int, err error)", "(fd, p)"},
	"Close":       {"(fd int) (err error)", "(fd)"},
	"EpollCtl":    {"(epfd int, op int, fd int, event *EpollEvent) (err error)", "(epfd, op, fd, event)"},
	"EpollWait":   {"(epfd int, events []EpollEvent, msec int) (n int, err error)", "(epfd, events, msec)"},
	"Accept":      {"(fd int) (nfd int, sa Sockaddr, err error)", "(fd)"},
	"SetNonblock": {"(fd int, nonblocking bool) (err error)", "(fd, nonblocking)"},
	"Shutdown":    {"(fd int, how int) (err error)", "(fd, how)"},
}

// hookedModule writes the module file and the copy into dir and returns the build flags.
func hookedModule(repo, dir string) ([]string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/sys")
	cmd.Dir = repo
	o, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	src := strings.TrimSpace(string(o))
	dst := filepath.Join(dir, "sys")
	os.RemoveAll(dst)
	os.MkdirAll(filepath.Join(dst, "unix"), 0755)
	os.MkdirAll(filepath.Join(dst, "internal", "unsafeheader"), 0755)
	decl := regexp.MustCompile(`(?m)^func (\w+)\(`)
	done := map[string]bool{}
	for _, d := range []string{".", "unix", "internal/unsafeheader"} {
		es, _ := os.ReadDir(filepath.Join(src, d))
		for _, e := range es {
			n := e.Name()
			if e.IsDir() || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s") || n == "go.mod") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, d, n))
			if err != nil {
				return nil, err
			}
			if d == "unix" && strings.HasSuffix(n, ".go") && unixFile(n) {
				b = decl.ReplaceAllFunc(b, func(m []byte) []byte {
					f := string(decl.FindSubmatch(m)[1])
					if _, ok := hooked[f]; ok {
						done[f] = true
						return []byte("func gvc" + f + "(")
					}
					return m
				})
			}
			if err := os.WriteFile(filepath.Join(dst, d, n), b, 0644); err != nil {
				return nil, err
			}
		}
	}
	var s strings.Builder
	s.WriteString("// +build linux\n\npackage unix\n")
	for f, h := range hooked {
		if !done[f] {
			return nil, fmt.Errorf("unix.%s not found", f)
		}
		fmt.Fprintf(&s, "\nvar GVC%s func%s\n\nfunc %s%s {\n\tif h := GVC%s; h != nil {\n\t\treturn h%s\n\t}\n\treturn gvc%s%s\n}\n\n// GVCReal%s is the system call.\nfunc GVCReal%s%s { return gvc%s%s }\n", f, h[0], f, h[0], f, h[1], f, h[1], f, f, h[0], f, h[1])
	}
	if err := os.WriteFile(filepath.Join(dst, "unix", "zgvc.go"), []byte(s.String()), 0644); err != nil {
		return nil, err
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(dir, "gvc.mod"), append(gm, []byte("\nreplace golang.org/x/sys => "+dst+"\n")...), 0644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "gvc.sum"), gs, 0644); err != nil {
		return nil, err
	}
	return []string{"-mod=mod", "-modfile=" + filepath.Join(dir, "gvc.mod")}, nil
}

// unixFile: files built on linux/amd64, by name
func unixFile(n string) bool {
	for _, o := range []string{"_aix", "_darwin", "_bsd", "_freebsd", "_netbsd", "_openbsd", "_dragonfly", "_solaris", "_zos", "_illumos"} {
		if strings.Contains(n, o) {
			return false
		}
	}
	return true
}
