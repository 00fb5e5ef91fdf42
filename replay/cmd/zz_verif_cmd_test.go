package main

// Concrete search: background jobs, the server and the life cycle of the
// process (C31, C32). Times are only ever checked from below, or against a
// limit far above what a loaded machine needs.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/metrics"
)

const verifPatience = 20 * time.Second

// verifLog collects what is logged.
type verifLog struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *verifLog) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *verifLog) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func verifQuiet() *verifLog {
	l := &verifLog{}
	log.SetOutput(l)
	gin.SetMode(gin.ReleaseMode)
	// signals sent by this search never end the process
	signal.Notify(make(chan os.Signal, 100), os.Interrupt, syscall.SIGTERM)
	return l
}

type verifJobs struct {
	engine.Engine
	mu   sync.Mutex
	runs []time.Time
	err  func(n int) error
	take time.Duration
}

func (f *verifJobs) Chore(ctx context.Context) error {
	f.mu.Lock()
	f.runs = append(f.runs, time.Now())
	n := len(f.runs)
	f.mu.Unlock()
	time.Sleep(f.take)
	if f.err != nil {
		return f.err(n)
	}
	return nil
}

func (f *verifJobs) seen() []time.Time {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]time.Time{}, f.runs...)
}

func verifSamples() uint64 {
	m := &dto.Metric{}
	if h, ok := metrics.ChoreHistogram.(prometheus.Metric); ok && h.Write(m) == nil {
		return m.GetHistogram().GetSampleCount()
	}
	return 0
}

func verifWait(f func() bool) bool {
	for t := time.Now(); time.Since(t) < verifPatience; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

func verifEnds(d chan error) (error, bool) {
	select {
	case err := <-d:
		return err, true
	case <-time.After(verifPatience):
		return nil, false
	}
}

func TestVerifJobs(t *testing.T) {
	h := newVerifH(t, "background jobs")
	defer h.done()
	l := verifQuiet()
	for i := 0; i < h.n(12) && h.ok(); i++ {
		r := h.rand(i)
		c := &config.ChoreConfig{}
		f := &verifJobs{}
		what := ""
		if i%6 != 0 {
			c.Interval = time.Duration(10+r.Intn(30)) * time.Millisecond
		}
		if i%6 == 1 {
			c.Interval = time.Hour
		}
		if i%2 == 0 {
			c.InitialDelay = time.Duration(r.Intn(60)) * time.Millisecond
		}
		if i%6 == 5 {
			c.InitialRandom = true
		}
		if i%3 == 2 {
			f.take = time.Duration(r.Intn(20)) * time.Millisecond
		}
		if i%4 == 3 {
			f.err = func(n int) error { return fmt.Errorf("failure-%d-of-case-%d", n, i) }
		}
		end := []string{"cancel", "interrupt", "terminate"}[r.Intn(3)]
		what = fmt.Sprintf("chore with interval %v, initial delay %v (random %v), failing runs %v, ended by %s", c.Interval, c.InitialDelay, c.InitialRandom, f.err != nil, end)
		h.caseDone(func() string { return what })
		ctx, cancel := context.WithCancel(context.Background())
		before := verifSamples()
		d := make(chan error, 1)
		start := time.Now()
		go func() { d <- chore(ctx, f, c) }()
		if c.Interval == 0 {
			err, ok := verifEnds(d)
			h.check(ok && err == nil && len(f.seen()) == 0, "C31", func() string { return what + ": does not end at once without running anything" })
			cancel()
			continue
		}
		want := 1
		if c.Interval < time.Hour {
			want = 4
		}
		some := verifWait(func() bool { return len(f.seen()) >= want })
		h.check(some, "C31", func() string { return fmt.Sprintf("%s: only %d runs within %v", what, len(f.seen()), verifPatience) })
		time.Sleep(15 * time.Millisecond)
		for k, at := range f.seen() {
			min := time.Duration(k) * c.Interval
			if !c.InitialRandom {
				min += c.InitialDelay
			}
			k, at := k, at
			h.check(at.Sub(start) >= min, "C31", func() string {
				return fmt.Sprintf("%s: run number %d began after %v, before its time %v", what, k+1, at.Sub(start), min)
			})
		}
		switch end {
		case "cancel":
			cancel()
		case "interrupt":
			syscall.Kill(os.Getpid(), syscall.SIGINT)
		case "terminate":
			syscall.Kill(os.Getpid(), syscall.SIGTERM)
		}
		err, ok := verifEnds(d)
		h.check(ok, "C31", func() string { return what + ": does not end" })
		if !ok {
			cancel()
			return
		}
		h.check((err == nil) == (end != "cancel"), "C31", func() string { return fmt.Sprintf("%s: returns %v", what, err) })
		n := len(f.seen())
		h.check(verifSamples()-before == uint64(n), "C31", func() string {
			return fmt.Sprintf("%s: %d runs, but %d in the metrics", what, n, verifSamples()-before)
		})
		if f.err != nil {
			for k := 1; k <= n; k++ {
				k := k
				h.check(strings.Contains(l.String(), f.err(k).Error()), "C31", func() string { return fmt.Sprintf("%s: failure of run %d is not logged", what, k) })
			}
		}
		time.Sleep(5 * time.Millisecond)
		h.check(len(f.seen()) == n, "C31", func() string { return what + ": runs after its end" })
		cancel()
	}
}

func verifPort() uint {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0
	}
	defer l.Close()
	return uint(l.Addr().(*net.TCPAddr).Port)
}

func verifConnects(port uint) bool {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err == nil {
		c.Close()
	}
	return err == nil
}

func TestVerifServe(t *testing.T) {
	h := newVerifH(t, "server")
	defer h.done()
	verifQuiet()
	for i := 0; i < h.n(10) && h.ok(); i++ {
		r := h.rand(i)
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[i%2]
		take := time.Duration(30+r.Intn(150)) * time.Millisecond
		n := 1 + r.Intn(3)
		if i == 2 {
			// a request that outlasts the deadlines a shutdown could plausibly be given
			take = 11 * time.Second
		}
		what := fmt.Sprintf("%d requests that take %v, %v after they began", n, take, sig)
		h.caseDone(func() string { return what })
		port := verifPort()
		var mu sync.Mutex
		begun, ended := 0, 0
		hd := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			mu.Lock()
			begun++
			mu.Unlock()
			time.Sleep(take)
			mu.Lock()
			ended++
			mu.Unlock()
			w.Write([]byte("complete"))
		})
		ctx, cancel := context.WithCancel(context.Background())
		d := make(chan error, 1)
		go func() { d <- serve(ctx, hd, &config.ServerConfig{Port: port, Bind: "127.0.0.1"}) }()
		if !verifWait(func() bool { return verifConnects(port) }) {
			cancel()
			continue
		}
		res := make(chan string, n)
		for k := 0; k < n; k++ {
			go func() {
				p, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/", port))
				if err != nil {
					res <- err.Error()
					return
				}
				defer p.Body.Close()
				b, err := io.ReadAll(p.Body)
				res <- fmt.Sprintf("%s%v", b, err)
			}()
		}
		all := verifWait(func() bool { mu.Lock(); defer mu.Unlock(); return begun == n })
		syscall.Kill(os.Getpid(), sig)
		err, ok := verifEnds(d)
		mu.Lock()
		left := begun - ended
		mu.Unlock()
		h.check(ok, "C32", func() string { return what + ": the server does not end" })
		if !ok || !all {
			cancel()
			return
		}
		h.check(err == nil, "C32", func() string { return fmt.Sprintf("%s: the server returns %v", what, err) })
		h.check(left == 0, "C32", func() string {
			return fmt.Sprintf("%s: the server returned with %d requests in flight", what, left)
		})
		for k := 0; k < n; k++ {
			s := <-res
			h.check(s == "complete<nil>", "C32", func() string { return what + ": a request in flight got " + s })
		}
		h.check(!verifConnects(port), "C32", func() string { return what + ": connections are still accepted" })
		cancel()
	}
	// no server, and a port that is taken
	if err := serve(context.Background(), http.NotFoundHandler(), &config.ServerConfig{}); err != nil {
		h.check(false, "C32", func() string { return "serve without a port returns " + err.Error() })
	}
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		ctx, cancel := context.WithCancel(context.Background())
		d := make(chan error, 1)
		go func() {
			d <- serve(ctx, http.NotFoundHandler(), &config.ServerConfig{Bind: "127.0.0.1", Port: uint(l.Addr().(*net.TCPAddr).Port)})
		}()
		err, ok := verifEnds(d)
		h.check(ok && err != nil, "C32", func() string { return fmt.Sprintf("serve on a port that is taken: ended %v, returns %v", ok, err) })
		cancel()
		l.Close()
	}
}

func TestVerifLifecycle(t *testing.T) {
	h := newVerifH(t, "life cycle")
	defer h.done()
	verifQuiet()
	oldArgs := os.Args
	defer func() { os.Args = oldArgs }()
	start := func(a ...string) chan error {
		os.Args = append([]string{"ratus", "--bind", "127.0.0.1", "--chore-interval", "1h"}, a...)
		d := make(chan error, 1)
		go func() { d <- run() }()
		return d
	}
	for i := 0; i < h.n(6) && h.ok(); i++ {
		r := h.rand(i)
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[i%2]
		dir := t.TempDir()
		path := filepath.Join(dir, "snapshot.db")
		port := verifPort()
		wait := time.Duration(20+r.Intn(200)) * time.Millisecond
		what := fmt.Sprintf("an insert whose body is completed %v after %v", wait, sig)
		h.caseDone(func() string { return what })
		d := start("--port", fmt.Sprint(port), "--memdb-snapshot-path", path)
		if !verifWait(func() bool { return verifConnects(port) }) {
			select {
			case err := <-d:
				h.check(false, "C32", func() string { return fmt.Sprintf("%s: the process ended with %v", what, err) })
			default:
			}
			return
		}
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			continue
		}
		body := `{"payload": "` + strings.Repeat("x", 100) + `"}`
		fmt.Fprintf(c, "POST /v1/topics/topic/tasks/late HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(body), body[:10])
		time.Sleep(50 * time.Millisecond) // the handler waits for the body
		syscall.Kill(os.Getpid(), sig)
		time.Sleep(wait)
		fmt.Fprint(c, body[10:])
		c.SetReadDeadline(time.Now().Add(verifPatience))
		b, _ := io.ReadAll(c)
		c.Close()
		err, ok := verifEnds(d)
		h.check(ok, "C32", func() string { return what + ": the process does not end" })
		if !ok {
			return
		}
		h.check(err == nil, "C32", func() string { return fmt.Sprintf("%s: the process ends with %v", what, err) })
		if !strings.HasPrefix(string(b), "HTTP/1.1 2") {
			// The request may not have been read before the signal on a busy machine.
			h.check(len(b) == 0 || !strings.HasPrefix(string(b), "HTTP/1.1 5"), "C32", func() string { return what + ": answered with " + string(b) })
			continue
		}
		g, err := memdb.New(&memdb.Config{SnapshotPath: path})
		if err == nil {
			err = g.Open(context.Background())
		}
		if err == nil {
			_, err = g.GetTask(context.Background(), "late")
		}
		h.check(err == nil, "C32", func() string { return fmt.Sprintf("%s: acknowledged, but not in the final snapshot: %v", what, err) })
	}
	// failures
	dir := t.TempDir()
	for _, c := range []struct {
		what string
		args []string
		sig  bool
	}{
		{"an unknown engine", []string{"--port", "0", "--engine", "none"}, false},
		{"a snapshot that cannot be read", []string{"--port", "0", "--memdb-snapshot-path", dir}, false},
		{"a final snapshot that cannot be written", []string{"--port", "0", "--memdb-snapshot-path", filepath.Join(dir, "no", "such", "dir", "f")}, true},
	} {
		if !h.ok() {
			break
		}
		h.caseDone(func() string { return c.what })
		d := start(c.args...)
		if c.sig {
			time.Sleep(100 * time.Millisecond)
			var err error
			ended := verifWait(func() bool {
				syscall.Kill(os.Getpid(), syscall.SIGTERM)
				select {
				case err = <-d:
					return true
				case <-time.After(50 * time.Millisecond):
					return false
				}
			})
			h.check(ended && err != nil, "C32", func() string { return fmt.Sprintf("%s: ended %v, reported as %v", c.what, ended, err) })
			continue
		}
		err, ok := verifEnds(d)
		h.check(ok && err != nil, "C32", func() string { return fmt.Sprintf("%s: ended %v, reported as %v", c.what, ok, err) })
	}
}
