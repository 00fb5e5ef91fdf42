package ratus_test

// Concrete search: subscribers (C23). Pauses are checked against lower bounds,
// and against upper bounds only with a margin of many seconds.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
)

const (
	subTask = iota
	subNothing
	subFailure
	subConflict
	subGarbage
	subBroken
)

type subEvent struct {
	what string
	id   string
	at   time.Time // when the server saw a request, or the handler was called
	end  time.Time // when the server answered
}

type subServer struct {
	mu     sync.Mutex
	events []subEvent
	script []int // what the polls bring
	commit []int // what the commits bring
	polls  int
	issued int
	bad    string
	over   func()
	*httptest.Server
}

func (s *subServer) add(e subEvent) {
	s.mu.Lock()
	s.events = append(s.events, e)
	s.mu.Unlock()
}

func subAnswer(w http.ResponseWriter, outcome int, v any) {
	switch outcome {
	case subTask:
		b, _ := json.Marshal(v)
		w.Write(b)
	case subNothing, subFailure, subConflict:
		e := map[int]error{subNothing: ratus.ErrNotFound, subFailure: ratus.ErrInternalServerError, subConflict: ratus.ErrConflict}[outcome]
		r := ratus.NewError(e)
		b, _ := json.Marshal(r)
		w.WriteHeader(r.Error.Code)
		w.Write(b)
	case subGarbage:
		w.WriteHeader(500)
		w.Write([]byte("<html>"))
	case subBroken:
		if hj, ok := w.(http.Hijacker); ok {
			c, _, err := hj.Hijack()
			if err == nil {
				c.Close()
			}
		}
	}
}

func (s *subServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	at := time.Now()
	b, _ := io.ReadAll(r.Body)
	w.Header().Set("Content-Type", "application/json")
	if r.Method == "POST" {
		var p ratus.Promise
		json.Unmarshal(b, &p)
		s.mu.Lock()
		if r.RequestURI != "/v1/topics/jobs/promises" || p.Consumer != "worker" || p.Timeout != "7s" || p.ID != "" || p.Deadline != nil {
			s.bad = fmt.Sprintf("poll %s %s", r.RequestURI, b)
		}
		k := s.polls
		s.polls++
		o := subNothing
		if k < len(s.script) {
			o = s.script[k]
		}
		id := ""
		if o == subTask {
			s.issued++
			id = fmt.Sprintf("task-%d", s.issued)
		}
		if k == len(s.script) {
			s.over()
		}
		s.mu.Unlock()
		if o == subBroken {
			// the connection drops, which the client sees as a failure
			s.add(subEvent{fmt.Sprint("poll ", o), id, at, time.Now()})
			subAnswer(w, o, nil)
			return
		}
		s.add(subEvent{fmt.Sprint("poll ", o), id, at, time.Now()})
		now := time.Now()
		dl := now.Add(time.Hour)
		subAnswer(w, o, ratus.Task{ID: id, Topic: "jobs", State: ratus.TaskStateActive, Nonce: "n-" + id, Consumed: &now, Deadline: &dl})
		return
	}
	if r.Method == "PATCH" {
		var m ratus.Commit
		json.Unmarshal(b, &m)
		id := r.RequestURI[strings.LastIndex(r.RequestURI, "/")+1:]
		s.mu.Lock()
		if m.Nonce != "n-"+id || m.State == nil || *m.State != ratus.TaskStateCompleted {
			s.bad = fmt.Sprintf("commit %s %s", r.RequestURI, b)
		}
		o := subTask
		if len(s.commit) > 0 {
			o, s.commit = s.commit[0], s.commit[1:]
		}
		s.mu.Unlock()
		s.add(subEvent{fmt.Sprint("commit ", o), id, at, time.Now()})
		subAnswer(w, o, ratus.Task{ID: id})
		return
	}
	s.mu.Lock()
	s.bad = r.Method + " " + r.RequestURI
	s.mu.Unlock()
}

func newSubServer(script, commit []int, over func()) (*subServer, *ratus.Client) {
	s := &subServer{script: script, commit: commit, over: over}
	s.Server = httptest.NewServer(s)
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.URL})
	if err != nil {
		panic(err)
	}
	return s, c
}

func TestVerifSubscribe(t *testing.T) {
	h := newVerifH(t, "subscribers")
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < h.n(60) && h.ok(); i++ {
		i := i
		sem <- true
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			verifSubscribeScript(h, h.rand(i))
		}()
	}
	wg.Wait()
	for k := 0; k < 4; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			if k < 2 {
				verifSubscribeMany(h, k)
			} else {
				verifSubscribeDefaults(h, k-2)
			}
		}()
	}
	wg.Wait()
	h.done()
}

// One poller and a list of outcomes.
func verifSubscribeScript(h *verifH, r *rand.Rand) {
	// one kind of pause is long, and outcomes that lead to it are left out
	long := r.Intn(4)
	iv := []time.Duration{time.Duration(1+r.Intn(15)) * time.Millisecond, time.Duration(20+r.Intn(30)) * time.Millisecond, time.Duration(60+r.Intn(30)) * time.Millisecond}
	if r.Intn(3) == 0 {
		iv[0] = 0
	}
	if long < 3 {
		iv[long] = time.Hour
	}
	pick := func() int {
		for {
			o := []int{subTask, subTask, subTask, subNothing, subNothing, subFailure, subConflict, subGarbage}[r.Intn(8)]
			if long < 3 && subPause(o) == long {
				continue
			}
			return o
		}
	}
	n := 1 + r.Intn(6)
	var script, commits []int
	for k := 0; k < n; k++ {
		script = append(script, pick())
		if long == 0 {
			// no commit succeeds
			o := pick()
			commits = append(commits, o)
			continue
		}
		if r.Intn(2) == 0 {
			commits = append(commits, subTask)
		} else {
			commits = append(commits, pick())
		}
	}
	if long == 0 && r.Intn(2) == 0 {
		for k := range script {
			script[k] = []int{subNothing, subFailure, subTask}[r.Intn(3)]
		}
	}
	if long == 3 && r.Intn(4) == 0 {
		script[0] = subBroken
	}
	if long != 0 && r.Intn(3) == 0 {
		commits = nil // the handler commits, with success
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, c := newSubServer(script, append([]int{}, commits...), cancel)
	defer s.Close()
	explicit := len(commits) == 0
	var failures []error
	o := &ratus.SubscribeOptions{Promise: &ratus.Promise{ID: "ignored", Consumer: "worker", Timeout: "7s"}, Topic: "jobs", Concurrency: r.Intn(2), ConcurrencyDelay: time.Hour, PollInterval: iv[0], DrainInterval: iv[1], ErrorInterval: iv[2]}
	ret := make(chan error, 1)
	go func() {
		ret <- c.Subscribe(ctx, o, func(x *ratus.Context, err error) {
			if (x == nil) == (err == nil) {
				s.mu.Lock()
				s.bad = "handler called with both or neither of a task and an error"
				s.mu.Unlock()
				return
			}
			if err != nil {
				s.mu.Lock()
				failures = append(failures, err)
				s.mu.Unlock()
				s.add(subEvent{what: "failure", at: time.Now()})
				return
			}
			s.add(subEvent{what: "task", id: x.Task.ID, at: time.Now()})
			if explicit {
				x.Commit()
			}
		})
	}()
	var err error
	stuck := false
	select {
	case err = <-ret:
	case <-time.After(30 * time.Second):
		stuck = true
	}
	cancel()
	s.mu.Lock()
	defer s.mu.Unlock()
	log := func() string {
		m := fmt.Sprintf("one subscriber, pauses %v, outcomes of polls %v, of commits %v (0 success, 1 not found, 2 failure, 3 conflict, 4 garbage, 5 broken), explicit commits %v, returned %v, stuck %v, %s; history:", iv, script, commits, explicit, err, stuck, s.bad)
		for _, e := range s.events {
			m += fmt.Sprintf(" %s %s %s;", e.at.Format("05.000"), e.what, e.id)
		}
		return m
	}
	defer h.caseDone(log)
	if !h.check(s.bad == "", "C23", log) || !h.check(!stuck, "C23", log) || !h.check(err != nil && errors.Is(err, context.Canceled), "C23", log) {
		return
	}
	// the history as the contract of Subscribe has it
	k, ci, nf := 0, 0, 0
	next := func(what string) *subEvent {
		if k < len(s.events) && (s.events[k].what == what || strings.HasPrefix(s.events[k].what, what+" ")) {
			k++
			return &s.events[k-1]
		}
		return nil
	}
	var last time.Time
	pause := time.Duration(0)
	for p := 0; p < len(script); p++ {
		e := next("poll")
		if !h.check(e != nil, "C23", log) {
			return
		}
		if !h.check(p == 0 || e.at.Sub(last) >= pause-2*time.Millisecond, "C23", log) {
			return
		}
		out := script[p]
		last = e.end
		if out == subTask {
			a := next("task")
			if !h.check(a != nil && a.id == e.id, "C23", log) {
				return
			}
			b := next("commit")
			if !h.check(b != nil && b.id == e.id, "C23", log) {
				return
			}
			last = b.end
			if ci < len(commits) {
				out = commits[ci]
				ci++
			}
		}
		if out >= subFailure {
			a := next("failure")
			if !h.check(a != nil, "C23", log) {
				return
			}
			last = a.at
			want := map[int]error{subFailure: ratus.ErrInternalServerError, subConflict: ratus.ErrConflict}[out]
			if want != nil && !h.check(nf < len(failures) && errors.Is(failures[nf], want), "C23", log) {
				return
			}
			nf++
		}
		pause = iv[subPause(out)]
	}
	// the last poll, which ended the context, at most
	if e := next("poll"); e != nil {
		h.check(e.at.Sub(last) >= pause-2*time.Millisecond, "C23", log)
	}
	h.check(k == len(s.events), "C23", log)
}

func subPause(o int) int {
	switch o {
	case subTask:
		return 0
	case subNothing:
		return 1
	}
	return 2
}

// Several pollers: started one after the other, never more than asked for, and
// Subscribe returns only when every handler has.
func verifSubscribeMany(h *verifH, v int) {
	n := 2 + v*2
	delay := 120 * time.Millisecond
	var mu sync.Mutex
	var starts []time.Time
	open, most := 0, 0
	release := make(chan bool)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == "PATCH" {
			subAnswer(w, subTask, ratus.Task{ID: "x"})
			return
		}
		mu.Lock()
		starts = append(starts, time.Now())
		open++
		if open > most {
			most = open
		}
		k := len(starts)
		mu.Unlock()
		subAnswer(w, subTask, ratus.Task{ID: fmt.Sprint("t", k), Topic: "jobs"})
	}))
	defer srv.Close()
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: srv.URL})
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	o := &ratus.SubscribeOptions{Promise: &ratus.Promise{}, Topic: "jobs", Concurrency: n, ConcurrencyDelay: delay, PollInterval: time.Millisecond, DrainInterval: time.Millisecond, ErrorInterval: time.Millisecond}
	handled := 0
	t0 := time.Now()
	ret := make(chan error, 1)
	go func() {
		ret <- c.Subscribe(ctx, o, func(x *ratus.Context, err error) {
			if err != nil {
				return
			}
			<-release
			mu.Lock()
			handled++
			open--
			mu.Unlock()
		})
	}()
	count := func() int { mu.Lock(); defer mu.Unlock(); return len(starts) }
	for k := 0; k < 2000 && count() < n; k++ {
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(400 * time.Millisecond)
	got := count()
	cancel()
	early := false
	var err2 error
	select {
	case err2 = <-ret:
		early = true
	case <-time.After(300 * time.Millisecond):
	}
	close(release)
	stuck := false
	if !early {
		select {
		case err2 = <-ret:
		case <-time.After(30 * time.Second):
			stuck = true
		}
	}
	mu.Lock()
	defer mu.Unlock()
	log := func() string {
		m := fmt.Sprintf("%d subscribers with a delay of %v: %d polled at once, %d in all, %d handled, returned %v before the handlers: %v, stuck: %v; first polls after", n, delay, most, got, handled, err2, early, stuck)
		for _, s := range starts {
			m += fmt.Sprintf(" %v", s.Sub(t0).Round(time.Millisecond))
		}
		return m
	}
	defer h.caseDone(log)
	h.check(got == n && most == n, "C23", log)
	h.check(!early, "C23", log)
	h.check(!stuck && errors.Is(err2, context.Canceled), "C23", log)
	for k, s := range starts {
		h.check(k >= n || s.Sub(t0) >= time.Duration(k)*delay-2*time.Millisecond, "C23", log)
	}
}

// Options left at zero stand for the documented pauses.
func verifSubscribeDefaults(h *verifH, v int) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, c := newSubServer([]int{[]int{subNothing, subFailure}[v], subNothing, subNothing}, nil, func() {})
	defer s.Close()
	o := &ratus.SubscribeOptions{Promise: &ratus.Promise{Consumer: "worker", Timeout: "7s"}, Topic: "jobs", Concurrency: -v}
	if v == 0 {
		o.DrainInterval, o.Concurrency = -1, 2
	}
	go c.Subscribe(ctx, o, func(x *ratus.Context, err error) {})
	t0 := time.Now()
	time.Sleep(1500 * time.Millisecond)
	cancel()
	s.mu.Lock()
	defer s.mu.Unlock()
	if time.Since(t0) > 4*time.Second {
		return // too slow to tell
	}
	log := func() string {
		m := fmt.Sprintf("subscriber with default pauses, options %+v, polls after", *o)
		for _, e := range s.events {
			m += fmt.Sprintf(" %v", e.at.Sub(t0).Round(time.Millisecond))
		}
		return m
	}
	defer h.caseDone(log)
	for k, e := range s.events {
		if k == 1 && v == 0 {
			// the second poller, after a second
			h.check(e.at.Sub(t0) >= 990*time.Millisecond, "C23", log)
		} else {
			h.check(k == 0, "C23", log)
		}
	}
}
