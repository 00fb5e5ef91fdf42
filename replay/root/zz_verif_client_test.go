package ratus_test

// Concrete search: requests of the client, consumer contexts, the transport
// (C21, C22, C24).

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hyperonym/ratus"
)

type verifSeen struct {
	method, uri, host string
	header            http.Header
	body              []byte
}

type verifServer struct {
	mu     sync.Mutex
	seen   []verifSeen
	status int
	body   []byte
	moved  string
	*httptest.Server
}

func newVerifServer() *verifServer {
	s := &verifServer{}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		s.mu.Lock()
		defer s.mu.Unlock()
		s.seen = append(s.seen, verifSeen{r.Method, r.RequestURI, r.Host, r.Header.Clone(), b})
		if s.moved != "" {
			w.Header().Set("Location", s.moved)
			s.moved = ""
			w.WriteHeader(http.StatusTemporaryRedirect)
			return
		}
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(s.status)
		w.Write(s.body)
	}))
	return s
}

func (s *verifServer) redirect(u string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.moved = u
}

func (s *verifServer) answer(status int, v any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen, s.status, s.moved = nil, status, ""
	if b, ok := v.([]byte); ok {
		s.body = b
		return
	}
	s.body, _ = json.Marshal(v)
}

func (s *verifServer) take() []verifSeen {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.seen
	s.seen = nil
	return r
}

var verifNames = []string{"a", "topic", "x y", "a/b", "a+b", "a+b/c", "%2F", "100%", "a?b=c", "a#b", "é/ü", "..", ".", "a;b,c", ":id", "*", "\\", "a&b=c", "日本", "a//b", " ", "+", "\x7f", "a\nb", "~", "'\"<>", "{x}|^`", "@:", "a=b"}

func verifName(r *rand.Rand) string {
	s := verifNames[r.Intn(len(verifNames))]
	for r.Intn(3) == 0 {
		s += verifNames[r.Intn(len(verifNames))]
	}
	return s
}

func verifTimeP(r *rand.Rand) *time.Time {
	if r.Intn(3) == 0 {
		return nil
	}
	t := time.UnixMilli(r.Int63n(4e12) - 1e12).UTC()
	return &t
}

func verifTask(r *rand.Rand) *ratus.Task {
	return &ratus.Task{ID: verifName(r), Topic: verifName(r), State: ratus.TaskState(r.Intn(4)), Nonce: []string{"", "n1", "n2"}[r.Intn(3)],
		Producer: verifName(r), Consumer: verifName(r), Produced: verifTimeP(r), Scheduled: verifTimeP(r), Consumed: verifTimeP(r), Deadline: verifTimeP(r),
		Payload: []any{nil, "p", 1.5, true, map[string]any{"k": "v"}, []any{1.0, "x"}}[r.Intn(6)], Defer: []string{"", "5s"}[r.Intn(2)]}
}

func verifPromise(r *rand.Rand) *ratus.Promise {
	return &ratus.Promise{ID: verifName(r), Consumer: verifName(r), Timeout: []string{"", "5s"}[r.Intn(2)], Deadline: verifTimeP(r)}
}

func verifCommit(r *rand.Rand) *ratus.Commit {
	m := &ratus.Commit{Nonce: []string{"", "n"}[r.Intn(2)], Topic: []string{"", "t/2"}[r.Intn(2)], Scheduled: verifTimeP(r), Defer: []string{"", "1m"}[r.Intn(2)], Payload: []any{nil, "p", 2.5}[r.Intn(3)]}
	if r.Intn(2) == 0 {
		s := ratus.TaskState(r.Intn(4))
		m.State = &s
	}
	return m
}

// verifSegment: the only segment of the path after the prefix and before the
// suffix is the name.
func verifSegment(uri, prefix, suffix, name string) bool {
	if !strings.HasPrefix(uri, prefix) || !strings.HasSuffix(uri[len(prefix):], suffix) {
		return false
	}
	s := uri[len(prefix) : len(uri)-len(suffix)]
	if strings.ContainsAny(s, "/?#+") {
		return false
	}
	u, err := url.PathUnescape(s)
	return err == nil && u == name
}

func verifJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func verifSame(a, b any) bool { return verifJSON(a) == verifJSON(b) }

func TestVerifClient(t *testing.T) {
	h := newVerifH(t, "client")
	s := newVerifServer()
	defer s.Close()
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.URL})
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	for i := 0; i < h.n(6000) && h.ok(); i++ {
		r := h.rand(i)
		name, limit, offset := verifName(r), r.Intn(7)-2, r.Intn(50)-3
		tk, pr, cm := verifTask(r), verifPromise(r), verifCommit(r)
		ts := make([]*ratus.Task, r.Intn(4))
		for j := range ts {
			ts[j] = verifTask(r)
		}
		page := fmt.Sprintf("?limit=%d&offset=%d", limit, offset)
		type call struct {
			what, method, prefix, suffix, name string
			body                               any
			run                                func() (any, error)
			result                             any // nil: no result
		}
		up, del := &ratus.Updated{Created: int64(r.Intn(9)), Updated: int64(r.Intn(9))}, &ratus.Deleted{Deleted: int64(r.Intn(99))}
		rt, rtk, rp := &ratus.Topic{Name: verifName(r), Count: int64(r.Intn(5))}, verifTask(r), verifPromise(r)
		calls := []call{
			{"ListTopics", "GET", "/v1/topics" + page, "", "", nil, func() (any, error) { v, err := c.ListTopics(ctx, limit, offset); return v, err }, []*ratus.Topic{rt}},
			{"DeleteTopics", "DELETE", "/v1/topics", "", "", nil, func() (any, error) { v, err := c.DeleteTopics(ctx); return v, err }, del},
			{"GetTopic", "GET", "/v1/topics/", "", name, nil, func() (any, error) { v, err := c.GetTopic(ctx, name); return v, err }, rt},
			{"DeleteTopic", "DELETE", "/v1/topics/", "", name, nil, func() (any, error) { v, err := c.DeleteTopic(ctx, name); return v, err }, del},
			{"ListTasks", "GET", "/v1/topics/", "/tasks" + page, name, nil, func() (any, error) { v, err := c.ListTasks(ctx, name, limit, offset); return v, err }, []*ratus.Task{rtk, verifTask(r)}},
			{"InsertTasks", "POST", "/v1/topics//tasks", "", "", &ratus.Tasks{Data: ts}, func() (any, error) { v, err := c.InsertTasks(ctx, ts); return v, err }, up},
			{"UpsertTasks", "PUT", "/v1/topics//tasks", "", "", &ratus.Tasks{Data: ts}, func() (any, error) { v, err := c.UpsertTasks(ctx, ts); return v, err }, up},
			{"DeleteTasks", "DELETE", "/v1/topics/", "/tasks", name, nil, func() (any, error) { v, err := c.DeleteTasks(ctx, name); return v, err }, del},
			{"GetTask", "GET", "/v1/topics//tasks/", "", name, nil, func() (any, error) { v, err := c.GetTask(ctx, name); return v, err }, rtk},
			{"InsertTask", "POST", "/v1/topics//tasks/", "", tk.ID, tk, func() (any, error) { v, err := c.InsertTask(ctx, tk); return v, err }, up},
			{"UpsertTask", "PUT", "/v1/topics//tasks/", "", tk.ID, tk, func() (any, error) { v, err := c.UpsertTask(ctx, tk); return v, err }, up},
			{"DeleteTask", "DELETE", "/v1/topics//tasks/", "", name, nil, func() (any, error) { v, err := c.DeleteTask(ctx, name); return v, err }, del},
			{"PatchTask", "PATCH", "/v1/topics//tasks/", "", name, cm, func() (any, error) { v, err := c.PatchTask(ctx, name, cm); return v, err }, rtk},
			{"ListPromises", "GET", "/v1/topics/", "/promises" + page, name, nil, func() (any, error) { v, err := c.ListPromises(ctx, name, limit, offset); return v, err }, []*ratus.Promise{rp}},
			{"PostPromises", "POST", "/v1/topics/", "/promises", name, pr, func() (any, error) { v, err := c.PostPromises(ctx, name, pr); return v, err }, rtk},
			{"DeletePromises", "DELETE", "/v1/topics/", "/promises", name, nil, func() (any, error) { v, err := c.DeletePromises(ctx, name); return v, err }, del},
			{"GetPromise", "GET", "/v1/topics//promises/", "", name, nil, func() (any, error) { v, err := c.GetPromise(ctx, name); return v, err }, rp},
			{"InsertPromise", "POST", "/v1/topics//promises/", "", pr.ID, pr, func() (any, error) { v, err := c.InsertPromise(ctx, pr); return v, err }, rtk},
			{"UpsertPromise", "PUT", "/v1/topics//promises/", "", pr.ID, pr, func() (any, error) { v, err := c.UpsertPromise(ctx, pr); return v, err }, rtk},
			{"DeletePromise", "DELETE", "/v1/topics//promises/", "", name, nil, func() (any, error) { v, err := c.DeletePromise(ctx, name); return v, err }, del},
			{"GetLiveness", "GET", "/v1/livez", "", "", nil, func() (any, error) { return nil, c.GetLiveness(ctx) }, nil},
			{"GetReadiness", "GET", "/v1/readyz", "", "", nil, func() (any, error) { return nil, c.GetReadiness(ctx) }, nil},
		}
		k := calls[r.Intn(len(calls))]
		status, sent, ans := 200+r.Intn(2), "", any(nil)
		var kind error
		switch r.Intn(5) {
		case 0:
			// an error of the server
			v := verifSentinels[r.Intn(len(verifSentinels))]
			e := ratus.Error{}
			e.Error.Code, e.Error.Message = v.code, v.err.Error()+": x"
			status, kind, ans = v.code, v.err, e
		case 1:
			status, ans = []int{400, 404, 500, 502, 503}[r.Intn(5)], []byte([]string{"<html>no JSON</html>", "", "{", "null", "{}"}[r.Intn(5)])
		case 2:
			if k.result != nil {
				ans = []byte([]string{"{\"data\": [", "", " ", "{", "[]", "7", "\"x\"", "nul", "<html>", "{\"_id\":\"a\""}[r.Intn(10)])
				sent = "garbled"
				break
			}
			fallthrough
		default:
			ans, sent = k.result, "ok"
			if k.result != nil && reflect.TypeOf(k.result).Kind() == reflect.Slice {
				ans = map[string]any{"data": k.result}
			}
		}
		s.answer(status, ans)
		v, err := k.run()
		seen := s.take()
		desc := func() string {
			return fmt.Sprintf("%s name=%q page=%s task=%s promise=%s answer %d %s: requests %+v, result %s error %v", k.what, k.name, page, verifJSON(tk), verifJSON(pr), status, verifJSON(ans), seen, verifJSON(v), err)
		}
		nilRes := v == nil || reflect.ValueOf(v).IsNil()
		if h.check(len(seen) == 1, "C21", desc) {
			q := seen[0]
			h.check(q.method == k.method, "C21", desc)
			if k.name == "" {
				h.check(q.uri == k.prefix+k.suffix, "C21", desc)
			} else {
				h.check(verifSegment(q.uri, k.prefix, k.suffix, k.name), "C21", desc)
			}
			if k.body == nil {
				h.check(len(q.body) == 0, "C21", desc)
			} else {
				h.check(string(q.body) == verifJSON(k.body), "C21", desc)
			}
		}
		switch {
		case status >= 400:
			h.check(err != nil && nilRes, "C21", desc)
			h.check(kind == nil || errors.Is(err, kind), "C21", desc)
		case sent == "garbled":
			h.check(err != nil && nilRes, "C21", desc)
		default:
			h.check(err == nil && (k.result == nil || verifSame(v, k.result)), "C21", desc)
		}
		h.caseDone(desc)
	}
	// a server that is not there
	dead := newVerifServer()
	dead.Close()
	d, _ := ratus.NewClient(&ratus.ClientOptions{Origin: dead.URL})
	v, err := d.GetTask(ctx, "x")
	h.check(err != nil && v == nil, "C21", func() string { return fmt.Sprintf("GetTask without a server: %v, %v", v, err) })
	h.done()
}

func TestVerifContext(t *testing.T) {
	h := newVerifH(t, "contexts")
	s := newVerifServer()
	defer s.Close()
	c, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.URL})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < h.n(3000) && h.ok(); i++ {
		r := h.rand(i)
		tk := verifTask(r)
		if tk.Consumed != nil && tk.Deadline != nil {
			d := tk.Consumed.Add(time.Duration(1+r.Intn(100)) * time.Minute)
			tk.Deadline = &d
		}
		if r.Intn(4) == 0 {
			tk.Nonce = ""
		}
		topic, p := verifName(r), verifPromise(r)
		s.answer(200, tk)
		parent, cancel := context.WithCancel(context.Background())
		t0 := time.Now()
		x, err := c.Poll(parent, topic, p)
		t1 := time.Now()
		seen := s.take()
		log := fmt.Sprintf("poll %q %s -> %s, %v; requests %+v", topic, verifJSON(p), verifJSON(tk), err, seen)
		desc := func() string { return log }
		if !h.check(len(seen) == 1 && seen[0].method == "POST" && verifSegment(seen[0].uri, "/v1/topics/", "/promises", topic) && string(seen[0].body) == verifJSON(p), "C22", desc) ||
			!h.check(err == nil && x != nil && verifSame(x.Task, tk), "C22", desc) {
			cancel()
			break
		}
		dl, ok := x.Deadline()
		if tk.Consumed != nil && tk.Deadline != nil {
			n := tk.Deadline.Sub(*tk.Consumed)
			h.check(ok && !dl.Before(t0.Add(n)) && !dl.After(t1.Add(n)), "C22", desc)
		} else {
			h.check(!ok, "C22", desc)
		}
		h.check(x.Err() == nil, "C22", desc)
		// changes by the consumer
		completed := ratus.TaskStateCompleted
		want := ratus.Commit{Nonce: tk.Nonce, State: &completed}
		st := func(v ratus.TaskState) { want.State = &v }
		for r.Intn(3) != 0 {
			sch, dur, nm, sv := time.UnixMilli(r.Int63n(4e12)).UTC(), []string{"", "3s", "x"}[r.Intn(3)], verifName(r), ratus.TaskState(r.Intn(4))
			var y *ratus.Context
			k := r.Intn(11)
			switch k {
			case 0:
				y, want.Nonce = x.SetNonce(nm), nm
			case 1:
				y, want.Topic = x.SetTopic(nm), nm
			case 2:
				y = x.SetState(sv)
				st(sv)
			case 3:
				y, want.Scheduled = x.SetScheduled(sch), &sch
			case 4:
				y, want.Payload = x.SetPayload(nm), nm
			case 5:
				y, want.Defer = x.SetDefer(dur), dur
			case 6:
				y, want.Nonce = x.Force(), ""
			case 7:
				y = x.Abstain()
				st(ratus.TaskStatePending)
			case 8:
				y = x.Archive()
				st(ratus.TaskStateArchived)
			case 9:
				if r.Intn(2) == 0 {
					y, want.Scheduled = x.Reschedule(sch), &sch
				} else {
					y, want.Defer = x.Retry(dur), dur
				}
				st(ratus.TaskStatePending)
			case 10:
				y, want = x.Reset(), ratus.Commit{Nonce: tk.Nonce}
				st(ratus.TaskStateCompleted)
			}
			log += fmt.Sprintf("; change %d (%q, %v, %q, %v)", k, nm, sch, dur, sv)
			h.check(y == x, "C22", desc)
		}
		// failures leave the commit to be retried
		committed := false
		for n := 1 + r.Intn(4); n > 0; n-- {
			fail := r.Intn(2) == 0
			if fail {
				switch r.Intn(3) {
				case 0:
					s.answer(409, ratus.NewError(ratus.ErrConflict))
				case 1:
					s.answer(503, []byte("?"))
				default:
					s.answer(200, []byte("{"))
				}
			} else {
				s.answer(200, tk)
			}
			err := x.Commit()
			seen := s.take()
			log += fmt.Sprintf("; commit (fail %v) -> %v, requests %+v", fail, err, seen)
			if committed {
				h.check(len(seen) == 0 && err == nil, "C22", desc)
				continue
			}
			if h.check(len(seen) == 1, "C22", desc) {
				h.check(seen[0].method == "PATCH" && verifSegment(seen[0].uri, "/v1/topics//tasks/", "", tk.ID) && string(seen[0].body) == verifJSON(want), "C22", desc)
			}
			h.check((err != nil) == fail, "C22", desc)
			committed = !fail
		}
		if r.Intn(8) == 0 && !committed {
			cancel()
			s.answer(200, tk)
			err := x.Commit()
			seen := s.take()
			log += fmt.Sprintf("; commit after the end -> %v, requests %d", err, len(seen))
			h.check(err != nil, "C22", desc)
		}
		cancel()
		h.caseDone(desc)
	}
	h.done()
}

func TestVerifTransport(t *testing.T) {
	h := newVerifH(t, "transport")
	s := newVerifServer()
	defer s.Close()
	s.Config.SetKeepAlivesEnabled(false) // every client has connections of its own
	other := newVerifServer()
	defer other.Close()
	keys := []string{"X-A", "x-b", "X-c", "AUTHORIZATION", "user-agent", "User-Agent", "accept", "content-type", "X-Trace-ID"}
	for i := 0; i < h.n(1500) && h.ok(); i++ {
		r := h.rand(i)
		hs := map[string]string{}
		canon := map[string]string{}
		for r.Intn(4) != 0 {
			k := keys[r.Intn(len(keys))]
			if _, ok := canon[http.CanonicalHeaderKey(k)]; ok {
				continue
			}
			v := fmt.Sprintf("v%d", r.Intn(9))
			hs[k], canon[http.CanonicalHeaderKey(k)] = v, v
		}
		origin := s.URL
		if r.Intn(3) == 0 {
			origin += "/"
		}
		c, err := ratus.NewClient(&ratus.ClientOptions{Origin: origin, Headers: hs})
		if !h.check(err == nil, "C24", func() string { return fmt.Sprint(err) }) {
			break
		}
		s.answer(200, &ratus.Updated{})
		other.answer(200, &ratus.Updated{})
		redirect := r.Intn(6) == 0
		if redirect {
			s.redirect(other.URL + "/v1/topics?limit=1&offset=2")
		}
		tk := verifTask(r)
		if r.Intn(2) == 0 {
			_, err = c.InsertTask(context.Background(), tk)
		} else {
			_, err = c.ListTopics(context.Background(), 3, 4)
		}
		seen := s.take()
		// Wherever an answer points to, requests go to the configured origin.
		if left := other.take(); redirect {
			h.check(len(left) == 0 && len(seen) == 2, "C24", func() string {
				return fmt.Sprintf("redirected to %s: requests there %+v, at the origin %+v, %v", other.URL, left, seen, err)
			})
			continue
		}
		desc := func() string { return fmt.Sprintf("headers %v origin %s task %q: requests %+v, %v", hs, origin, tk.ID, seen, err) }
		if h.check(len(seen) == 1, "C24", desc) {
			q := seen[0]
			h.check("http://"+q.host == s.URL, "C24", desc)
			h.check(q.uri == "/v1/topics?limit=3&offset=4" || verifSegment(q.uri, "/v1/topics//tasks/", "", tk.ID), "C24", desc)
			for k, v := range canon {
				h.check(len(q.header[k]) == 1 && q.header[k][0] == v, "C24", desc)
			}
			if _, ok := canon["User-Agent"]; !ok {
				h.check(len(q.header["User-Agent"]) == 1 && q.header["User-Agent"][0] == "Ratus-Client", "C24", desc)
			}
		}
		h.caseDone(desc)
	}
	for _, o := range []string{":", "http://[::1", "http://a b", "%zz", "http://x:y", "\x7f"} {
		_, perr := url.Parse(o)
		c, err := ratus.NewClient(&ratus.ClientOptions{Origin: o})
		h.check((err != nil) == (perr != nil) && (err == nil || c == nil), "C24", func() string { return fmt.Sprintf("origin %q: %v (parse: %v)", o, err, perr) })
	}
	h.done()
}
