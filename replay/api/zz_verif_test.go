package router_test

// Concrete search over HTTP requests: every request goes through the real
// router, middlewares and controllers in front of a recording engine.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/gin-gonic/gin"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/docs"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine"
	"github.com/hyperonym/ratus/internal/metrics"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
)

// The documented request formats, independent of the models of the code.
type vTask struct {
	ID        string     `json:"_id"`
	Topic     string     `json:"topic"`
	State     int32      `json:"state"`
	Nonce     string     `json:"nonce"`
	Producer  string     `json:"producer"`
	Consumer  string     `json:"consumer"`
	Produced  *time.Time `json:"produced"`
	Scheduled *time.Time `json:"scheduled"`
	Consumed  *time.Time `json:"consumed"`
	Deadline  *time.Time `json:"deadline"`
	Payload   any        `json:"payload"`
	Defer     string     `json:"defer"`
}

type vTasks struct {
	Data []*vTask `json:"data"`
}

type vCommit struct {
	Nonce     string     `json:"nonce"`
	Topic     string     `json:"topic"`
	State     *int32     `json:"state"`
	Scheduled *time.Time `json:"scheduled"`
	Payload   any        `json:"payload"`
	Defer     string     `json:"defer"`
}

type vPromise struct {
	ID       string     `json:"_id"`
	Consumer string     `json:"consumer"`
	Deadline *time.Time `json:"deadline"`
	Timeout  string     `json:"timeout"`
}

// recEngine records the operations and answers as told.
type recEngine struct {
	ops     []string
	args    [][]any
	err     error
	task    *ratus.Task
	upd     *ratus.Updated
	del     *ratus.Deleted
	topic   *ratus.Topic
	topics  []*ratus.Topic
	tasks   []*ratus.Task
	proms   []*ratus.Promise
	promise *ratus.Promise
}

func copyOf(v any) any {
	switch x := v.(type) {
	case *ratus.Task:
		if x == nil {
			return x
		}
		c := *x
		return &c
	case *ratus.Promise:
		if x == nil {
			return x
		}
		c := *x
		return &c
	case *ratus.Commit:
		if x == nil {
			return x
		}
		c := *x
		return &c
	case []*ratus.Task:
		var r []*ratus.Task
		for _, t := range x {
			r = append(r, copyOf(t).(*ratus.Task))
		}
		return r
	}
	return v
}

func (e *recEngine) rec(op string, args ...any) {
	e.ops = append(e.ops, op)
	for i := range args {
		args[i] = copyOf(args[i])
	}
	e.args = append(e.args, args)
}

func res[T any](e *recEngine, v *T) (*T, error) {
	if e.err != nil {
		return nil, e.err
	}
	return v, nil
}

func resL[T any](e *recEngine, v []T) ([]T, error) {
	if e.err != nil {
		return nil, e.err
	}
	return v, nil
}

func (e *recEngine) Open(ctx context.Context) error    { e.rec("Open"); return e.err }
func (e *recEngine) Close(ctx context.Context) error   { e.rec("Close"); return e.err }
func (e *recEngine) Destroy(ctx context.Context) error { e.rec("Destroy"); return e.err }
func (e *recEngine) Ready(ctx context.Context) error   { e.rec("Ready"); return e.err }
func (e *recEngine) Chore(ctx context.Context) error   { e.rec("Chore"); return e.err }
func (e *recEngine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*ratus.Task, error) {
	e.rec("Poll", topic, p)
	return res(e, e.task)
}
func (e *recEngine) Commit(ctx context.Context, id string, m *ratus.Commit) (*ratus.Task, error) {
	e.rec("Commit", id, m)
	return res(e, e.task)
}
func (e *recEngine) ListTopics(ctx context.Context, limit, offset int) ([]*ratus.Topic, error) {
	e.rec("ListTopics", limit, offset)
	return resL(e, e.topics)
}
func (e *recEngine) DeleteTopics(ctx context.Context) (*ratus.Deleted, error) {
	e.rec("DeleteTopics")
	return res(e, e.del)
}
func (e *recEngine) GetTopic(ctx context.Context, topic string) (*ratus.Topic, error) {
	e.rec("GetTopic", topic)
	return res(e, e.topic)
}
func (e *recEngine) DeleteTopic(ctx context.Context, topic string) (*ratus.Deleted, error) {
	e.rec("DeleteTopic", topic)
	return res(e, e.del)
}
func (e *recEngine) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*ratus.Task, error) {
	e.rec("ListTasks", topic, limit, offset)
	return resL(e, e.tasks)
}
func (e *recEngine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	e.rec("InsertTasks", ts)
	return res(e, e.upd)
}
func (e *recEngine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
	e.rec("UpsertTasks", ts)
	return res(e, e.upd)
}
func (e *recEngine) DeleteTasks(ctx context.Context, topic string) (*ratus.Deleted, error) {
	e.rec("DeleteTasks", topic)
	return res(e, e.del)
}
func (e *recEngine) GetTask(ctx context.Context, id string) (*ratus.Task, error) {
	e.rec("GetTask", id)
	return res(e, e.task)
}
func (e *recEngine) InsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	e.rec("InsertTask", t)
	return res(e, e.upd)
}
func (e *recEngine) UpsertTask(ctx context.Context, t *ratus.Task) (*ratus.Updated, error) {
	e.rec("UpsertTask", t)
	return res(e, e.upd)
}
func (e *recEngine) DeleteTask(ctx context.Context, id string) (*ratus.Deleted, error) {
	e.rec("DeleteTask", id)
	return res(e, e.del)
}
func (e *recEngine) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*ratus.Promise, error) {
	e.rec("ListPromises", topic, limit, offset)
	return resL(e, e.proms)
}
func (e *recEngine) DeletePromises(ctx context.Context, topic string) (*ratus.Deleted, error) {
	e.rec("DeletePromises", topic)
	return res(e, e.del)
}
func (e *recEngine) GetPromise(ctx context.Context, id string) (*ratus.Promise, error) {
	e.rec("GetPromise", id)
	return res(e, e.promise)
}
func (e *recEngine) InsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	e.rec("InsertPromise", p)
	return res(e, e.task)
}
func (e *recEngine) UpsertPromise(ctx context.Context, p *ratus.Promise) (*ratus.Task, error) {
	e.rec("UpsertPromise", p)
	return res(e, e.task)
}
func (e *recEngine) DeletePromise(ctx context.Context, id string) (*ratus.Deleted, error) {
	e.rec("DeletePromise", id)
	return res(e, e.del)
}

var _ engine.Engine = (*recEngine)(nil)

type vEndpoint struct {
	method, path, op, kind string
	args                   string
}

var vEndpoints = []vEndpoint{
	{"GET", "/topics", "ListTopics", "page", ""},
	{"DELETE", "/topics", "DeleteTopics", "", ""},
	{"GET", "/topics/T", "GetTopic", "", "topic"},
	{"DELETE", "/topics/T", "DeleteTopic", "", "topic"},
	{"GET", "/topics/T/tasks", "ListTasks", "page", "topic"},
	{"POST", "/topics/T/tasks", "InsertTasks", "tasks", ""},
	{"PUT", "/topics/T/tasks", "UpsertTasks", "tasks", ""},
	{"DELETE", "/topics/T/tasks", "DeleteTasks", "", "topic"},
	{"GET", "/topics/T/tasks/I", "GetTask", "", "id"},
	{"POST", "/topics/T/tasks/I", "InsertTask", "task", ""},
	{"PUT", "/topics/T/tasks/I", "UpsertTask", "task", ""},
	{"DELETE", "/topics/T/tasks/I", "DeleteTask", "", "id"},
	{"PATCH", "/topics/T/tasks/I", "Commit", "commit", "id"},
	{"GET", "/topics/T/promises", "ListPromises", "page", "topic"},
	{"POST", "/topics/T/promises", "Poll", "promise", "topic"},
	{"DELETE", "/topics/T/promises", "DeletePromises", "", "topic"},
	{"GET", "/topics/T/promises/I", "GetPromise", "", "id"},
	{"POST", "/topics/T/promises/I", "InsertPromise", "promise", ""},
	{"PUT", "/topics/T/promises/I", "UpsertPromise", "promise", ""},
	{"DELETE", "/topics/T/promises/I", "DeletePromise", "", "id"},
	{"GET", "/healthz", "", "health", ""},
	{"GET", "/livez", "", "health", ""},
	{"GET", "/readyz", "Ready", "ready", ""},
	{"GET", "/metrics", "", "metrics", ""},
	{"GET", "/unknown/T", "", "unknown", ""},
}

func pickS(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func vName(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		b := make([]byte, 1+r.Intn(4))
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
		}
		s := string(b)
		if s == "." || s == ".." {
			return "x"
		}
		return s
	}
	return pickS(r, "a", "topic", "b", "a b", "a/b", "ä", "x:y", "a%b", "\xff", "ok\xc3", "é☃", "1", "?", "#", "a.b", "null", strings.Repeat("n", 300))
}

func vTime(r *rand.Rand) *time.Time {
	t := time.Unix(int64(r.Intn(4_000_000_000))-1_000_000_000, int64(r.Intn(1_000_000_000))).UTC()
	return &t
}

var vDurations = []string{"1s", "10m", "1h30m", "-5s", "0", "0s", "1.5h", "100ns", "+3s", "x", "1", "5 s", "1s ", "99999999999h", ".5s", "1d", "1s1"}

// vJSON renders one JSON object with random fields.
type vObj []string

func (o *vObj) add(k string, v any) {
	b, _ := json.Marshal(v)
	*o = append(*o, fmt.Sprintf("%q:%s", k, b))
}
func (o *vObj) raw(k, v string) { *o = append(*o, fmt.Sprintf("%q:%s", k, v)) }
func (o *vObj) render(r *rand.Rand) string {
	r.Shuffle(len(*o), func(i, j int) { (*o)[i], (*o)[j] = (*o)[j], (*o)[i] })
	return "{" + strings.Join(*o, ",") + "}"
}

func vPayload(r *rand.Rand) string {
	return pickS(r, "1", "null", `"p"`, `{"a":[1,2,{"b":null}]}`, "[]", "1.5e3", "true", `{}`, "12345678901234567890")
}

func vTaskBody(r *rand.Rand, id, topic string) string {
	o := vObj{}
	if r.Intn(3) > 0 {
		o.add("_id", pickS(r, id, id, "", "other", strings.ToValidUTF8(vName(r), "?")))
	}
	if r.Intn(2) > 0 {
		o.add("topic", pickS(r, topic, "", "other", strings.ToValidUTF8(vName(r), "?")))
	}
	if r.Intn(2) > 0 {
		o.raw("state", pickS(r, "0", "1", "2", "3", "0", "1", "2", "3", "4", "-1", "100", "-2147483648", "2147483647", "null"))
	}
	for _, k := range []string{"nonce", "producer", "consumer"} {
		if r.Intn(3) == 0 {
			o.add(k, pickS(r, "x", "", "y z", "0123456789abcdef"))
		}
	}
	for _, k := range []string{"produced", "scheduled", "consumed", "deadline"} {
		if r.Intn(4) == 0 {
			o.add(k, vTime(r))
		}
	}
	if r.Intn(2) > 0 {
		o.raw("payload", vPayload(r))
	}
	if r.Intn(3) == 0 {
		o.add("defer", pickS(r, append([]string{"", "1s", "2m", "-1h"}, vDurations...)...))
	}
	if r.Intn(20) == 0 {
		o.raw(pickS(r, "extra", "_id", "state", "scheduled", "defer"), pickS(r, "1", `"z"`, "[]", "null"))
	}
	return o.render(r)
}

func vBody(r *rand.Rand, kind, id, topic string) string {
	switch r.Intn(14) {
	case 0:
		return pickS(r, "", " ", "\n")
	case 1:
		return pickS(r, "null", "{}", "[]", "1", `"x"`, "{", `{"data":`, `{"_id":1}`, `{"data":null}`, `{"data":{}}`, `{"data":[null]}`, `{"data":[]}`, `{"data":[{}]}`, `{"state":"x"}`, `{"state":1.5}`, `{"deadline":"x"}`, `{"data":[1]}`, "\xff", "nul")
	}
	switch kind {
	case "task":
		return vTaskBody(r, id, topic)
	case "tasks":
		var ts []string
		n := r.Intn(4)
		good := r.Intn(2) == 0
		for i := 0; i < n; i++ {
			if r.Intn(15) == 0 {
				ts = append(ts, "null")
				continue
			}
			b := vTaskBody(r, "id"+strconv.Itoa(i), topic)
			if good {
				b = fmt.Sprintf(`{"_id":"id%d","producer":"p%d","state":%d}`, i, r.Intn(2), r.Intn(4))
			}
			ts = append(ts, b)
		}
		return `{"data":[` + strings.Join(ts, ",") + `]}`
	case "commit":
		o := vObj{}
		if r.Intn(2) > 0 {
			o.raw("state", pickS(r, "0", "1", "2", "3", "0", "1", "2", "3", "4", "-1", "null"))
		}
		for _, k := range []string{"nonce", "topic"} {
			if r.Intn(2) == 0 {
				o.add(k, pickS(r, "x", "", "t2", "0123456789abcdef"))
			}
		}
		if r.Intn(3) == 0 {
			o.add("scheduled", vTime(r))
		}
		if r.Intn(2) > 0 {
			o.raw("payload", vPayload(r))
		}
		if r.Intn(2) == 0 {
			o.add("defer", pickS(r, append([]string{"", "1s", "2m", "-1h"}, vDurations...)...))
		}
		return o.render(r)
	case "promise":
		o := vObj{}
		if r.Intn(3) == 0 {
			o.add("_id", pickS(r, id, "", "other"))
		}
		if r.Intn(2) == 0 {
			o.add("consumer", pickS(r, "c1", "", "c 2"))
		}
		if r.Intn(3) == 0 {
			o.add("deadline", vTime(r))
		}
		if r.Intn(3) == 0 {
			o.add("timeout", pickS(r, append([]string{"", "1s", "2m"}, vDurations...)...))
		}
		return o.render(r)
	}
	return ""
}

func vErr(r *rand.Rand) error {
	var e error
	switch r.Intn(10) {
	case 0:
		e = ratus.ErrBadRequest
	case 1:
		e = ratus.ErrNotFound
	case 2, 3:
		e = ratus.ErrConflict
	case 4:
		e = ratus.ErrClientClosedRequest
	case 5:
		e = ratus.ErrInternalServerError
	case 6:
		e = ratus.ErrServiceUnavailable
	case 7:
		e = context.Canceled
	case 8:
		e = io.ErrUnexpectedEOF
	default:
		return errors.New(pickS(r, "boom", "", "not found", "context deadline exceeded"))
	}
	for r.Intn(2) == 0 {
		e = fmt.Errorf("%s%w%s", pickS(r, "", "op: "), e, pickS(r, "", ": detail"))
	}
	return e
}

func vCode(e error) int {
	for _, k := range []struct {
		e error
		c int
	}{{context.Canceled, 499}, {io.ErrUnexpectedEOF, 499}, {ratus.ErrClientClosedRequest, 499}, {ratus.ErrBadRequest, 400}, {ratus.ErrNotFound, 404}, {ratus.ErrConflict, 409}, {ratus.ErrServiceUnavailable, 503}} {
		if errors.Is(e, k.e) {
			return k.c
		}
	}
	return 500
}

type vMetric struct {
	labels map[string]string
	value  float64
	count  uint64
}

func vCollect(c prometheus.Collector) []vMetric {
	ch := make(chan prometheus.Metric, 100)
	go func() { c.Collect(ch); close(ch) }()
	var r []vMetric
	for m := range ch {
		var d dto.Metric
		if m.Write(&d) != nil {
			continue
		}
		v := vMetric{labels: map[string]string{}}
		for _, l := range d.Label {
			v.labels[l.GetName()] = l.GetValue()
		}
		switch {
		case d.Counter != nil:
			v.value = d.Counter.GetValue()
		case d.Gauge != nil:
			v.value = d.Gauge.GetValue()
		case d.Histogram != nil:
			v.count = d.Histogram.GetSampleCount()
		}
		r = append(r, v)
	}
	return r
}

func labelFits(got, s string) bool {
	return utf8.ValidString(got) && (!utf8.ValidString(s) || got == s)
}

func vTask1(r *rand.Rand) *ratus.Task {
	t := &ratus.Task{ID: vName(r), Topic: vName(r), State: ratus.TaskState(r.Intn(4)), Nonce: "n", Producer: vName(r), Consumer: vName(r), Payload: "p"}
	if r.Intn(3) > 0 {
		t.Scheduled = vTime(r)
	}
	if r.Intn(3) > 0 {
		n := time.Now().Add(-time.Duration(r.Intn(100)) * time.Second)
		t.Consumed = &n
	}
	return t
}

func sameTime(a, b *time.Time) bool {
	return (a == nil) == (b == nil) && (a == nil || a.Equal(*b))
}

func between(t *time.Time, lo, hi time.Time, d time.Duration) bool {
	return t != nil && !t.Before(lo.Add(d)) && !t.After(hi.Add(d))
}

// vTaskOK: is the submitted task valid, and the engine's task what it should be.
func vTaskOK(s *vTask, id, topic string) bool {
	if s == nil {
		return false
	}
	if s.ID == "" {
		if id == "" {
			return false
		}
	} else if id != "" && s.ID != id {
		return false
	}
	if s.Topic == "" && topic == "" || s.State < 0 || s.State > 3 {
		return false
	}
	if s.Scheduled == nil && s.Defer != "" {
		if _, err := time.ParseDuration(s.Defer); err != nil {
			return false
		}
	}
	return true
}

func vTaskIs(t *ratus.Task, s *vTask, id, topic string, lo, hi time.Time) string {
	if t == nil {
		return "nil task"
	}
	if s.ID != "" {
		id = s.ID
	}
	if s.Topic != "" {
		topic = s.Topic
	}
	switch {
	case t.ID != id:
		return fmt.Sprintf("ID %q, expected %q", t.ID, id)
	case t.Topic != topic:
		return fmt.Sprintf("topic %q, expected %q", t.Topic, topic)
	case int32(t.State) != s.State:
		return fmt.Sprintf("state %d, expected %d", t.State, s.State)
	case t.Nonce != s.Nonce || t.Producer != s.Producer || t.Consumer != s.Consumer:
		return "nonce, producer or consumer changed"
	case !sameTime(t.Consumed, s.Consumed) || !sameTime(t.Deadline, s.Deadline):
		return "consumed time or deadline changed"
	case !reflect.DeepEqual(t.Payload, s.Payload):
		return fmt.Sprintf("payload %v, expected %v", t.Payload, s.Payload)
	case t.Defer != "":
		return "delay field remains"
	case s.Produced != nil && !sameTime(t.Produced, s.Produced) || s.Produced == nil && !between(t.Produced, lo, hi, 0):
		return fmt.Sprintf("produced time %v", t.Produced)
	}
	return vScheduled(t.Scheduled, s.Scheduled, s.Defer, lo, hi, true)
}

func vScheduled(got, given *time.Time, delay string, lo, hi time.Time, dflt bool) string {
	switch {
	case given != nil:
		if !sameTime(got, given) {
			return fmt.Sprintf("scheduled time %v, expected %v", got, given)
		}
	case delay != "":
		d, _ := time.ParseDuration(delay)
		if !between(got, lo, hi, d) {
			return fmt.Sprintf("scheduled time %v, expected %s from now", got, delay)
		}
	case dflt:
		if !between(got, lo, hi, 0) {
			return fmt.Sprintf("scheduled time %v, expected now", got)
		}
	default:
		if got != nil {
			return fmt.Sprintf("scheduled time %v, expected none", got)
		}
	}
	return ""
}

func decodeBody(body string, v any) (empty bool, err error) {
	err = json.NewDecoder(strings.NewReader(body)).Decode(v)
	return err == io.EOF, err
}

func TestVerifAPI(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	h := newVerifH(t, "api")
	defer h.done()
	g := &recEngine{}
	pc := &config.PaginationConfig{}
	// an API instance per configuration
	build := func() http.Handler {
		return router.New(&controller.V1{
			Pagination: middleware.Pagination(pc),
			Topic:      controller.NewTopicController(g),
			Task:       controller.NewTaskController(g),
			Promise:    controller.NewPromiseController(g),
			Health:     controller.NewHealthController(g),
			Metrics:    controller.NewMetricsController(g),
		}, &docs.Swagger{}).Handler()
	}
	api := build()
	for i := 0; i < h.n(40000) && h.ok(); i++ {
		vCase(h, h.rand(i), api, g, pc)
	}
}

func vCase(h *verifH, r *rand.Rand, api http.Handler, g *recEngine, pc *config.PaginationConfig) {
	ep := vEndpoints[r.Intn(len(vEndpoints))]
	if r.Intn(2) == 0 {
		ep = []vEndpoint{vEndpoints[5], vEndpoints[6], vEndpoints[9], vEndpoints[10], vEndpoints[12], vEndpoints[14], vEndpoints[17], vEndpoints[18]}[r.Intn(8)]
	}
	topic, id := vName(r), vName(r)
	if r.Intn(3) > 0 {
		topic, id = pickS(r, "topic", "a"), pickS(r, "x", "y")
	}
	pc.MaxLimit, pc.MaxOffset = []int{100, 100, 5, 10, 11, 0, 1}[r.Intn(7)], []int{10000, 10000, 0, 5}[r.Intn(4)]
	*g = recEngine{}
	if r.Intn(3) == 0 {
		g.err = vErr(r)
	} else {
		g.task, g.promise = vTask1(r), &ratus.Promise{ID: vName(r), Consumer: "c", Deadline: vTime(r)}
		g.upd, g.del = &ratus.Updated{Created: int64(r.Intn(3)), Updated: int64(r.Intn(3))}, &ratus.Deleted{Deleted: int64(r.Intn(5))}
		g.topic = &ratus.Topic{Name: vName(r), Count: int64(r.Intn(9))}
		g.topics, g.tasks, g.proms = []*ratus.Topic{}, []*ratus.Task{}, []*ratus.Promise{}
		for k := r.Intn(3); k > 0; k-- {
			g.topics = append(g.topics, &ratus.Topic{Name: vName(r)})
			g.tasks = append(g.tasks, vTask1(r))
			g.proms = append(g.proms, &ratus.Promise{ID: vName(r)})
		}
	}
	// request
	path := ep.path
	hasID, hasTopic := strings.HasSuffix(path, "/I"), strings.Contains(path, "/T")
	path = strings.Replace(path, "/I", "/"+escapeName(id), 1)
	path = strings.Replace(path, "/T", "/"+escapeName(topic), 1)
	if !hasID {
		id = ""
	}
	if !hasTopic {
		topic = ""
	}
	pattern := strings.Replace(strings.Replace(ep.path, "/I", "/:id", 1), "/T", "/:topic", 1)
	if ep.kind == "unknown" {
		pattern, topic = "", ""
	}
	if r.Intn(2) == 0 {
		path = "/v1" + path
		if pattern != "" {
			pattern = "/v1" + pattern
		}
	}
	q := url.Values{}
	if ep.kind == "page" {
		if r.Intn(3) > 0 {
			q.Set("limit", pickS(r, "0", "1", "5", "10", "11", "12", "100", "101", "-1", "x", "", "1.5", "9999999999999999999", "-9223372036854775808"))
		}
		if r.Intn(3) > 0 {
			q.Set("offset", pickS(r, "0", "1", "5", "6", "10000", "10001", "-1", "y", "", "9999999999999999999"))
		}
	}
	if ep.kind == "promise" && r.Intn(2) == 0 {
		if r.Intn(3) == 0 {
			q.Set("_id", pickS(r, id, "other"))
		}
		if r.Intn(3) == 0 {
			q.Set("consumer", pickS(r, "qc", "c 3"))
		}
		if r.Intn(3) == 0 {
			q.Set("timeout", pickS(r, vDurations...))
		}
		if r.Intn(4) == 0 {
			q.Set("deadline", pickS(r, vTime(r).Format(time.RFC3339Nano), "2020-02-02T02:02:02Z", "yesterday"))
		}
	}
	body := ""
	if ep.kind == "task" || ep.kind == "tasks" || ep.kind == "commit" || ep.kind == "promise" {
		body = vBody(r, ep.kind, id, topic)
	}
	target := path
	if len(q) > 0 {
		target += "?" + q.Encode()
	}
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req := httptest.NewRequest(ep.method, target, rd)
	metrics.ProducedCounter.Reset()
	metrics.ConsumedCounter.Reset()
	metrics.CommittedCounter.Reset()
	metrics.DelayGauge.Reset()
	metrics.ExecutionGauge.Reset()
	metrics.RequestHistogram.Reset()
	rec := httptest.NewRecorder()
	desc := func() string {
		return fmt.Sprintf("%s %s body=%q (maximum limit %d, maximum offset %d, engine error %v, result %+v)", ep.method, target, body, pc.MaxLimit, pc.MaxOffset, g.err, g.upd)
	}
	lo := time.Now()
	panicked := func() (p any) {
		defer func() { p = recover() }()
		api.ServeHTTP(rec, req)
		return nil
	}()
	hi := time.Now()
	h.caseDone(desc)
	fail := func(props, format string, args ...any) {
		h.check(false, props, func() string { return desc() + ": " + fmt.Sprintf(format, args...) })
	}
	check := func(ok bool, props, format string, args ...any) bool {
		if !ok {
			fail(props, format, args...)
			return false
		}
		return h.check(true, props, func() string { return "" })
	}
	if panicked != nil {
		fail("C19", "the request handling panicked: %v", panicked)
		return
	}
	check(true, "C19", "")
	// what should happen
	op, valid := ep.op, true
	props := "C18"
	var wTask vTask
	var wTasks vTasks
	var wCommit vCommit
	var wPromise vPromise
	empty := false
	limit, offset := 0, 0
	switch ep.kind {
	case "page":
		props = "C16"
		num := func(k string) int {
			if !q.Has(k) || q.Get(k) == "" {
				return 0
			}
			n, err := strconv.Atoi(q.Get(k))
			if err != nil {
				valid = false
			}
			return n
		}
		limit, offset = num("limit"), num("offset")
		if limit == 0 {
			limit = min(10, pc.MaxLimit)
		}
		valid = valid && limit >= 0 && limit <= pc.MaxLimit && offset >= 0 && offset <= pc.MaxOffset
	case "task":
		props = "C13"
		_, err := decodeBody(body, &wTask)
		valid = err == nil && vTaskOK(&wTask, id, topic)
	case "tasks":
		props = "C13"
		_, err := decodeBody(body, &wTasks)
		valid = err == nil
		for _, w := range wTasks.Data {
			valid = valid && vTaskOK(w, "", topic)
		}
	case "commit":
		props = "C14"
		var err error
		empty, err = decodeBody(body, &wCommit)
		valid = empty || err == nil
		if wCommit.State != nil && (*wCommit.State < 0 || *wCommit.State > 3) {
			valid = false
		}
		if wCommit.Scheduled == nil && wCommit.Defer != "" {
			if _, err := time.ParseDuration(wCommit.Defer); err != nil {
				valid = false
			}
		}
	case "promise":
		props = "C15"
		var err error
		empty, err = decodeBody(body, &wPromise)
		valid = empty || err == nil
		if q.Has("_id") {
			wPromise.ID = q.Get("_id")
		}
		if q.Has("consumer") {
			wPromise.Consumer = q.Get("consumer")
		}
		if q.Has("timeout") {
			wPromise.Timeout = q.Get("timeout")
		}
		if q.Has("deadline") {
			d, err := time.Parse(time.RFC3339, q.Get("deadline"))
			if err != nil {
				valid = false
			}
			wPromise.Deadline = &d
		}
		if wPromise.ID == "" {
			wPromise.ID = id
		}
		if id != "" && wPromise.ID != id {
			valid = false
		}
		if wPromise.Timeout == "" {
			wPromise.Timeout = "10m"
		}
		if wPromise.Deadline == nil {
			if _, err := time.ParseDuration(wPromise.Timeout); err != nil {
				valid = false
			}
		}
		if op == "Poll" && wPromise.ID != "" {
			op = "InsertPromise"
		}
	}
	code := rec.Code
	// exactly one JSON value in the response
	var doc any
	raw := rec.Body.Bytes()
	if ep.kind != "health" && ep.kind != "metrics" && !(ep.kind == "ready" && g.err == nil) {
		dec := json.NewDecoder(bytes.NewReader(raw))
		if err := dec.Decode(&doc); err != nil {
			fail("C18", "the response is not JSON: %q", raw)
			return
		}
		var more any
		if err := dec.Decode(&more); err != io.EOF {
			fail("C18", "more than one response was written: %q", raw)
			return
		}
	}
	isErr := func(c int, props string) bool {
		m, _ := doc.(map[string]any)
		e, _ := m["error"].(map[string]any)
		return check(code == c && e != nil && e["code"] == float64(c), props, "answered with %d %q, expected an error with code %d", code, raw, c)
	}
	produced := 0.0
	consumed, committed := 0, 0
	var out *ratus.Task
	switch {
	case ep.kind == "unknown":
		isErr(404, "C18")
		check(len(g.ops) == 0, "C18", "engine operations %v", g.ops)
		return
	case !valid:
		if !check(len(g.ops) == 0, props+",C18", "the invalid request reached the engine: %v", g.ops) {
			return
		}
		isErr(400, props)
	default:
		want := []string{op}
		if op == "" {
			want = nil
		}
		if !check(fmt.Sprint(g.ops) == fmt.Sprint(want) || len(g.ops) == 0 && len(want) == 0, props+",C18", "engine operations %v, expected %v (answer %d %q)", g.ops, want, code, raw) {
			return
		}
		if op == "" {
			check(code == 200, "C18", "answered with %d", code)
			break
		}
		args := g.args[0]
		var wargs []any
		switch {
		case ep.kind == "page" && op == "ListTopics":
			wargs = []any{limit, offset}
		case ep.kind == "page":
			wargs = []any{topic, limit, offset}
		case ep.kind == "task", ep.kind == "tasks", op == "InsertPromise", op == "UpsertPromise":
		case ep.args == "topic":
			wargs = []any{topic}
		case ep.args == "id":
			wargs = []any{id}
		}
		for k, w := range wargs {
			p := "C18"
			if ep.kind == "page" && len(wargs)-k <= 2 {
				p = "C16,C18"
			}
			if !check(reflect.DeepEqual(args[k], w), p, "argument %d of %s is %#v, expected %#v", k, op, args[k], w) {
				return
			}
		}
		last := any(nil)
		if len(args) > 0 {
			last = args[len(args)-1]
		}
		switch ep.kind {
		case "task":
			if why := vTaskIs(last.(*ratus.Task), &wTask, id, topic, lo, hi); why != "" {
				fail("C13", "the engine got %+v: %s", last, why)
				return
			}
			check(true, "C13", "")
		case "tasks":
			ts := last.([]*ratus.Task)
			if !check(len(ts) == len(wTasks.Data), "C13", "the engine got %d tasks, expected %d", len(ts), len(wTasks.Data)) {
				return
			}
			for k := range ts {
				if why := vTaskIs(ts[k], wTasks.Data[k], "", topic, lo, hi); why != "" {
					fail("C13", "the engine got task %d %+v: %s", k, ts[k], why)
					return
				}
			}
			check(true, "C13", "")
		case "commit":
			m := last.(*ratus.Commit)
			st := int32(2)
			if wCommit.State != nil {
				st = *wCommit.State
			}
			ok := m != nil && m.State != nil && int32(*m.State) == st && m.Nonce == wCommit.Nonce && m.Topic == wCommit.Topic && reflect.DeepEqual(m.Payload, wCommit.Payload) && m.Defer == ""
			if !check(ok, "C14", "the engine got %+v", m) {
				return
			}
			if why := vScheduled(m.Scheduled, wCommit.Scheduled, wCommit.Defer, lo, hi, false); why != "" {
				fail("C14", "the engine got %+v: %s", m, why)
				return
			}
		case "promise":
			p := last.(*ratus.Promise)
			d, _ := time.ParseDuration(wPromise.Timeout)
			ok := p != nil && p.ID == wPromise.ID && p.Consumer == wPromise.Consumer && p.Timeout == "" && p.Deadline != nil
			if ok && wPromise.Deadline != nil {
				ok = sameTime(p.Deadline, wPromise.Deadline)
			} else if ok {
				ok = between(p.Deadline, lo, hi, d)
			}
			if !check(ok, "C15", "the engine got %+v, expected %+v", p, wPromise) {
				return
			}
		}
		if g.err != nil {
			if !isErr(vCode(g.err), "C17,C18") {
				return
			}
			msg := doc.(map[string]any)["error"].(map[string]any)["message"]
			s, _ := msg.(string)
			check(strings.HasPrefix(s, strings.ToValidUTF8(g.err.Error(), "\ufffd")), "C17", "the message is %q, expected %q", s, g.err)
			break
		}
		var result any
		status := 200
		switch op {
		case "ListTopics":
			result = ratus.Topics{Data: g.topics}
		case "ListTasks":
			result = ratus.Tasks{Data: g.tasks}
		case "ListPromises":
			result = ratus.Promises{Data: g.proms}
		case "GetTopic":
			result = g.topic
		case "GetTask":
			result = g.task
		case "Commit":
			result, out, committed = g.task, g.task, 1
		case "Poll", "InsertPromise", "UpsertPromise":
			result, out, consumed = g.task, g.task, 1
		case "GetPromise":
			result = g.promise
		case "InsertTask", "InsertTasks":
			result = g.upd
			produced = float64(g.upd.Created)
		case "UpsertTask", "UpsertTasks":
			result = g.upd
			produced = float64(g.upd.Created + g.upd.Updated)
		case "Ready":
			check(code == 200, "C18", "answered with %d", code)
		default:
			result = g.del
		}
		if result == g.upd && g.upd.Created > 0 {
			status = 201
		}
		if op == "Ready" {
			break
		}
		b, _ := json.Marshal(result)
		var want2 any
		json.Unmarshal(b, &want2)
		if !check(code == status && reflect.DeepEqual(doc, want2), "C18", "answered with %d %q, expected %d %s", code, raw, status, b) {
			return
		}
	}
	// metrics
	label := func(m vMetric, kv ...string) bool {
		for k := 0; k+1 < len(kv); k += 2 {
			if !labelFits(m.labels[kv[k]], kv[k+1]) {
				return false
			}
		}
		return true
	}
	hs := vCollect(metrics.RequestHistogram)
	check(len(hs) == 1 && hs[0].count == 1 && label(hs[0], "topic", topic, "method", ep.method, "endpoint", pattern, "status_code", strconv.Itoa(code)), "C20", "request histogram %+v (status %d)", hs, code)
	pm := vCollect(metrics.ProducedCounter)
	sum := 0.0
	for _, m := range pm {
		sum += m.value
	}
	noTasks := ep.kind == "tasks" && len(wTasks.Data) == 0
	if !noTasks {
		check(sum == produced, "C20", "produced counter grew by %v, expected %v", sum, produced)
		if produced > 0 && len(pm) == 1 {
			switch ep.kind {
			case "task":
				tp := wTask.Topic
				if tp == "" {
					tp = topic
				}
				check(label(pm[0], "topic", tp, "producer", wTask.Producer), "C20", "labels %v of the produced counter", pm[0].labels)
			case "tasks":
				check(label(pm[0], "topic", topic, "producer", wTasks.Data[0].Producer), "C20", "labels %v of the produced counter", pm[0].labels)
			}
		}
	}
	one := func(name string, c prometheus.Collector, n int) {
		ms := vCollect(c)
		s := 0.0
		for _, m := range ms {
			s += m.value
		}
		ok := s == float64(n) && len(ms) <= 1
		if n == 1 && ok {
			ok = label(ms[0], "topic", out.Topic, "producer", out.Producer, "consumer", out.Consumer)
		}
		check(ok, "C20", "%s counter %+v, expected %d", name, ms, n)
	}
	one("consumed", metrics.ConsumedCounter, consumed)
	one("committed", metrics.CommittedCounter, committed)
	dg, eg := vCollect(metrics.DelayGauge), vCollect(metrics.ExecutionGauge)
	if consumed == 1 && out.Scheduled != nil && out.Consumed != nil {
		w := out.Consumed.Sub(*out.Scheduled).Seconds()
		check(len(dg) == 1 && math.Abs(dg[0].value-w) < 1e-6*math.Max(1, math.Abs(w)) && label(dg[0], "topic", out.Topic, "producer", out.Producer, "consumer", out.Consumer), "C20", "delay gauge %+v, expected %v", dg, w)
	} else {
		check(len(dg) == 0, "C20", "delay gauge %+v", dg)
	}
	if committed == 1 && out.Consumed != nil {
		a, b := lo.Sub(*out.Consumed).Seconds(), hi.Sub(*out.Consumed).Seconds()
		check(len(eg) == 1 && eg[0].value >= a-1e-6 && eg[0].value <= b+1e-6 && label(eg[0], "topic", out.Topic, "producer", out.Producer, "consumer", out.Consumer), "C20", "execution gauge %+v, expected %v to %v", eg, a, b)
	} else {
		check(len(eg) == 0, "C20", "execution gauge %+v", eg)
	}
}

// escapeName escapes a name as one path segment. Plus signs are escaped too: a
// plain one is read as a space if the segment contains an escaped slash, which
// the router documents as a caveat.
func escapeName(s string) string {
	return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")
}
