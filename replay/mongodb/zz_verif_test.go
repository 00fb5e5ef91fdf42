package mongodb_test

// Bounded concrete search: the engine runs against a small MongoDB server
// while other clients change the collection between its commands, commands are
// rejected, and the deployment is sharded or not. Every operation is compared
// with its contract on the recorded snapshots.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"go.mongodb.org/mongo-driver/bson"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/engine/mongodb"
)

type mcase struct {
	h      *verifH
	r      *rand.Rand
	f      *fakeMongo
	g      *mongodb.Engine
	modes  map[string]int
	nonces map[string]bool
	desc   string
	trace  []string
	t0, t1 time.Time
}

var mtopics = []string{"a", "b", "a/b", ""}
var mids = []string{"1", "2", "3", "4", "5", "6", "x y", "ä"}

func (c *mcase) time() *time.Time {
	if c.r.Intn(6) == 0 {
		return nil
	}
	d := []time.Duration{-100 * time.Hour, -time.Hour, -3 * time.Second, 0, 5 * time.Second, time.Hour}[c.r.Intn(6)]
	t := time.Now().Add(d + time.Duration(c.r.Intn(2_000_000_000)) - time.Second)
	if d == 0 {
		t = time.Now().Add(-10 * time.Millisecond)
	}
	return &t
}

func (c *mcase) payload() any {
	switch c.r.Intn(5) {
	case 0:
		return nil
	case 1:
		return "text"
	case 2:
		return int32(c.r.Intn(10))
	case 3:
		return map[string]any{"k": "v", "n": map[string]any{"m": true}}
	}
	return []any{"x", int32(1)}
}

func (c *mcase) task() *ratus.Task {
	t := &ratus.Task{ID: mids[c.r.Intn(len(mids))], Topic: mtopics[c.r.Intn(len(mtopics)-1)], State: ratus.TaskState(c.r.Intn(4)), Produced: c.time(), Scheduled: c.time(), Payload: c.payload(), Producer: "p"}
	if c.r.Intn(2) == 0 {
		t.State = ratus.TaskStatePending
	}
	if t.State != ratus.TaskStatePending || c.r.Intn(4) == 0 {
		t.Consumed, t.Deadline, t.Consumer = c.time(), c.time(), "old"
	}
	if t.State == ratus.TaskStateActive || c.r.Intn(5) == 0 {
		t.Nonce = fmt.Sprintf("nonce%d", c.r.Intn(3))
	}
	return t
}

// interfere is what another client does between two commands.
func (c *mcase) interfere(f *fakeMongo, _ string) {
	for n := c.r.Intn(3); n > 0; n-- {
		id := mids[c.r.Intn(len(mids))]
		d, ok := f.docs[id]
		if len(f.order) > 0 && c.r.Intn(2) == 0 {
			id = f.order[c.r.Intn(len(f.order))]
			d, ok = f.docs[id]
		}
		set := func(s bson.D) {
			d, _ = update(d, bson.D{{Key: "$set", Value: s}})
			f.put(id, d)
		}
		switch c.r.Intn(7) {
		case 0:
			f.remove(id)
		case 1:
			t := c.task()
			t.ID = id
			f.put(id, storedDoc(t))
		case 2:
			if ok {
				set(bson.D{{Key: "state", Value: int32(1)}, {Key: "nonce", Value: fmt.Sprintf("claimed%d", c.r.Int())}})
			}
		case 3:
			if ok {
				set(bson.D{{Key: "state", Value: int32(0)}, {Key: "nonce", Value: ""}})
			}
		case 4:
			if ok {
				set(bson.D{{Key: "state", Value: int32(2)}, {Key: "nonce", Value: ""}})
			}
		case 5:
			if ok {
				set(bson.D{{Key: "nonce", Value: fmt.Sprintf("claimed%d", c.r.Int())}})
			}
		case 6:
			if ok {
				set(bson.D{{Key: "topic", Value: mtopics[c.r.Intn(2)]}})
			}
		}
	}
}

func sameDocs(a, b map[string]bson.D) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !bytes.Equal(rawDoc(v), rawDoc(w)) {
			return false
		}
	}
	return true
}

func diff(a, b map[string]bson.D) (r []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok || !bytes.Equal(rawDoc(v), rawDoc(w)) {
			r = append(r, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func show(v any) string {
	switch t := v.(type) {
	case *ratus.Task:
		if t == nil {
			return "nil"
		}
		d := func(p *time.Time) string {
			if p == nil {
				return "-"
			}
			return p.UTC().Format("15:04:05.000")
		}
		return fmt.Sprintf("{%q topic=%q state=%d nonce=%q consumer=%q sched=%s consumed=%s deadline=%s payload=%v}", t.ID, t.Topic, t.State, t.Nonce, t.Consumer, d(t.Scheduled), d(t.Consumed), d(t.Deadline), t.Payload)
	case map[string]bson.D:
		var r []string
		for _, x := range t {
			r = append(r, show(task(x)))
		}
		sort.Strings(r)
		return "[" + strings.Join(r, "\n    ") + "]"
	}
	return fmt.Sprintf("%+v", v)
}

// outcome of one operation: the commands it sent.
type mop struct {
	c    *mcase
	name string
	args string
	log  []fakeCmd
	err  error
	res  any
}

func (o *mop) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s; operation %s(%s) returned %s, error %v", o.c.desc, o.name, o.args, show(o.res), o.err)
	for i, l := range o.log {
		x, _ := bson.MarshalExtJSON(l.Doc, false, false)
		fmt.Fprintf(&b, "\n  command %d: %s\n    rejected with %d; before: %s", i+1, x, l.Rejected, show(l.Pre))
		if !sameDocs(l.Pre, l.Post) {
			fmt.Fprintf(&b, "\n    after: %s", show(l.Post))
		}
	}
	return b.String()
}

func (o *mop) check(ok bool, props, clause string) bool {
	return o.c.h.check(ok, props, func() string { return clause + ": " + o.String() })
}

func (c *mcase) do(name, args string, fn func() (any, error)) *mop {
	c.f.mu.Lock()
	c.f.log = nil
	c.f.mu.Unlock()
	c.t0 = time.Now().Truncate(time.Millisecond)
	v, err := fn()
	c.t1 = time.Now()
	if rv := reflect.ValueOf(v); v != nil && rv.Kind() == reflect.Pointer && rv.IsNil() {
		v = nil
	}
	c.f.mu.Lock()
	defer c.f.mu.Unlock()
	return &mop{c: c, name: name, args: args, log: append([]fakeCmd{}, c.f.log...), err: err, res: v}
}

func (o *mop) changes() (r []int) {
	for i, l := range o.log {
		if !sameDocs(l.Pre, l.Post) {
			r = append(r, i)
		}
	}
	return r
}

func unsupportedCode(n int32) bool { return n == 61 || n == 31025 }

// rejected: some command failed, other than by being unsupported before a fallback.
func (o *mop) rejected() bool {
	for i, l := range o.log {
		if l.Rejected != 0 && !(unsupportedCode(l.Rejected) && i < len(o.log)-1) {
			return true
		}
	}
	return false
}

func (o *mop) stable() bool {
	for _, l := range o.log {
		if !sameDocs(l.Pre, o.log[0].Pre) {
			return false
		}
	}
	return true
}

// pre is the collection at the time of the command that changed it, or of the last one.
func (o *mop) pre() map[string]bson.D {
	if ch := o.changes(); len(ch) > 0 {
		return o.log[ch[0]].Pre
	}
	if len(o.log) == 0 {
		return nil
	}
	return o.log[len(o.log)-1].Pre
}

// mode checks which variant of an operation was used (C30).
func (o *mop) mode(key string) {
	if len(o.log) == 0 {
		return
	}
	m := o.c.modes[key]
	pref, alt := "findAndModify", "find"
	if strings.HasPrefix(key, "UpsertTask") {
		pref, alt = "update", "delete"
	}
	first := o.log[0]
	used := func(from int) bool {
		n := 0
		for _, l := range o.log[from:] {
			if strings.HasPrefix(key, "UpsertTask") && l.Name != "update" {
				return true
			}
			if l.Name == "findAndModify" {
				n++
			}
		}
		return n > 0 && from > 0
	}
	switch {
	case m > 0:
		o.check(first.Name == alt, "C30", "fallback-used-directly")
	case m < 0:
		o.check(first.Name == pref && !used(1), "C30", "preferred-only")
		if unsupportedCode(first.Rejected) {
			o.check(o.err != nil && len(o.log) == 1, "C30", "no fallback although disabled")
		}
	default:
		o.check(first.Name == pref, "C30", "preferred-first")
		if unsupportedCode(first.Rejected) {
			o.check(len(o.log) > 1 && o.log[1].Name == alt, "C30", "switches")
			o.c.modes[key] = 1
		} else {
			o.check(!used(1), "C30", "fallback-only-if-unsupported")
		}
	}
	// The last command decides the result.
	if l := o.log[len(o.log)-1]; l.Rejected == 0 && (l.Name == "update" || l.Name == "insert" || l.Name == "findAndModify" && !sameDocs(l.Pre, l.Post)) {
		o.check(o.err == nil, "C30", "result-of-last")
	}
}

// claim checks the claims of Poll, InsertPromise and UpsertPromise.
func (o *mop) claim(p *ratus.Promise, ok func(t *ratus.Task) bool) {
	c := o.c
	res, _ := o.res.(*ratus.Task)
	ch := o.changes()
	if !o.check((o.err == nil) == (res != nil), "C26", "results-agree") {
		return
	}
	if o.err != nil {
		o.check(len(ch) == 0, "C26", "failed claim changed something")
		return
	}
	if !o.check(len(ch) == 1, "C26,C10", "one change per claim") {
		return
	}
	l := o.log[ch[0]]
	pre, post := task(l.Pre[res.ID]), task(l.Post[res.ID])
	if !o.check(reflect.DeepEqual(diff(l.Pre, l.Post), []string{res.ID}), "C26", "frame") || !o.check(pre != nil && post != nil, "C26", "claim of an existing task") {
		return
	}
	o.check(ok(pre), "C26", "the claimed task meets the conditions")
	o.check(reflect.DeepEqual(res, post), "C26", "returns the stored task")
	o.check(len(res.Nonce) == ratus.NonceLength && !c.nonces[res.Nonce], "C26", "fresh nonce")
	c.nonces[res.Nonce] = true
	w := *pre
	w.State, w.Nonce, w.Consumer, w.Deadline = ratus.TaskStateActive, res.Nonce, p.Consumer, p.Deadline
	w.Consumed = post.Consumed
	if o.check(post.Consumed != nil && !post.Consumed.Before(c.t0) && !post.Consumed.After(c.t1), "C26", "time of the claim") {
		o.check(reflect.DeepEqual(post, task(storedDoc(&w))), "C26", "claimed fields")
	}
}

func (o *mop) dbErr(props string) {
	if o.rejected() {
		last := o.log[len(o.log)-1]
		if last.Rejected != 0 {
			o.check(o.err != nil && !errors.Is(o.err, ratus.ErrNotFound) && !errors.Is(o.err, ratus.ErrConflict), props, "database errors are passed on")
		}
	}
}

func (c *mcase) step() {
	ctx := context.Background()
	r := c.r
	id, topic := mids[r.Intn(len(mids))], mtopics[r.Intn(2)]
	if len(c.f.order) > 0 && r.Intn(3) > 0 {
		id = c.f.order[r.Intn(len(c.f.order))]
	}
	p := &ratus.Promise{ID: id, Consumer: "me", Deadline: c.time()}
	pending := func(t *ratus.Task) bool { return t.State == ratus.TaskStatePending }
	var o *mop
	switch k := r.Intn(22); k {
	case 0, 1, 2:
		o = c.do("Poll", topic, func() (any, error) { return c.g.Poll(ctx, topic, p) })
		due := func(t *ratus.Task, at time.Time) bool {
			return pending(t) && t.Topic == topic && t.Scheduled != nil && !t.Scheduled.After(at)
		}
		o.claim(p, func(t *ratus.Task) bool { return due(t, c.t1) })
		o.dbErr("C26")
		o.mode("Poll")
		if o.err == nil && o.stable() {
			res := task(o.pre()[o.res.(*ratus.Task).ID])
			for _, d := range o.pre() {
				if t := task(d); due(t, c.t0) && res.Scheduled != nil {
					o.check(!t.Scheduled.Before(*res.Scheduled), "C26", "earliest")
				}
			}
		}
		if o.err != nil && !o.rejected() && o.check(errors.Is(o.err, ratus.ErrNotFound), "C26", "only-not-found") {
			for _, d := range o.log[len(o.log)-1].Pre {
				o.check(!due(task(d), c.t0.Add(-time.Millisecond)), "C26", "complete")
			}
		}
	case 3, 4:
		o = c.do("InsertPromise", id, func() (any, error) { return c.g.InsertPromise(ctx, p) })
		o.claim(p, func(t *ratus.Task) bool { return t.ID == id && pending(t) })
		o.dbErr("C26")
		o.mode("InsertPromise")
		if !o.rejected() {
			d := o.log[len(o.log)-1].Pre[id]
			switch {
			case o.err == nil:
			case errors.Is(o.err, ratus.ErrNotFound):
				o.check(d == nil, "C26", "missing")
			case errors.Is(o.err, ratus.ErrConflict):
				ever := false
				for _, l := range o.log {
					ever = ever || l.Pre[id] != nil
				}
				o.check(ever, "C26", "conflict")
			default:
				o.check(false, "C26", "only-reported")
			}
			if o.stable() && d != nil {
				o.check(errors.Is(o.err, ratus.ErrConflict) == !pending(task(o.pre()[id])), "C26", "accepted or rejected")
			}
		}
	case 5, 6:
		o = c.do("UpsertPromise", id, func() (any, error) { return c.g.UpsertPromise(ctx, p) })
		o.claim(p, func(t *ratus.Task) bool { return t.ID == id })
		o.dbErr("C26")
		o.mode("UpsertPromise")
		if !o.rejected() {
			o.check((o.err != nil) == (o.pre()[id] == nil), "C26", "found or not")
			o.check(o.err == nil || errors.Is(o.err, ratus.ErrNotFound), "C26", "only-reported")
		}
	case 7, 8, 9:
		m := &ratus.Commit{}
		if d := c.f.docs[id]; d != nil && r.Intn(3) > 0 {
			m.Nonce = task(d).Nonce
		} else if r.Intn(2) == 0 {
			m.Nonce = "nonce1"
		}
		if r.Intn(3) == 0 {
			m.Topic = mtopics[r.Intn(3)]
		}
		if r.Intn(3) > 0 {
			s := ratus.TaskState(r.Intn(4))
			m.State = &s
		}
		if r.Intn(3) == 0 {
			m.Scheduled = c.time()
		}
		if r.Intn(3) == 0 {
			m.Payload = c.payload()
		}
		o = c.do("Commit", fmt.Sprintf("%s %+v", id, m), func() (any, error) { return c.g.Commit(ctx, id, m) })
		o.dbErr("C27")
		o.mode("Commit")
		res, _ := o.res.(*ratus.Task)
		if !o.check((o.err == nil) == (res != nil), "C27", "results-agree") {
			return
		}
		ch := o.changes()
		last := o.log[len(o.log)-1]
		if o.err != nil {
			o.check(len(ch) == 0, "C27", "a failed commit changed something")
			if !o.rejected() {
				if errors.Is(o.err, ratus.ErrNotFound) {
					o.check(last.Pre[id] == nil, "C27", "missing")
				} else {
					o.check(errors.Is(o.err, ratus.ErrConflict), "C27", "only-reported")
				}
				if o.stable() && last.Pre[id] != nil {
					o.check(m.Nonce != "" && m.Nonce != task(last.Pre[id]).Nonce, "C27", "matching commits are accepted")
				}
			}
			break
		}
		w := -1
		for i, l := range o.log {
			if l.Name == "findAndModify" && l.Rejected == 0 {
				w = i
			}
		}
		if !o.check(w >= 0 && len(ch) <= 1, "C27", "one update") {
			break
		}
		l := o.log[w]
		pre, post := task(l.Pre[id]), task(l.Post[id])
		if !o.check(pre != nil && post != nil, "C27", "commit of an existing task") {
			break
		}
		for _, k := range diff(l.Pre, l.Post) {
			o.check(k == id, "C27", "frame")
		}
		o.check(m.Nonce == "" || pre.Nonce == m.Nonce, "C27", "nonce checked")
		o.check(reflect.DeepEqual(res, post), "C27", "returns the stored task")
		e := *pre
		e.Nonce = ""
		if m.Topic != "" {
			e.Topic = m.Topic
		}
		if m.State != nil {
			e.State = *m.State
		}
		if m.Scheduled != nil {
			e.Scheduled = m.Scheduled
		}
		if m.Payload != nil {
			e.Payload = m.Payload
		}
		o.check(reflect.DeepEqual(post, task(storedDoc(&e))), "C27", "exactly the specified fields")
	case 10:
		o = c.do("Chore", "", func() (any, error) { return nil, c.g.Chore(ctx) })
		o.dbErr("C28")
		o.check((o.err != nil) == o.rejected(), "C28", "errors")
		if o.err == nil && o.check(len(o.log) > 0, "C28", "recovers") {
			o.recovered("C28", func(t *ratus.Task) (bool, bool) {
				if t.State != ratus.TaskStateActive || t.Deadline == nil || t.Deadline.After(c.t1) {
					return false, true
				}
				return true, t.Deadline.Before(c.t0)
			})
		}
	case 11:
		o = c.do("DeletePromise", id, func() (any, error) { return c.g.DeletePromise(ctx, id) })
		o.dbErr("C28")
		if o.err == nil {
			n := o.recovered("C28", func(t *ratus.Task) (bool, bool) {
				return t.ID == id && t.State == ratus.TaskStateActive, true
			})
			o.check(o.res.(*ratus.Deleted).Deleted == int64(n), "C28", "count")
		} else {
			o.check(o.rejected(), "C28", "errors")
		}
	case 12:
		o = c.do("DeletePromises", topic, func() (any, error) { return c.g.DeletePromises(ctx, topic) })
		o.dbErr("C28")
		if o.err == nil {
			n := o.recovered("C28", func(t *ratus.Task) (bool, bool) {
				return t.Topic == topic && t.State == ratus.TaskStateActive, true
			})
			o.check(o.res.(*ratus.Deleted).Deleted == int64(n), "C28", "count")
		} else {
			o.check(o.rejected(), "C28", "errors")
		}
	case 13:
		lim, off := 1+r.Intn(4), r.Intn(3)
		o = c.do("ListPromises", fmt.Sprint(topic, lim, off), func() (any, error) { return c.g.ListPromises(ctx, topic, lim, off) })
		o.dbErr("C28")
		o.check(len(o.changes()) == 0, "C28", "reads change nothing")
		if o.err == nil {
			var w []*ratus.Promise
			for _, k := range o.ids(func(t *ratus.Task) bool { return t.Topic == topic && t.State == ratus.TaskStateActive }, off, lim) {
				t := task(o.pre()[k])
				w = append(w, &ratus.Promise{ID: t.ID, Consumer: t.Consumer, Deadline: t.Deadline})
			}
			v := o.res.([]*ratus.Promise)
			o.check(len(w) == len(v) && (len(w) == 0 || reflect.DeepEqual(w, v)), "C28", "listing")
		} else {
			o.check(o.rejected(), "C28", "errors")
		}
		o = c.do("GetPromise", id, func() (any, error) { return c.g.GetPromise(ctx, id) })
		o.dbErr("C28")
		t := task(o.pre()[id])
		if !o.rejected() {
			if t == nil || t.State != ratus.TaskStateActive {
				o.check(errors.Is(o.err, ratus.ErrNotFound), "C28", "not-found")
			} else {
				o.check(o.err == nil && reflect.DeepEqual(o.res, &ratus.Promise{ID: t.ID, Consumer: t.Consumer, Deadline: t.Deadline}), "C28", "promise of the task")
			}
		}
	case 14:
		o = c.do("GetTask", id, func() (any, error) { return c.g.GetTask(ctx, id) })
		o.dbErr("C29")
		o.check(len(o.changes()) == 0, "C29", "reads change nothing")
		if !o.rejected() {
			if d := o.pre()[id]; d == nil {
				o.check(errors.Is(o.err, ratus.ErrNotFound), "C29", "not-found")
			} else {
				o.check(o.err == nil && reflect.DeepEqual(o.res, task(d)), "C29", "stored task")
			}
		}
		lim, off := 1+r.Intn(4), r.Intn(3)
		o = c.do("ListTasks", fmt.Sprint(topic, lim, off), func() (any, error) { return c.g.ListTasks(ctx, topic, lim, off) })
		o.dbErr("C29")
		if o.err == nil {
			var w []*ratus.Task
			for _, k := range o.ids(func(t *ratus.Task) bool { return t.Topic == topic }, off, lim) {
				w = append(w, task(o.pre()[k]))
			}
			v := o.res.([]*ratus.Task)
			o.check(len(w) == len(v) && (len(w) == 0 || reflect.DeepEqual(w, v)), "C29", "listing")
		} else {
			o.check(o.rejected(), "C29", "errors")
		}
	case 15:
		lim, off := 1+r.Intn(3), r.Intn(3)
		o = c.do("ListTopics", fmt.Sprint(lim, off), func() (any, error) { return c.g.ListTopics(ctx, lim, off) })
		o.dbErr("C29")
		if o.err == nil {
			var w []string
			for _, k := range o.ids(func(t *ratus.Task) bool { return true }, 0, 1000) {
				n := task(o.pre()[k]).Topic
				if !strings.Contains("\x00"+strings.Join(w, "\x00")+"\x00", "\x00"+n+"\x00") {
					w = append(w, n)
				}
			}
			w = w[min(off, len(w)):]
			w = w[:min(lim, len(w))]
			v := o.res.([]*ratus.Topic)
			ok := len(v) == len(w)
			for i := range v {
				ok = ok && v[i].Name == w[i]
			}
			o.check(ok, "C29", "listing of topics")
		} else {
			o.check(o.rejected(), "C29", "errors")
		}
		o = c.do("GetTopic", topic, func() (any, error) { return c.g.GetTopic(ctx, topic) })
		o.dbErr("C29")
		if !o.rejected() {
			n := len(o.ids(func(t *ratus.Task) bool { return t.Topic == topic }, 0, 1000))
			if n == 0 {
				o.check(errors.Is(o.err, ratus.ErrNotFound), "C29", "no such topic")
			} else {
				o.check(o.err == nil && reflect.DeepEqual(o.res, &ratus.Topic{Name: topic, Count: int64(n)}), "C29", "size of the topic")
			}
		}
	case 16:
		t := c.task()
		o = c.do("InsertTask", show(t), func() (any, error) { return c.g.InsertTask(ctx, t) })
		o.dbErr("C29")
		if !o.rejected() {
			l := o.log[0]
			if l.Pre[t.ID] != nil {
				o.check(errors.Is(o.err, ratus.ErrConflict) && len(o.changes()) == 0, "C29", "never overwrites")
			} else {
				o.check(o.err == nil && reflect.DeepEqual(task(l.Post[t.ID]), task(storedDoc(t))) && reflect.DeepEqual(diff(l.Pre, l.Post), []string{t.ID}), "C29", "inserted")
				o.check(o.err == nil && *o.res.(*ratus.Updated) == ratus.Updated{Created: 1}, "C29", "counts")
			}
		}
	case 17:
		var ts []*ratus.Task
		for n := r.Intn(5); n > 0; n-- {
			ts = append(ts, c.task())
		}
		if r.Intn(4) == 0 {
			at := r.Intn(3)
			c.f.rejectDoc = func(i int) int32 {
				if i == at {
					return 121
				}
				return 0
			}
		}
		c.f.wce = r.Intn(8) == 0
		o = c.do("InsertTasks", fmt.Sprint(len(ts)), func() (any, error) { return c.g.InsertTasks(ctx, ts) })
		c.f.rejectDoc, c.f.wce = nil, false
		o.check((o.err != nil) == o.rejected(), "C29", "errors other than duplicates are passed on")
		if o.err == nil {
			o.inserted(ts)
		}
	case 18, 19:
		seen := map[string]bool{}
		var ts []*ratus.Task
		for n := r.Intn(5); n > 0; n-- {
			if t := c.task(); !seen[t.ID] {
				seen[t.ID] = true
				ts = append(ts, t)
			}
		}
		key := "UpsertTasks"
		if k == 19 {
			key = "UpsertTask"
			ts = []*ratus.Task{c.task()}
		}
		o = c.do(key, fmt.Sprint(len(ts)), func() (any, error) {
			if k == 19 {
				return c.g.UpsertTask(ctx, ts[0])
			}
			return c.g.UpsertTasks(ctx, ts)
		})
		o.dbErr("C29")
		o.mode(key)
		if o.err != nil {
			o.check(o.rejected(), "C29", "errors")
			break
		}
		if len(o.log) == 0 {
			o.check(len(ts) == 0, "C29", "nothing was sent")
			break
		}
		if o.log[len(o.log)-1].Name == "update" || o.calm() {
			pre, post := o.log[len(o.log)-1].Pre, o.log[len(o.log)-1].Post
			if o.calm() {
				pre = o.log[0].Pre
			}
			created, updated := 0, 0
			for _, t := range ts {
				o.check(reflect.DeepEqual(task(post[t.ID]), task(storedDoc(t))), "C29", "upsert replaces the whole document")
				if d := pre[t.ID]; d == nil {
					created++
				} else if o.log[len(o.log)-1].Name == "insert" || !bytes.Equal(rawDoc(d), rawDoc(post[t.ID])) {
					updated++
				}
				seen[t.ID] = true
			}
			for _, k := range diff(pre, post) {
				o.check(seen[k], "C29", "frame of upserts")
			}
			o.check(*o.res.(*ratus.Updated) == ratus.Updated{Created: int64(created), Updated: int64(updated)}, "C29", "counts of upserts")
		}
	case 20:
		o = c.do("DeleteTask", id, func() (any, error) { return c.g.DeleteTask(ctx, id) })
		o.deleted(func(t *ratus.Task) bool { return t.ID == id })
	case 21:
		switch r.Intn(6) {
		case 0:
			o = c.do("DeleteTopics", "", func() (any, error) { return c.g.DeleteTopics(ctx) })
			o.deleted(func(t *ratus.Task) bool { return true })
		case 1, 2:
			o = c.do("DeleteTopic", topic, func() (any, error) { return c.g.DeleteTopic(ctx, topic) })
			o.deleted(func(t *ratus.Task) bool { return t.Topic == topic })
		default:
			o = c.do("DeleteTasks", topic, func() (any, error) { return c.g.DeleteTasks(ctx, topic) })
			o.deleted(func(t *ratus.Task) bool { return t.Topic == topic })
		}
	}
	c.trace = append(c.trace, fmt.Sprintf("%s:%v:%d", o.name, o.err, len(o.log)))
}

// calm: nobody changed the collection between the commands.
func (o *mop) calm() bool {
	for i := 1; i < len(o.log); i++ {
		if !sameDocs(o.log[i].Pre, o.log[i-1].Post) {
			return false
		}
	}
	return true
}

// ids of the matching documents in the order of the database.
func (o *mop) ids(ok func(t *ratus.Task) bool, off, lim int) (r []string) {
	for _, k := range o.c.f.order {
		if d := o.pre()[k]; d != nil && ok(task(d)) {
			r = append(r, k)
		}
	}
	r = r[min(off, len(r)):]
	return r[:min(lim, len(r))]
}

// recovered checks that exactly the given tasks returned to pending.
func (o *mop) recovered(props string, must func(t *ratus.Task) (may, sure bool)) (n int) {
	if !o.check(len(o.changes()) <= 1, props, "one update") || len(o.log) == 0 {
		return 0
	}
	l := o.log[len(o.log)-1]
	if ch := o.changes(); len(ch) > 0 {
		l = o.log[ch[0]]
	}
	d := map[string]bool{}
	for _, k := range diff(l.Pre, l.Post) {
		d[k] = true
	}
	for k, v := range l.Pre {
		t := task(v)
		may, sure := must(t)
		if d[k] {
			n++
			e := *t
			e.State, e.Nonce = ratus.TaskStatePending, ""
			o.check(may, props, "only the addressed tasks return to pending")
			o.check(reflect.DeepEqual(task(l.Post[k]), &e), props, "back to pending with the nonce cleared")
		} else {
			o.check(!may || !sure, props, "every addressed task returns to pending")
		}
		delete(d, k)
	}
	o.check(len(d) == 0, props, "nothing is created")
	return n
}

func (o *mop) deleted(ok func(t *ratus.Task) bool) {
	o.dbErr("C29")
	if o.err != nil {
		o.check(o.rejected(), "C29", "errors")
		return
	}
	if !o.check(len(o.changes()) <= 1, "C29", "one deletion") {
		return
	}
	l := o.log[len(o.log)-1]
	n := 0
	for k, v := range l.Pre {
		w, kept := l.Post[k]
		if ok(task(v)) {
			n++
			o.check(!kept, "C29", "every addressed task is deleted")
		} else {
			o.check(kept && bytes.Equal(rawDoc(v), rawDoc(w)), "C29", "only the addressed tasks are deleted")
		}
	}
	o.check(o.res.(*ratus.Deleted).Deleted == int64(n), "C29", "count")
}

func (o *mop) inserted(ts []*ratus.Task) {
	if len(o.log) == 0 {
		o.check(len(ts) == 0, "C29", "nothing was sent")
		return
	}
	l := o.log[len(o.log)-1]
	n := 0
	first := map[string]*ratus.Task{}
	for _, t := range ts {
		if l.Pre[t.ID] == nil && first[t.ID] == nil {
			first[t.ID] = t
			n++
		}
	}
	for k, v := range l.Post {
		if t := first[k]; t != nil {
			o.check(reflect.DeepEqual(task(v), task(storedDoc(t))), "C29", "inserted")
			continue
		}
		o.check(bytes.Equal(rawDoc(v), rawDoc(l.Pre[k])), "C29", "never overwrites")
	}
	o.check(*o.res.(*ratus.Updated) == ratus.Updated{Created: int64(n)}, "C29", "counts")
}

func TestVerifMongo(t *testing.T) {
	h := newVerifH(t, "mongo")
	defer h.done()
	for i := 0; i < h.n(150) && h.ok(); i++ {
		func() {
			c := &mcase{h: h, r: h.rand(i), nonces: map[string]bool{}, modes: map[string]int{}}
			f, err := newFakeMongo()
			if err != nil {
				t.Skip("no loopback network")
			}
			defer f.close()
			c.f = f
			cfg := &mongodb.Config{URI: f.uri(), Database: "ratus", Collection: "tasks", RetentionPeriod: time.Hour}
			f.shard = []string{"", "", "topic", "_id", "nonce"}[c.r.Intn(5)]
			cfg.DisableAtomicPoll = c.r.Intn(4) == 0
			cfg.DisableAutoFallback = c.r.Intn(4) == 0
			c.g, err = mongodb.New(cfg)
			if err != nil {
				h.check(false, "C29,C30", func() string { return "New: " + err.Error() })
				return
			}
			ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
			defer stop()
			if err := c.g.Open(ctx); err != nil {
				h.check(false, "C29,C35", func() string { return "Open: " + err.Error() })
				return
			}
			defer c.g.Close(ctx)
			m := 0
			if cfg.DisableAutoFallback {
				m = -1
			}
			if c.r.Intn(4) == 0 {
				m = c.r.Intn(3) - 1
				c.g.Fallback(int32(m))
				cfg.DisableAtomicPoll = false
			}
			for _, k := range []string{"Poll", "Commit", "UpsertTasks", "UpsertTask", "InsertPromise", "UpsertPromise"} {
				c.modes[k] = m
			}
			if cfg.DisableAtomicPoll {
				c.modes["Poll"] = 1
			}
			c.desc = fmt.Sprintf("shard key %q, automatic fallback disabled %v, atomic poll disabled %v, modes set to %d", f.shard, cfg.DisableAutoFallback, cfg.DisableAtomicPoll, m)
			for n := c.r.Intn(9); n > 0; n-- {
				x := c.task()
				f.put(x.ID, storedDoc(x))
			}
			noise := c.r.Intn(2) == 0
			faults := c.r.Intn(2) == 0
			for s := 0; s < 40 && h.ok(); s++ {
				f.before, f.reject = nil, nil
				if noise && c.r.Intn(2) == 0 {
					f.before = c.interfere
				}
				if faults && c.r.Intn(4) == 0 {
					at := c.r.Intn(2)
					code := []int32{50, 13, 8000, 121}[c.r.Intn(4)]
					f.reject = func(_ string, n int) (int32, string) {
						if n == at {
							return code, "Injected"
						}
						return 0, ""
					}
				}
				c.step()
			}
			h.caseDone(func() string { return c.desc + " " + strings.Join(c.trace, " ") })
		}()
	}
}

// TestVerifMongoOpen: the set-up of indexes and of the expiry.
func TestVerifMongoOpen(t *testing.T) {
	h := newVerifH(t, "mongo-open")
	defer h.done()
	for i := 0; i < h.n(120) && h.ok(); i++ {
		func() {
			r := h.rand(i)
			f, err := newFakeMongo()
			if err != nil {
				t.Skip("no loopback network")
			}
			defer f.close()
			period := []time.Duration{0, 1500 * time.Millisecond, time.Hour, 72 * time.Hour, 10000 * time.Hour}[r.Intn(5)]
			cfg := &mongodb.Config{URI: f.uri(), Database: "ratus", Collection: "tasks", RetentionPeriod: period, DisableIndexCreation: r.Intn(6) == 0}
			old := time.Duration(-1)
			if r.Intn(2) == 0 {
				old = []time.Duration{time.Second, time.Hour, 72 * time.Hour}[r.Intn(3)]
				c2 := *cfg
				c2.RetentionPeriod, c2.DisableIndexCreation = old, false
				if g, err := mongodb.New(&c2); err == nil && g.Open(context.Background()) == nil {
					g.Close(context.Background())
				}
			}
			fail := ""
			switch r.Intn(5) {
			case 0:
				fail = "createIndexes"
			case 1:
				fail = "collMod"
			}
			code := []int32{13, 8000}[r.Intn(2)]
			left := 1 + r.Intn(2)
			f.mu.Lock()
			f.log = nil
			f.reject = func(name string, n int) (int32, string) {
				if name == fail && left > 0 {
					left--
					return code, "Injected"
				}
				return 0, ""
			}
			f.mu.Unlock()
			g, err := mongodb.New(cfg)
			if err != nil {
				h.check(false, "C29", func() string { return "New: " + err.Error() })
				return
			}
			ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
			defer stop()
			err = g.Open(ctx)
			defer g.Close(ctx)
			f.mu.Lock()
			defer f.mu.Unlock()
			failed := false
			for _, l := range f.log {
				failed = failed || l.Injected
			}
			msg := func() string {
				return fmt.Sprintf("Open with retention period %v, index creation disabled %v, earlier period %v, %s rejected %v returned %v; indexes: %+v", period, cfg.DisableIndexCreation, old, fail, failed, err, f.indexes)
			}
			h.check((err != nil) == failed, "C29,C35", func() string { return "errors: " + msg() })
			if err == nil && !cfg.DisableIndexCreation {
				n, ttl := map[string]bool{}, 0
				for _, x := range f.indexes {
					n[x.Name] = true
					if x.Expire != nil {
						ttl++
						s := time.Duration(*x.Expire) * time.Second
						h.check(s > period-time.Second && s < period+time.Second, "C35", func() string { return "period: " + msg() })
						h.check(len(x.Keys) == 1 && x.Keys[0].Key == "consumed" && len(x.Partial) == 1 && x.Partial[0].Key == "state" && integer(x.Partial[0].Value) == int(ratus.TaskStateCompleted), "C35", func() string { return "expires completed tasks only: " + msg() })
					}
				}
				h.check(ttl == 1, "C35", func() string { return "expiry requested: " + msg() })
				h.check(n["topic_hashed"] && n["topic_1_scheduled_1"] && n["deadline_1"] && n["topic_1"], "C29", func() string { return "indexes: " + msg() })
			}
			if cfg.DisableIndexCreation {
				h.check(len(f.log) == 0, "C29", func() string { return "no indexes if disabled: " + msg() })
			}
			fail = ""
			h.caseDone(msg)
		}()
	}
}
