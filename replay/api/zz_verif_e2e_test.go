package router_test

// Concrete search: the client against the real API and the in-memory engine
// (C17, C18, C21, C22).

import (
	"context"
	"errors"
	"fmt"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"

	"github.com/hyperonym/ratus"
	"github.com/hyperonym/ratus/internal/config"
	"github.com/hyperonym/ratus/internal/controller"
	"github.com/hyperonym/ratus/internal/engine/memdb"
	"github.com/hyperonym/ratus/internal/middleware"
	"github.com/hyperonym/ratus/internal/router"
)

var verifE2ENames = []string{"a", "topic", "x y", "a/b", "a+b", "a+b/c", "%2F", "100%", "a?b=c", "a#b", "é/ü", "..", ".", "a;b,c", ":id", "*", "\\", "a&b=c", "日本", "a//b", " ", "+", "\x7f", "a\nb", "~", "'\"<>", "{x}|^`", "@:", "a=b"}

func TestVerifEndToEnd(t *testing.T) {
	h := newVerifH(t, "end-to-end")
	gin.SetMode(gin.ReleaseMode)
	ctx := context.Background()
	const props = "C18,C21"
	for i := 0; i < h.n(400) && h.ok(); i++ {
		r := h.rand(i)
		g, err := memdb.New(&memdb.Config{})
		if err != nil || g.Open(ctx) != nil {
			t.Fatal(err)
		}
		s := httptest.NewServer(router.New(&controller.V1{
			Pagination: middleware.Pagination(&config.PaginationConfig{MaxLimit: 50, MaxOffset: 100}),
			Topic:      controller.NewTopicController(g), Task: controller.NewTaskController(g), Promise: controller.NewPromiseController(g),
			Health: controller.NewHealthController(g), Metrics: controller.NewMetricsController(g),
		}))
		c, err := ratus.NewClient(&ratus.ClientOptions{Origin: s.URL})
		if err != nil {
			t.Fatal(err)
		}
		name := func() string {
			n := verifE2ENames[r.Intn(len(verifE2ENames))]
			for r.Intn(3) == 0 {
				n += verifE2ENames[r.Intn(len(verifE2ENames))]
			}
			return n
		}
		log := ""
		desc := func() string { return log }
		step := func(f string, a ...any) { log += fmt.Sprintf(f, a...) + "\n" }
		// two tasks of different topics
		id1, id2, t1, t2 := name(), name(), name(), name()
		if id1 == id2 || t1 == t2 {
			s.Close()
			continue
		}
		for _, x := range []*ratus.Task{{ID: id1, Topic: t1, Payload: "p1"}, {ID: id2, Topic: t2, Payload: "p2"}} {
			v, err := c.InsertTask(ctx, x)
			step("insert %q of %q: %v %v", x.ID, x.Topic, v, err)
			h.check(err == nil && v.Created == 1, props, desc)
		}
		all := func() bool {
			a, err := c.GetTask(ctx, id1)
			b, err2 := c.GetTask(ctx, id2)
			step("get %q: %+v %v; get %q: %+v %v", id1, a, err, id2, b, err2)
			return err == nil && err2 == nil && a.ID == id1 && a.Topic == t1 && a.Payload == "p1" && b.ID == id2 && b.Topic == t2 && b.Payload == "p2"
		}
		h.check(all(), props, desc)
		v, err := c.GetTopic(ctx, t1)
		step("topic %q: %v %v", t1, v, err)
		h.check(err == nil && v.Name == t1 && v.Count == 1, props, desc)
		l, err := c.ListTasks(ctx, t2, 10, 0)
		step("tasks of %q: %v %v", t2, l, err)
		h.check(err == nil && len(l) == 1 && l[0].ID == id2, props, desc)
		// an empty name addresses nothing
		for k, f := range []func() error{
			func() error { _, err := c.DeleteTopic(ctx, ""); return err },
			func() error { _, err := c.GetTopic(ctx, ""); return err },
			func() error { _, err := c.DeleteTask(ctx, ""); return err },
			func() error { _, err := c.GetTask(ctx, ""); return err },
			func() error { _, err := c.DeletePromise(ctx, ""); return err },
			func() error { _, err := c.GetPromise(ctx, ""); return err },
		} {
			err := f()
			step("operation %d on an empty name: %v", k, err)
			h.check(errors.Is(err, ratus.ErrNotFound), props, desc)
		}
		h.check(all(), props, desc)
		// claim and commit
		x, err := c.Poll(ctx, t1, &ratus.Promise{Consumer: "c"})
		step("poll %q: %v", t1, err)
		if h.check(err == nil && x.Task.ID == id1, props+",C22", desc) {
			p, err := c.GetPromise(ctx, id1)
			step("promise: %v %v", p, err)
			h.check(err == nil && p.ID == id1 && p.Consumer == "c", props, desc)
			err = x.Commit()
			a, err2 := c.GetTask(ctx, id1)
			step("commit: %v; get %+v %v", err, a, err2)
			h.check(err == nil && err2 == nil && a.State == ratus.TaskStateCompleted && a.Nonce == "", props+",C22", desc)
		}
		// deleting one topic leaves the other
		d, err := c.DeleteTopic(ctx, t1)
		_, e1 := c.GetTask(ctx, id1)
		b, e2 := c.GetTask(ctx, id2)
		step("delete topic %q: %v %v; get %v; get %+v %v", t1, d, err, e1, b, e2)
		h.check(err == nil && d.Deleted == 1 && errors.Is(e1, ratus.ErrNotFound) && e2 == nil && b.ID == id2, props, desc)
		s.Close()
		g.Close(ctx)
		h.caseDone(desc)
	}
	h.done()
}
