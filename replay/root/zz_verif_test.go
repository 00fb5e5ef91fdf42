package ratus_test

// Concrete search: error responses round-trip (C17).

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/hyperonym/ratus"
)

var verifSentinels = []struct {
	err  error
	code int
}{
	{ratus.ErrBadRequest, 400},
	{ratus.ErrNotFound, 404},
	{ratus.ErrConflict, 409},
	{ratus.ErrClientClosedRequest, 499},
	{ratus.ErrInternalServerError, 500},
	{ratus.ErrServiceUnavailable, 503},
}

type verifErr struct {
	msg string
	sub []error
}

func (e *verifErr) Error() string   { return e.msg }
func (e *verifErr) Unwrap() []error { return e.sub }

var verifMsgs = []string{"", ":", ": ", "x", "bad request", "bad request: ", "not found: a", "conflict", "internal server error: conflict", "service unavailable:x", "é%s", "\x00", "conflict: conflict: conflict"}

func verifError(r *rand.Rand, depth int) error {
	if depth == 0 || r.Intn(4) == 0 {
		switch r.Intn(10) {
		case 0:
			return context.Canceled
		case 1:
			return context.DeadlineExceeded
		case 2:
			return io.ErrUnexpectedEOF
		case 3:
			return errors.New(verifMsgs[r.Intn(len(verifMsgs))])
		default:
			return verifSentinels[r.Intn(len(verifSentinels))].err
		}
	}
	m := verifMsgs[r.Intn(len(verifMsgs))]
	switch r.Intn(6) {
	case 0:
		return fmt.Errorf("%w: %s", verifError(r, depth-1), m)
	case 1:
		return fmt.Errorf("%s: %w", m, verifError(r, depth-1))
	case 2:
		return fmt.Errorf("%w", verifError(r, depth-1))
	case 3:
		return fmt.Errorf("%w: %w", verifError(r, depth-1), verifError(r, depth-1))
	case 4:
		return errors.Join(verifError(r, depth-1), verifError(r, depth-1))
	default:
		return &verifErr{m, []error{verifError(r, depth-1)}}
	}
}

func TestVerifErrors(t *testing.T) {
	h := newVerifH(t, "errors")
	for i := 0; i < h.n(20000) && h.ok(); i++ {
		r := h.rand(i)
		err := verifError(r, 1+r.Intn(3))
		desc := func() string { return fmt.Sprintf("NewError of %q", err.Error()) }
		e := ratus.NewError(err)
		// An error of several kinds has the code of one of them.
		codes := map[int]bool{}
		if errors.Is(err, context.Canceled) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, ratus.ErrClientClosedRequest) {
			codes[499] = true
		} else {
			for _, s := range verifSentinels {
				if errors.Is(err, s.err) && s.code != 500 {
					codes[s.code] = true
				}
			}
		}
		if len(codes) == 0 {
			codes[500] = true
		}
		h.check(codes[e.Error.Code], "C17", func() string { return fmt.Sprintf("%s has code %d, expected one of %v", desc(), e.Error.Code, codes) })
		h.check(e.Error.Code >= 400 && e.Error.Code < 600, "C17", func() string { return fmt.Sprintf("%s has code %d", desc(), e.Error.Code) })
		h.check(strings.Contains(e.Error.Message, err.Error()), "C17", func() string { return fmt.Sprintf("%s has message %q", desc(), e.Error.Message) })
		// What a client sees.
		b, _ := json.Marshal(e)
		var e2 ratus.Error
		if utf8.ValidString(e.Error.Message) && json.Unmarshal(b, &e2) == nil {
			back := e2.Err()
			h.check(back != nil, "C17", func() string { return desc() + " is received as no error" })
			want := ratus.ErrInternalServerError
			for _, s := range verifSentinels {
				if s.code == e.Error.Code {
					want = s.err
				}
			}
			h.check(back != nil && errors.Is(back, want), "C17", func() string { return fmt.Sprintf("%s (code %d) is received as %v", desc(), e.Error.Code, back) })
			h.check(back != nil && ratus.NewError(back).Error.Code == e.Error.Code, "C17", func() string { return fmt.Sprintf("%s (code %d) is received as %v", desc(), e.Error.Code, back) })
			h.check(back != nil && strings.HasSuffix(back.Error(), e.Error.Message), "C17", func() string { return fmt.Sprintf("%s is received as %q", desc(), back) })
			if s := sentinelOf(e.Error.Code); strings.HasPrefix(e.Error.Message, s.Error()) {
				h.check(back != nil && back.Error() == e.Error.Message, "C17", func() string { return fmt.Sprintf("%s is received as %q", desc(), back) })
			}
		}
		// Any code and message a server may send.
		var x ratus.Error
		x.Error.Code = []int{400, 401, 404, 409, 418, 499, 500, 501, 502, 503, 504, 0, -1}[r.Intn(13)]
		x.Error.Message = verifMsgs[r.Intn(len(verifMsgs))]
		back := x.Err()
		if s := sentinelOf(x.Error.Code); s != nil {
			h.check(errors.Is(back, s), "C17", func() string { return fmt.Sprintf("code %d and message %q give %v", x.Error.Code, x.Error.Message, back) })
		} else {
			h.check(back != nil && back.Error() == x.Error.Message, "C17", func() string { return fmt.Sprintf("code %d and message %q give %v", x.Error.Code, x.Error.Message, back) })
			for _, s := range verifSentinels {
				h.check(!errors.Is(back, s.err), "C17", func() string { return fmt.Sprintf("code %d and message %q give %v", x.Error.Code, x.Error.Message, back) })
			}
		}
		h.caseDone(desc)
	}
	h.done()
}

func sentinelOf(code int) error {
	for _, s := range verifSentinels {
		if s.code == code {
			return s.err
		}
	}
	return nil
}
