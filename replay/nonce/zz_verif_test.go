package nonce_test

import (
	"fmt"
	"testing"

	"github.com/hyperonym/ratus/internal/nonce"
)

func TestVerifNonce(t *testing.T) {
	h := newVerifH(t, "nonce")
	defer h.done()
	for i := 0; i < h.n(3000) && h.ok(); i++ {
		n := i % 70
		if i%50 == 49 {
			n = i
		}
		h.caseDone(func() string { return fmt.Sprintf("nonce of length %d, the %dth call of the run", n, i) })
		s := nonce.Generate(n)
		h.check(len(s) == n, "C25", func() string { return fmt.Sprintf("Generate(%d) returns %q of length %d", n, s, len(s)) })
		for _, c := range []byte(s) {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				h.check(false, "C25", func() string { return fmt.Sprintf("Generate(%d) returns %q with %q", n, s, c) })
			}
		}
	}
}
