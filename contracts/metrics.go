//go:build verif

// Contracts of internal/metrics.
package contracts

//@ package github.com/hyperonym/ratus/internal/metrics
//@
//@ func Label(s) (res)
//@ kind panic-free C19
//@ ensures C19 valid: validutf8(res)
//@ ensures C20 unchanged: validutf8(s) ==> res == s
//@ opaque
