//go:build verif

// Contracts of internal/nonce.
package contracts

//@ package github.com/hyperonym/ratus/internal/nonce
//@
//@ func Generate(n) (res)
//@ requires n >= 0
//@ any j int
//@ kind panic-free C25
//@ ensures C25 length: len(res) == n
//@ ensures C25 alphanumeric: alnum(res)
//@ defines ghost_generated(res)
//@ opaque
