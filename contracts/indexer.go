//go:build verif

// Contracts of the index builders of internal/engine/memdb.
package contracts

//@ package github.com/hyperonym/ratus/internal/engine/memdb
//@
//@ define msRange(t) = ms(t) >= -9223372036854775808 && ms(t) < 9223372036854775808
//@
//@ func govcStateKey(f, t) (ok, key, err)
//@ kind panic-free C12
//@ requires t != nil
//@ ensures C12 no-error: err == nil
//@ ensures C12 selected: ok <==> t.State == f
//@ ensures C12 one-byte: ok ==> len(key) == 1
//@
//@ func govcStateArg(f, v) (key, err)
//@ kind panic-free C12
//@ ensures C12 other-kind: argkind(v) != 5 ==> err != nil
//@ ensures C12 other-state: argkind(v) == 5 && argint(v) != f ==> err != nil
//@ ensures C12 accepted: argkind(v) == 5 && argint(v) == f ==> err == nil && len(key) == 1
//@
//@ func govcStateSame(f, t) (ok, same)
//@ kind panic-free C12
//@ requires t != nil
//@ ensures C12 selected-key: ok ==> same
//@
//@ func (*StateFieldIndex).FromArgs(i, args) (key, err)
//@ kind panic-free C12
//@ requires i != nil
//@ ensures C12 single-argument: len(args) != 1 ==> err != nil
//@
//@ func (*TimeFieldIndex).FromArgs(i, args) (key, err)
//@ kind panic-free C12
//@ requires i != nil
//@ ensures C12 single-argument: len(args) != 1 ==> err != nil
//@
//@ func govcTimeArg(field, v) (key, err)
//@ kind panic-free C12
//@ ensures C12 other-type: !argtime(v) ==> err != nil
//@ ensures C12 accepted: argtime(v) ==> err == nil && len(key) == 8
//@
//@ func govcTimeKey(field, t) (ok, key, err)
//@ kind panic-free C12
//@ requires t != nil
//@ define noTime(v) = v == nil
//@ ensures C12 scheduled: field == "Scheduled" ==> err == nil && (ok <==> t.Scheduled != nil)
//@ ensures C12 consumed: field == "Consumed" ==> err == nil && (ok <==> t.Consumed != nil)
//@ ensures C12 deadline: field == "Deadline" ==> err == nil && (ok <==> t.Deadline != nil)
//@ ensures C12 eight-bytes: ok ==> len(key) == 8
//@ ensures C12 other-field: field == "ID" || field == "State" ==> !ok
//@
//@ func govcTimeOrder(field, a, b) (cmp, ok)
//@ kind panic-free C12
//@ requires msRange(a) && msRange(b)
//@ ensures C12 encoded: ok
//@ ensures C12 less: cmp < 0 <==> ms(a) < ms(b)
//@ ensures C12 greater: cmp > 0 <==> ms(a) > ms(b)
//@
//@ func govcTimeOrderKeys(t, b) (found, cmp, ok)
//@ kind panic-free C12
//@ requires t != nil && msRange(b) && (t.Scheduled != nil ==> msRange(*t.Scheduled))
//@ ensures C12 encoded: ok
//@ ensures C12 less: found ==> (cmp < 0 <==> ms(t.Scheduled) < ms(b))
//@ ensures C12 greater: found ==> (cmp > 0 <==> ms(t.Scheduled) > ms(b))
