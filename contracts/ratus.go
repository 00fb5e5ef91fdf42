//go:build verif

// Contracts of the root package: errors.
package contracts

//@ package github.com/hyperonym/ratus
//@ default panic-free C17
//@
//@ define closed(e) = is(e, context.Canceled) || is(e, io.ErrUnexpectedEOF) || is(e, ratus.ErrClientClosedRequest)
//@ define ofKind(e) = is(e, ratus.ErrBadRequest) || is(e, ratus.ErrNotFound) || is(e, ratus.ErrConflict) || is(e, ratus.ErrServiceUnavailable)
// An error of several kinds has the code of one of them.
//@ define codeFits(c, e) = ite(closed(e), c == 499, ite(c == 400, is(e, ratus.ErrBadRequest), ite(c == 404, is(e, ratus.ErrNotFound),
//@    ite(c == 409, is(e, ratus.ErrConflict), ite(c == 503, is(e, ratus.ErrServiceUnavailable), c == 500 && !ofKind(e))))))
//@
//@ func NewError(err) (res)
//@ requires err != nil
//@ ensures C17 code: res != nil && codeFits(res.Error.Code, err)
//@ ensures C17 message: res.Error.Message == errmsg(err)
//@ opaque
//@
//@ define restored(e, err, code, kind) = e.Error.Code == code ==> is(err, kind) && keepsMessage(e.Error.Message, errmsg(err), errmsg(kind))
//@ define keepsMessage(m, text, prefix) = ite(hasprefix(m, prefix), text == m, hassuffix(text, m))
//@ func (*Error).Err(e) (err)
//@ requires e != nil
//@ ensures C17 client-closed: restored(e, err, 499, ratus.ErrClientClosedRequest)
//@ ensures C17 bad-request: restored(e, err, 400, ratus.ErrBadRequest)
//@ ensures C17 not-found: restored(e, err, 404, ratus.ErrNotFound)
//@ ensures C17 conflict: restored(e, err, 409, ratus.ErrConflict)
//@ ensures C17 internal: restored(e, err, 500, ratus.ErrInternalServerError)
//@ ensures C17 unavailable: restored(e, err, 503, ratus.ErrServiceUnavailable)
//@ ensures C17 other: e.Error.Code != 499 && e.Error.Code != 400 && e.Error.Code != 404 && e.Error.Code != 409 && e.Error.Code != 500 && e.Error.Code != 503
//@    ==> err != nil && errmsg(err) == e.Error.Message
//@
//@ func govcRoundTrip(err) (res)
//@ requires err != nil
//@ define only(e, kind) = is(e, kind) && (is(e, ratus.ErrBadRequest) ==> kind == ratus.ErrBadRequest) && (is(e, ratus.ErrNotFound) ==> kind == ratus.ErrNotFound)
//@    && (is(e, ratus.ErrConflict) ==> kind == ratus.ErrConflict) && (is(e, ratus.ErrServiceUnavailable) ==> kind == ratus.ErrServiceUnavailable) && !closed(e)
//@ ensures C17 client-closed: closed(err) ==> is(res, ratus.ErrClientClosedRequest)
//@ ensures C17 bad-request: only(err, ratus.ErrBadRequest) ==> is(res, ratus.ErrBadRequest)
//@ ensures C17 not-found: only(err, ratus.ErrNotFound) ==> is(res, ratus.ErrNotFound)
//@ ensures C17 conflict: only(err, ratus.ErrConflict) ==> is(res, ratus.ErrConflict)
//@ ensures C17 unavailable: only(err, ratus.ErrServiceUnavailable) ==> is(res, ratus.ErrServiceUnavailable)
//@ ensures C17 several: !closed(err) && ofKind(err) ==> is(err, ratus.ErrBadRequest) && is(res, ratus.ErrBadRequest) || is(err, ratus.ErrNotFound) && is(res, ratus.ErrNotFound)
//@    || is(err, ratus.ErrConflict) && is(res, ratus.ErrConflict) || is(err, ratus.ErrServiceUnavailable) && is(res, ratus.ErrServiceUnavailable)
//@ ensures C17 other: !closed(err) && !ofKind(err) ==> is(res, ratus.ErrInternalServerError)
//@ ensures C17 message: hassuffix(errmsg(res), errmsg(err))
