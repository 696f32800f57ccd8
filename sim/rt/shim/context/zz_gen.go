// Code generated by shimgen. DO NOT EDIT.

package context

import (
	real "context"
	"simmod/simrt"
)

var _ = simrt.Cur

var AfterFunc = simrt.UnsupFunc(real.AfterFunc, "context.AfterFunc")

type CancelCauseFunc = real.CancelCauseFunc

var Cause = simrt.UnsupFunc(real.Cause, "context.Cause")
var WithCancelCause = simrt.UnsupFunc(real.WithCancelCause, "context.WithCancelCause")
var WithDeadlineCause = simrt.UnsupFunc(real.WithDeadlineCause, "context.WithDeadlineCause")
var WithTimeoutCause = simrt.UnsupFunc(real.WithTimeoutCause, "context.WithTimeoutCause")
var WithoutCancel = simrt.UnsupFunc(real.WithoutCancel, "context.WithoutCancel")
