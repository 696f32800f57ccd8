// Code generated by shimgen. DO NOT EDIT.

package signal

import (
	real "os/signal"
	"simmod/simrt"
)

var _ = simrt.Cur

var Ignored = simrt.UnsupFunc(real.Ignored, "os/signal.Ignored")
var NotifyContext = simrt.UnsupFunc(real.NotifyContext, "os/signal.NotifyContext")
