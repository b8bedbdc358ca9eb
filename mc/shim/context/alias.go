// Code generated by cmd/genalias. DO NOT EDIT.

package context

import real "context"

var Background = real.Background

type CancelCauseFunc = real.CancelCauseFunc
type CancelFunc = real.CancelFunc

var Canceled = real.Canceled

type Context = real.Context

var DeadlineExceeded = real.DeadlineExceeded
var TODO = real.TODO
var WithValue = real.WithValue
