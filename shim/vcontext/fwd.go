// Code generated by /verif/tools/gen. DO NOT EDIT.

package context

import std "context"

var AfterFunc = std.AfterFunc
var Background = std.Background

type CancelCauseFunc = std.CancelCauseFunc
type CancelFunc = std.CancelFunc

var Canceled = std.Canceled
var Cause = std.Cause

type Context = std.Context

var DeadlineExceeded = std.DeadlineExceeded
var TODO = std.TODO
var WithCancel = std.WithCancel
var WithCancelCause = std.WithCancelCause
var WithValue = std.WithValue
var WithoutCancel = std.WithoutCancel
