// Package simtime stands in for the package time in the simulated code: the wall clock of
// the simulated nodes is decided by the simulator, not by the machine it runs on.
package simtime

import "time"

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	Timer      = time.Timer
	Ticker     = time.Ticker
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC

	ParseDuration   = time.ParseDuration
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Date            = time.Date
	FixedZone       = time.FixedZone
	LoadLocation    = time.LoadLocation

	NewTimer  = func(d Duration) *Timer { Advance(d); return time.NewTimer(0) }
	NewTicker = time.NewTicker
	After     = func(d Duration) <-chan Time { Advance(d); return time.After(0) }
	AfterFunc = func(d Duration, f func()) *Timer { Advance(d); return time.AfterFunc(0, f) }
	Tick      = time.Tick
)

// Clock is the wall clock of the node which is running, set by the simulator.
var Clock func() time.Time

// Advance makes simulated time pass.
var Advance = func(d Duration) {}

func Now() Time {
	if Clock == nil {
		return time.Unix(0, 0).UTC()
	}
	return Clock()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { Advance(d) }
