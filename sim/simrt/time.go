package simrt

import "time"

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// TimeNow, TimeSince and TimeSleep stand in for time.Now, time.Since and
// time.Sleep in instrumented code.
func TimeNow() time.Time                  { return epoch.Add(time.Duration(Now())) }
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeSleep(d time.Duration)           { Sleep(int64(d)) }
