//go:build go1.24

package mon

import "time"

var began = time.Now()

func cpuNow() time.Duration { return time.Since(began) }
