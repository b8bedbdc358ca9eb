// Package runtime mirrors the standard package on the virtual runtime.
package runtime

import (
	real "runtime"

	"verifmc/vrt"
)

func Gosched() { vrt.Yield() }

func NumGoroutine() int {
	if !vrt.Active() {
		return 1
	}
	return vrt.Live(false) + 1
}

func Goexit() { real.Goexit() }
