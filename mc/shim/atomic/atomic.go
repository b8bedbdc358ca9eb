// Package atomic mirrors sync/atomic: the real operation (so the race detector
// sees it) between scheduling points.
package atomic

import (
	"unsafe"

	"verifmc/vrt"
)

func pt(p unsafe.Pointer) *vrt.Obj {
	if !vrt.Active() || vrt.Dead() {
		return nil
	}
	o := vrt.Keyed(p, func() interface{} { return new(vrt.Obj) }).(*vrt.Obj)
	vrt.Point(o, "atomic")
	return o
}

func after(o *vrt.Obj) {
	if o != nil {
		vrt.Point(o, "atomic.done")
	}
}
