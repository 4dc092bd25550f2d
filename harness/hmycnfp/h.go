// Package hmycnfp checks the buffer pool arithmetic.
package hmycnfp

import (
	"github.com/cybozu-go/moco/pkg/mycnf"
	vf "github.com/cybozu-go/moco/zzvf"
)

// Buffer: the buffer pool fits in the memory.
func Buffer() {
	t := vf.Int64("total", 0, 1<<vf.Param("bits", 50))
	b := mycnf.ZzBuffer(t)
	vf.Assert(b >= 128<<20, "at least 128 MiB")
	vf.Assert(b&(1<<20-1) == 0, "whole MiB")
	if b > 128<<20 {
		vf.Reach("big")
		q := t / 100
		vf.Assert(b <= q*70, "at most 70% of the memory")
		vf.Assert(b > q*70-1<<20, "about 70% of the memory")
	}
	vf.Reach("end")
}
