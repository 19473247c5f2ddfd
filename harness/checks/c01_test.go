package checks

import (
	"testing"

	"pgregory.net/rapid"

	"jverif/gen"
)

// TestC01: default output is byte-identical to encoding/json.
func TestC01(t *testing.T) {
	run(t, func(t *rapid.T) {
		p := gen.General()
		p.NoExt = gen.Chance(t, 85)
		if gen.Chance(t, 50) {
			p.Special = 0
		}
		typ := p.Type(t, 0)
		for i := 0; i < 3; i++ {
			c := newCase(t, typ, p.Value(t, typ), gen.None())
			if c.judge(withStd) && (depthOf(typ) > 0 || c.Err != nil) {
				nontrivial(hash(typ, c.Got, c.Err), c.short)
			}
		}
	})
	sweep(t, sizesC01)
}
