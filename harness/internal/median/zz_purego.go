package median

import z "github.com/mlnoga/nightlight/internal/zzverif"

// The portable implementation, which other machines use.
//
//verif:harness Q03 w=1..5 h=1..3
//verif:thorough w=1..8 h=1..5
//verif:reach filtered
func ZZ_Q03_portable() {
	zzFilter(z.Param("w"), z.Param("h"), medianFilter3x3PureGo)
}
