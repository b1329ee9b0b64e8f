package stats

import "math"

func zzSqrt(x float64) float32 { return float32(math.Sqrt(x)) }
