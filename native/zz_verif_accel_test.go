package rudd

import "math"

// dAccel starts some histories late: after a number of quantifications that no test can wait for.
func dAccel(w *dW) {
	if w.r.Intn(6) == 0 {
		w.b.quantsetID = math.MaxInt32 - 1 - int32(w.r.Intn(6))
		for i := range w.b.quantset {
			w.b.quantset[i] = int32(w.r.Intn(20))
		}
		w.log("(after %d quantifications)", w.b.quantsetID)
	}
}
