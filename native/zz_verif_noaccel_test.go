package rudd

func dAccel(w *dW) {}
