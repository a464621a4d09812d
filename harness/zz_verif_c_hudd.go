//go:build !buddy

package rudd

func (w *cWorld) install() {
	w.b.tables.nodes = vVirtual(w.N, func(i int) huddnode {
		lev, l, h := w.node(i)
		return huddnode{level: lev, low: l, high: h, refcou: vIte(i < 2, _MAXREFCOUNT, int32(vSelU(w.rc, i)&0x3ff))}
	}, func(i int, n huddnode) {
		lev, l, h := w.node(i)
		vAssert(vAnd(n.level == lev, vAnd(n.low == l, n.high == h)), "an operation changes the contents of a node")
		w.rc = vUpdU(w.rc, i, uint64(n.refcou))
	})
}
