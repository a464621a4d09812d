package rudd

import (
	"fmt"
	"time"
)

// Native confirmation of schedules found by the solver: releases run in another goroutine.

func vFinOf(h Node) func(*int) {
	vFinMu.Lock()
	defer vFinMu.Unlock()
	f := vFins[h]
	delete(vFins, h)
	return f
}

func vStress(secs int) string {
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for round := 0; time.Now().Before(end); round++ {
		if s := vStressHandles(); s != "" {
			return fmt.Sprintf("round %d: %s", round, s)
		}
		if s := vStressTable(round); s != "" {
			return fmt.Sprintf("round %d: %s", round, s)
		}
	}
	return ""
}

// handles of one node are made while others are released
func vStressHandles() string {
	b, err := New(2, Nodesize(50), Cachesize(10))
	if err != nil {
		return "New fails"
	}
	n := b.Makenode(0, 0, b.varset[1][0])
	const K = 400
	var hs []Node
	var fs []func(*int)
	for i := 0; i < K; i++ {
		h := b.Retnode(n)
		hs = append(hs, h)
		fs = append(fs, vFinOf(h))
	}
	for r := 0; r < 50; r++ {
		done := make(chan int)
		go func(hs []Node, fs []func(*int)) {
			for i := range fs {
				if fs[i] != nil {
					fs[i](hs[i])
				}
			}
			close(done)
		}(hs, fs)
		var h2 []Node
		for i := 0; i < K; i++ {
			h2 = append(h2, b.Retnode(n))
		}
		<-done
		hs, fs = h2, nil
		for _, h := range hs {
			fs = append(fs, vFinOf(h))
		}
		if _, _, _, rc := b.bGet(n); rc != K {
			return fmt.Sprintf("%d handles of a node are live, its reference count is %d", K, rc)
		}
	}
	return ""
}

// handles of many nodes are released while nodes are created, collected, and the table grows
func vStressTable(round int) string {
	V := 12
	b, err := New(V, Nodesize(4000), Cachesize(10), Minfreenodes(20+80*(round%2)))
	if err != nil {
		return "New fails"
	}
	const P, K = 1500, 40
	var ids []int
	seen := map[int]bool{}
	lit := func(v, s int) int { return b.varset[v][s&1] }
	for i := 0; i < P; i++ {
		l := i % 4
		v, w := 4+(i/4)%8, 4+(i/32)%8
		lo, hi := lit(v, i/256), lit(w, i/512)
		if i >= 1024 {
			lo = i % 2
		}
		id := b.Makenode(int32(l), lo, hi)
		if id < 2 || seen[id] {
			continue
		}
		seen[id] = true
		ids = append(ids, id)
		b.Pushref(id)
	}
	rc := map[int]int{}
	var hs []Node
	var fs []func(*int)
	for j := 0; j < K; j++ {
		for _, id := range ids {
			if _, _, _, r := b.bGet(id); r >= int(_MAXREFCOUNT)-K {
				continue
			}
			h := b.Retnode(id)
			rc[id]++
			if j > 0 {
				hs = append(hs, h)
				fs = append(fs, vFinOf(h))
			}
		}
	}
	b.Popref(len(ids))
	done := make(chan int)
	go func() {
		for i := range fs {
			if fs[i] != nil {
				fs[i](hs[i])
			}
		}
		close(done)
	}()
	// garbage
	k := 0
	for stop := false; !stop && b.size() < 200000; k++ {
		select {
		case <-done:
			stop = true
		default:
		}
		l := k % 3
		x := ids[k%len(ids)]
		y := ids[(k/len(ids)+k*7)%len(ids)]
		if b.level(x) > int32(l) && b.level(y) > int32(l) {
			b.Makenode(int32(l), x, y)
		}
	}
	<-done
	for id := range rc {
		lev, lo, _, r := b.bGet(id)
		live := 0
		if rc[id] > 0 {
			live = 1
		}
		if r != live || lo == -1 && live == 1 {
			return fmt.Sprintf("node %d (level %d) has %d live handles, its reference count is %d after releases during node creation", id, lev, live, r)
		}
	}
	return ""
}
