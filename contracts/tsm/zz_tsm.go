package tsm

import (
	"context"
	"time"

	vf "github.com/NubeDev/bacnet/zzvf"
)

var _ = vf.Requires

const zzSoon = 20 * time.Millisecond

func zzTake(t *TSM) (int, error) {
	ctx, cancel := context.WithTimeout(context.Background(), zzSoon)
	defer cancel()
	return t.ID(ctx)
}

func zzIn(open []int, id int) bool {
	for _, o := range open {
		if o == id {
			return true
		}
	}
	return false
}

func zzWithout(open []int, id int) (r []int) {
	for _, o := range open {
		if o != id {
			r = append(r, o)
		}
	}
	return r
}

// zzStep is one operation on a manager with some open transactions; it gives
// those open afterwards.
func zzStep(t *TSM, size int, open []int, op uint8, id int) []int {
	switch op {
	case 0:
		got, err := zzTake(t)
		vf.Ensures("an id is given exactly while there is room", (err == nil) == (len(open) < size))
		if err != nil {
			return open
		}
		vf.Ensures("an id is between 1 and 254", got >= 1 && got <= 254)
		vf.Ensures("an id is none of those in use", !zzIn(open, got))
		return append(append([]int{}, open...), got)
	case 1:
		err := t.Put(id)
		vf.Ensures("released exactly if it was in use", (err == nil) == zzIn(open, id))
		return zzWithout(open, id)
	case 2:
		if zzIn(open, id) {
			return open // it waits for its receiver: see exchange
		}
		err := t.Send(id, 1)
		vf.Ensures("sending to an id not in use is refused", err != nil)
	case 3:
		_, err := t.Receive(id, zzSoon)
		vf.Ensures("nothing was sent", err != nil)
	}
	return open
}

// Histories of any five operations on managers of one to three transactions.
//
//vf:lemma
//vf:prop C19
//vf:bounded 600
func zz_tsm_history(size uint8, o1, o2, o3, o4, o5 uint8, i1, i2, i3, i4, i5 int) {
	vf.Assume(size >= 1 && size <= 3)
	n := 1
	if size == 2 {
		n = 2
	}
	if size == 3 {
		n = 3
	}
	t := New(n)
	var open []int
	open = zzStep(t, n, open, o1&3, i1)
	open = zzStep(t, n, open, o2&3, i2)
	open = zzStep(t, n, open, o3&3, i3)
	open = zzStep(t, n, open, o4&3, i4)
	open = zzStep(t, n, open, o5&3, i5)
	// what is left can be filled, and no more
	for len(open) < n {
		open = zzStep(t, n, open, 0, 0)
	}
	_, err := zzTake(t)
	vf.Ensures("no more open transactions than configured", err != nil)
}

// Taking an id under a context that has ended gives one or takes nothing.
//
//vf:lemma
//vf:prop C19
func zz_tsm_ended(two bool) {
	n := 1
	if two {
		n = 2
	}
	t := New(n)
	for i := 0; i < 6; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		id, err := t.ID(ctx)
		if err == nil {
			vf.Ensures("the id is released", t.Put(id) == nil)
		}
	}
	var open []int
	for i := 0; i <= n; i++ {
		open = zzStep(t, n, open, 0, 0)
	}
	vf.Ensures("as many open transactions as configured", len(open) == n)
}

// All ids are in use: any that is released is the next one given.
//
//vf:lemma
//vf:prop C19
func zz_tsm_all(x int) {
	t := New(300)
	var used [255]bool
	for k := 0; k < 254; k++ {
		id, err := zzTake(t)
		vf.Ensures("an id is given while there is one", err == nil)
		if err != nil {
			return
		}
		vf.Ensures("an id is between 1 and 254", id >= 1 && id <= 254)
		if id < 1 || id > 254 {
			return
		}
		vf.Ensures("an id is none of those in use", !used[id])
		used[id] = true
	}
	_, err := zzTake(t)
	vf.Ensures("no id is left", err != nil)
	err = t.Put(x)
	vf.Ensures("released exactly if it was in use", (err == nil) == (x >= 1 && x <= 254))
	id, err2 := zzTake(t)
	vf.Ensures("an id is given again exactly after one is released", (err2 == nil) == (err == nil))
	if err2 == nil {
		vf.Ensures("the one released", id == x)
	}
}

// What is sent to a transaction is received by it, and by no other.
//
//vf:lemma
//vf:prop C19
func zz_tsm_exchange(b []byte, second bool) {
	t := New(3)
	one, e1 := zzTake(t)
	two, e2 := zzTake(t)
	vf.Ensures("two transactions", e1 == nil && e2 == nil && one != two)
	to, no := one, two
	if second {
		to, no = two, one
	}
	go t.Send(to, b)
	_, err := t.Receive(no, zzSoon)
	vf.Ensures("no other transaction receives it", err != nil)
	got, err := t.Receive(to, zzSoon)
	vf.Ensures("the transaction receives it", err == nil)
	if err == nil {
		g, ok := got.([]byte)
		vf.Ensures("as it was sent", ok)
		vf.EnsuresSeq("unchanged", g, b)
	}
	_, err = t.Receive(to, zzSoon)
	vf.Ensures("once", err != nil)
	vf.Ensures("its id is still in use", t.Put(to) == nil)
	vf.Ensures("and released once", t.Put(to) != nil)
	vf.Ensures("receiving from a released id is refused", func() bool { _, err := t.Receive(to, zzSoon); return err != nil }())
	vf.Ensures("sending to a released id is refused", t.Send(to, b) != nil)
}
