package props

import (
	"fmt"

	"github.com/henderiw/idxtable/zverif/pbt"
	"k8s.io/apimachinery/pkg/labels"
)

// Crowded cases begin with hundreds or thousands of entries or calls and then go
// on as any other: they reach what changes with the number of entries (thresholds,
// growth, reorganisation) and how the calls after it work.

// crowd draws the number of entries a case begins with: 0 in most cases.
func crowd(c *pbt.C, most int) int {
	if c.NoCrowd || !c.Chance(1, max(c.CrowdDen, 500)) {
		return 0
	}
	k := 4 << c.Int(10)
	k = min(k+c.Int(k), most)
	c.Crowded()
	return k
}

// season goes on with many toggles of the n entries a crowded case began with:
// a held one is released, a released one claimed again; what changes with the
// number of calls (counters, thresholds, reorganisation) is reached. each is
// the cost of a toggle.
func season(c *pbt.C, n, each int, toggle func(i int)) {
	mode := c.Int(4)
	if mode == 0 || n == 0 {
		return
	}
	steps := min(100<<c.Int(9), 4_000_000/each)
	x := c.U64(0)
	for i := 0; i < steps; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		k := int((x >> 33) % uint64(n))
		switch mode {
		case 1: // mostly full
			toggle(k)
			toggle(k)
		case 2: // half full
			toggle(k)
		case 3: // one after another
			toggle(i % n)
		}
	}
	c.Label("many calls before")
	c.Logf("%d x Release or Claim of them", steps)
}

// crowdIDs calls f for up to k different ids of 0..last in some order.
func crowdIDs(c *pbt.C, k int, last uint64, f func(i int, id uint64)) {
	mode := c.Int(5)
	x := uint64(0)
	if mode == 3 || mode == 4 {
		x = c.U64(0)
	}
	seen := map[uint64]bool{}
	n := 0
	for i := uint64(0); n < k && i < 20*uint64(k); i++ {
		id := i
		switch mode {
		case 1: // from the last one down
			id = last - i
		case 2: // with gaps
			id = i + i/3
		case 3: // all over
			x = x*6364136223846793005 + 1442695040888963407
			id = x >> 13
		case 4: // near the first ones, in no order
			x = x*6364136223846793005 + 1442695040888963407
			id = (x >> 33) % uint64(k+k/4+1)
		}
		id = clampMod(id, last)
		if !seen[id] {
			seen[id] = true
			f(n, id)
			n++
		}
	}
}

func crowdLabels(i int) labels.Set {
	switch i % 5 {
	case 0:
		return nil
	case 1:
		return labels.Set{"a": "x"}
	case 2:
		return labels.Set{"a": "y", "owner": "x"}
	case 3:
		return labels.Set{"b": "x"}
	}
	return labels.Set{"owner": "y", "b": fmt.Sprint(i)}
}
