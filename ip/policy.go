//go:build go1.25

package j8a

import (
	"encoding/json"
	"sync"
	"testing"
)

type vLabels struct {
	P []LabelWeight
	N int // draws per goroutine
	G int
}
type vLabelsRes struct {
	Count map[string]int
	Pairs map[string]int // "a|b" for consecutive, non-overlapping draws of one goroutine
	After []LabelWeight
}

// resolve a shared policy from several goroutines
func vRunLabels(t *testing.T, raw json.RawMessage) (any, error) {
	var c vLabels
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	p := Policy(c.P)
	res := &vLabelsRes{Count: map[string]int{}, Pairs: map[string]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < c.G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			seq := make([]string, c.N)
			for i := range seq {
				seq[i] = p.resolveLabel()
			}
			mu.Lock()
			defer mu.Unlock()
			for i, s := range seq {
				res.Count[s]++
				if i%2 == 1 {
					res.Pairs[seq[i-1]+"|"+s]++
				}
			}
		}()
	}
	wg.Wait()
	res.After = []LabelWeight(p)
	return res, nil
}

func init() { vOps["labels"] = vRunLabels }
