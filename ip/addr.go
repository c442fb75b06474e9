//go:build go1.25

package j8a

import (
	"encoding/json"
	"testing"
)

// client addresses found in network event messages, all by one extractor
func vRunExtract(t *testing.T, raw json.RawMessage) (any, error) {
	var in, out []string
	if err := json.Unmarshal(raw, &in); err != nil {
		return nil, err
	}
	x := iprex{}
	for _, s := range in {
		out = append(out, x.extractAddr(s))
	}
	return out, nil
}

func init() { vOps["extract"] = vRunExtract }
