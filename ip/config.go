//go:build go1.25

package j8a

import (
	"encoding/json"
	"testing"
)

type vCfgRes struct {
	Refused  string
	Conn     Connection
	Policies map[string]Policy
	Routes   []vCfgRoute
	Res      map[string][]ResourceMapping
	Jwt      map[string]vCfgJwt
}
type vCfgRoute struct {
	Path, Transform, Resource, Policy, Jwt string
}
type vCfgJwt struct {
	Name, Alg, Skew, Key string
}

// derive the effective configuration from yml the way the server does on start
func vRunConfig(t *testing.T, raw json.RawMessage) (any, error) {
	var yml string
	if err := json.Unmarshal(raw, &yml); err != nil {
		return nil, err
	}
	res := &vCfgRes{Res: map[string][]ResourceMapping{}, Jwt: map[string]vCfgJwt{}}
	rt, msg := vBoot(yml)
	if rt == nil {
		res.Refused = "panic " + msg
		return res, nil
	}
	res.Conn = rt.Connection
	res.Policies = rt.Policies
	for _, r := range rt.Routes {
		res.Routes = append(res.Routes, vCfgRoute{r.Path, r.Transform, r.Resource, r.Policy, r.Jwt})
	}
	res.Res = rt.Resources
	for k, j := range rt.Jwt {
		res.Jwt[k] = vCfgJwt{j.Name, j.Alg, j.AcceptableSkewSeconds, j.Key}
	}
	return res, nil
}

func init() { vOps["config"] = vRunConfig }
