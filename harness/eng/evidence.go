package eng

import (
	"encoding/binary"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// Evidence is the evidence file.
type Evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	Wall        float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`

	evals, nontr int
}

type partStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"distinct_nontrivial"`
	Workers     int            `json:"workers"`
	CutShort    bool           `json:"cut_short_by_time_budget"`
	Labels      map[string]int `json:"labels"`
}

func summarize(p *Prop, tier string, seed int, tasks []*task) *Evidence {
	ev := &Evidence{Property: p.ID, Tier: tier, Seed: seed, Level: "exploration", Assumptions: p.Assumptions}
	parts := map[string]*partStats{}
	seen := map[string]map[uint64]struct{}{}
	var samples []interface{}
	nsamp := map[string]int{}
	var rules []string
	for _, part := range p.Parts {
		parts[part.Name] = &partStats{Labels: map[string]int{}}
		seen[part.Name] = map[uint64]struct{}{}
		rules = append(rules, part.Name+": "+part.Rule)
	}
	for _, t := range tasks {
		if t.res == nil {
			continue
		}
		ps := parts[t.part.Name]
		ps.Workers++
		ps.Evaluations += t.res.Evals
		ps.CutShort = ps.CutShort || t.res.Cut
		for l, n := range t.res.Labels {
			ps.Labels[l] += n
		}
		hs, _ := os.ReadFile(t.sh.Out + ".hashes")
		for ; len(hs) >= 8; hs = hs[8:] {
			seen[t.part.Name][binary.LittleEndian.Uint64(hs)] = struct{}{}
		}
		for i, s := range t.res.Samples {
			// The last one per worker is the largest case kept.
			if i == len(t.res.Samples)-1 && nsamp[t.part.Name] < 2 {
				nsamp[t.part.Name]++
				samples = append(samples, map[string]interface{}{"part": t.part.Name, "case": s})
			}
		}
	}
	for name, s := range seen {
		parts[name].NonTrivial = len(s)
		ev.nontr += len(s)
		ev.evals += parts[name].Evaluations
	}
	ev.Coverage = map[string]interface{}{
		"evaluations":         ev.evals,
		"distinct_nontrivial": ev.nontr,
		"rule":                strings.Join(rules, " | "),
		"samples":             samples,
		"parts":               parts,
	}
	return ev
}

func writeEvidence(ev *Evidence) error {
	d := filepath.Join(Root, "evidence")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(d, ev.Property+".json"), append(b, '\n'), 0o644)
}
