package verifsim

import (
	"fmt"
	"strings"
)

func sprint(v any) string { return fmt.Sprint(v) }

// soloGen makes several sessions of one user on one device.
func soloGen(r *Rand, tier string, sessions, opsMax, readPct int) (*Plan, *GState) {
	g := newGState(r)
	dp := DevPlan{Env: map[string]string{}}
	if r.P(1, 2) {
		g.editor = r.pick([]string{"vim", "nano", "my-editor"})
		dp.Programs = append(dp.Programs, g.editor)
		if r.P(1, 5) {
			// it has to be found
			dp.Programs = []string{r.pick([]string{"vim", "code", "atom", "sublime", "emacs", "nano"})}
		} else {
			dp.Env["EDITOR"] = g.editor
		}
	}
	if r.P(1, 2) {
		dp.Programs = append(dp.Programs, "xdg-open")
	}
	pl := &Plan{Devs: []DevPlan{dp}, K: map[string]int64{}}
	n := 2 + r.N(sessions)
	for i := 0; i < n; i++ {
		s := Session{Pass: "$", User: "$", Gap: int64(r.N(100000)) * 1e9}
		if i == 0 {
			s.Pass = g.pass
		}
		s.Ops = g.ops(1+r.N(opsMax), readPct)
		s.NoWait = r.P(1, 6)
		if r.P(1, 4) {
			s.Tabs = 1 + r.N(6)
		}
		switch r.N(14) {
		case 0:
			s.Ops = append(s.Ops, Op{Line: "exit", Do: "exit"})
		case 1:
			if i > 0 {
				s.Ops = append(s.Ops, Op{Line: "^C"})
			}
		}
		pl.Steps = append(pl.Steps, Step{Sess: []Session{s}})
	}
	return pl, g
}

// fileArgs lets all sessions of a plan use the same non-default file.
func fileArgs(r *Rand, pl *Plan) {
	switch r.N(7) {
	case 3:
		// it need not be where the link is, nor exist
		pl.Devs[0].Files = append(pl.Devs[0].Files, FilePlan{Path: "/home/u/real/vault", Dir: true},
			FilePlan{Path: "/home/u/real/link", Link: r.pick([]string{"vault/v", "./v", "../real/vault/v", "/home/u/real/v", "link2"})},
			FilePlan{Path: "/home/u/real/link2", Link: "vault/v2"})
		pl.Devs[0].Env["BPASS"] = r.pick([]string{"/home/u/real/link", "real/link"})
	case 0:
		for i := range pl.Steps {
			for j := range pl.Steps[i].Sess {
				s := &pl.Steps[i].Sess[j]
				s.Args = append(s.Args, r.pick([]string{"-f", "--file"}), r.pick([]string{"/home/u/my.blob", "my.blob", "./my.blob"}))
			}
		}
	case 1:
		pl.Devs[0].Env["BPASS"] = "/home/u/env.blob"
	case 2:
		pl.Devs[0].Files = append(pl.Devs[0].Files, FilePlan{Path: "/home/u/real/vault", Dir: true},
			FilePlan{Path: "/home/u/.bpass", Link: "real/the-vault"})
	}
}

// readBack is a session that looks at everything.
func readBack(pl *Plan) {
	pl.Steps = append(pl.Steps, Step{Sess: []Session{{Pass: "$", User: "$", Role: "readback"}}})
}

// readBackOps fills a read-back session from the model.
func readBackOps(m *Model) []Op {
	ops := []Op{{Line: "ls", Do: "ls"}}
	for _, n := range sortedKeys(m.ents) {
		ops = append(ops, Op{Line: "show " + n, Do: "show", A: []string{n}})
		ops = append(ops, Op{Line: "get " + n + " updated", Do: "get", A: []string{n, "updated"}})
		for _, k := range sortedKeys(m.ents[n]) {
			if k == "totp" || len(strings.Fields(k)) != 1 {
				continue
			}
			ops = append(ops, Op{Line: "get " + n + " " + k, Do: "get", A: []string{n, k}})
		}
	}
	return ops
}

func soloHooks(run *Run, report string) (Hooks, *judge) {
	j := newJudge(run, report)
	h := Hooks{}
	h.before = func(step int) {
		for i := range run.plan.Steps[step].Sess {
			s := &run.plan.Steps[step].Sess[i]
			if s.Role == "readback" {
				for _, k := range sortedKeys(j.models) {
					s.Ops = readBackOps(j.models[k])
				}
			}
		}
	}
	h.after = func(step int) {
		for _, p := range run.procs[step] {
			if v := j.session(p); v != nil && len(v.Log) > 0 {
				run.nontrivial = true
			}
		}
	}
	return h, j
}

func init() {
	register(&Property{ID: "C02", Rule: "one run is a history of 3 to 7 sessions of one user; non-trivial when at least one session saved changes", Scens: []*Scenario{
		{Name: "history", Weight: 4,
			Gen: func(r *Rand, tier string) *Plan {
				pl, _ := soloGen(r, tier, 4, 14, 35)
				fileArgs(r, pl)
				readBack(pl)
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, _ := soloHooks(run, "contents torn shown crash denied opened dated")
				return h
			}},
	}})
	register(&Property{ID: "C03", Rule: "one run is a history of sessions with refused, aborted and interrupted commands; non-trivial when at least one session saved changes", Scens: []*Scenario{
		{Name: "aborts", Weight: 4,
			Gen: func(r *Rand, tier string) *Plan {
				pl, _ := soloGen(r, tier, 5, 12, 10)
				if r.P(1, 25) {
					s := &pl.Steps[0].Sess[0]
					s.Def = append(s.Def, Ans{"verify passphrase: ", almost(r, s.Pass)})
				}
				for i := range pl.Steps {
					for k := range pl.Steps[i].Sess[0].Ops {
						o := &pl.Steps[i].Sess[0].Ops[k]
						if len(o.Ans) > 0 && r.P(1, 4) {
							o.Ans[r.N(len(o.Ans))].R = r.pick([]string{"^D", "^D", "^D", "^D", "^D", "^D", "^D", "^D", "^C"})
						}
					}
				}
				readBack(pl)
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, _ := soloHooks(run, "contents torn stale rewritten changed crash denied")
				return h
			}},
	}})
}
