package verifsim

import "strings"

// C15: the exit status tells whether the session's work was stored.

func init() {
	register(&Property{ID: "C15", Rule: "one run is a history of sessions that end normally, by interrupt, by refusal or with failing storage; non-trivial when at least one session saved something",
		Scens: []*Scenario{{Name: "status", Weight: 1, Variants: 6,
			Gen: func(r *Rand, tier string) *Plan {
				pl, _ := soloGen(r, tier, 4, 5, 10)
				fileArgs(r, pl)
				pl.Devs[0].ClipErr = r.P(1, 5)
				pl.K["victim"] = int64(r.N(len(pl.Steps)))
				for i := range pl.Steps {
					s := &pl.Steps[i].Sess[0]
					for k := range s.Ops {
						if o := &s.Ops[k]; len(o.Ans) > 0 && r.P(1, 6) {
							o.Ans[r.N(len(o.Ans))].R = r.pick([]string{"^D", "^C"})
						}
					}
					switch r.N(12) {
					case 0:
						s.Def = []Ans{{"passphrase: ", r.pick([]string{"wrong", "", "^C", "^D"})}}
					case 1:
						v := "other"
						if i == 0 {
							v = almost(r, s.Pass)
						}
						s.Def = []Ans{{"verify passphrase: ", v}}
					}
				}
				readBack(pl)
				switch r.N(5) {
				case 0:
					pl.Steps = append(pl.Steps, Step{Sess: []Session{{Args: []string{"version"}, Role: "cmd", Pass: "$"}}})
				case 1:
					pl.Steps = append(pl.Steps, Step{Sess: []Session{{Args: []string{"gen"}, Role: "cmd", Def: []Ans{{"u/l/n/b/e/", r.pick([]string{"y", "y", "^C", "^D"})}}}}})
				case 2:
					pl.Steps = append(pl.Steps, Step{Sess: []Session{{Args: []string{"-f", r.pick([]string{"/home/u", "/home/u/nodir/x", "/home/u/.config"})}, Role: "bad", Pass: "x"}}})
				case 3:
					pl.Steps = append(pl.Steps, Step{Sess: []Session{{Args: []string{"export", r.pick([]string{"out.csv", "nodir/out.csv", "/home/u/.config"})}, Role: "export", Pass: "$", User: "$"}}})
				}
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, j := soloHooks(run, "status")
				solo := h.after
				h.after = func(step int) {
					for _, p := range run.procs[step] {
						switch p.sess.Role {
						default:
							solo(step)
						case "cmd":
							abort := false
							for _, e := range p.agent.hist {
								abort = abort || strings.HasPrefix(e.Reply, "^")
							}
							if bad := p.code != 0; bad != abort {
								run.fail("status", "%v (aborted: %v) ends with status %d", p.args[1:], abort, p.code)
							}
						case "bad":
							if p.code == 0 {
								run.fail("status", "%v ends with status 0", p.args[1:])
							}
						case "export":
							out := p.args[len(p.args)-1]
							want := out == "out.csv"
							if j.model(p).exists && want != (p.code == 0) && p.fired == 0 {
								run.fail("status", "%v ends with status %d: %q", p.args[1:], p.code, p.out.String())
							}
						}
					}
				}
				return h
			},
			Mutate: func(r *Rand, pl *Plan, base *Run, v int) *Plan {
				vi := int(pl.K["victim"])
				if vi >= len(base.procs) {
					return nil
				}
				p := base.procs[vi][0]
				s := &pl.Steps[vi].Sess[0]
				s.Faults = append(s.Faults, storageFault(r, p.events))
				return pl
			}}}})
}
