package verifsim

import "strings"

// C20: the clipboard holds exactly what was asked for and is cleared at the end.

// copying operations
var clipOps = map[string]bool{"cp": true, "user": true, "pass": true, "email": true, "totp": true, "login": true}

func (g *GState) clipOp() Op {
	n := g.some()
	l, a := g.qa(n)
	switch g.r.N(9) {
	case 0, 1:
		k := g.r.pick([]string{"user", "pass", "email", "notes", "url", "totp", "name", "updated", "nosuch"})
		if g.r.P(1, 3) {
			k = g.key()
		}
		l, a := g.qa(n, k)
		return Op{Line: "cp " + l, Do: "cp", A: a}
	case 2, 3:
		return Op{Line: "pass " + l, Do: "pass", A: a}
	case 4:
		return Op{Line: "user " + l, Do: "user", A: a}
	case 5:
		return Op{Line: "email " + l, Do: "email", A: a}
	case 6:
		return Op{Line: "totp " + l, Do: "totp", A: a}
	case 7:
		o := Op{Line: "login " + l, Do: "login", A: a}
		if g.r.P(1, 5) {
			o.Ans = []Ans{{M: "press enter", R: g.r.pick([]string{"^D", "^C", "x"})}}
		}
		return o
	default:
		l, a := g.qa(n, "pass")
		return Op{Line: "get " + l, Do: "get", A: a}
	}
}

func init() {
	register(&Property{ID: "C20", Rule: "one run is a history of sessions that copy values and end in various ways, some with a failing clipboard or storage; non-trivial when a session copied something",
		Scens: []*Scenario{{Name: "copy", Weight: 1, Variants: 3,
			Gen: func(r *Rand, tier string) *Plan {
				pl, g := soloGen(r, tier, 3, 6, 30)
				if r.P(1, 12) {
					pl.Devs[0].ClipErr = true
				}
				pl.K["victim"] = int64(r.N(len(pl.Steps)))
				for i := range pl.Steps {
					s := &pl.Steps[i].Sess[0]
					if r.P(1, 4) {
						s.Args = append(s.Args, "--no-clear-clip")
					}
					if r.P(1, 6) {
						s.Args = append(s.Args, "--no-color")
					}
					end := len(s.Ops)
					if end > 0 && (s.Ops[end-1].Do == "exit" || s.Ops[end-1].Line == "^C") {
						end--
					}
					tail := append([]Op(nil), s.Ops[end:]...)
					s.Ops = append(s.Ops[:end:end], Op{Line: "cd", Do: "cd"})
					g.ctx = ""
					for k := 1 + r.N(6); k > 0; k-- {
						s.Ops = append(s.Ops, g.clipOp())
						if r.P(1, 5) {
							s.Ops = append(s.Ops, g.mutation())
						}
					}
					s.Ops = append(s.Ops, tail...)
				}
				if r.P(1, 6) {
					// looks into the past
					s := pl.Steps[len(pl.Steps)-1].Sess[0]
					q := Session{Pass: "$", User: "$", Args: []string{"-t", "2100-01-01 00:00:00"}}
					for _, o := range s.Ops {
						if clipOps[o.Do] && o.Ans == nil {
							q.Ops = append(q.Ops, o)
						}
					}
					pl.Steps = append(pl.Steps, Step{Sess: []Session{q}})
				}
				readBack(pl)
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, j := soloHooks(run, "shown crash")
				solo := h.after
				h.after = func(step int) {
					for _, p := range run.procs[step] {
						if p.arg("-t") == "" {
							solo(step)
						}
						clipCheck(run, j, p)
					}
				}
				end := h.end
				h.end = func() {
					if end != nil {
						end()
					}
					run.nontrivial = run.w.stats.Probes["copied"] > 0
				}
				return h
			},
			Mutate: func(r *Rand, pl *Plan, base *Run, v int) *Plan {
				vi := int(pl.K["victim"])
				if vi >= len(base.procs) {
					return nil
				}
				p := base.procs[vi][0]
				s := &pl.Steps[vi].Sess[0]
				if v < 2 {
					n := p.byOp["clip"]
					if n == 0 {
						return nil
					}
					s.Faults = append(s.Faults, Fault{Kind: "clip", Op: "clip", At: 1 + r.N(n), Stay: r.P(1, 3)})
				} else {
					s.Faults = append(s.Faults, storageFault(r, p.events))
				}
				return pl
			}}}})
}

func clipCheck(run *Run, j *judge, p *Proc) {
	a := p.agent
	if p.crashed != "" || p.panicV != nil || p.runaway != "" || j.broken {
		return
	}
	keep := false
	for _, x := range p.args {
		keep = keep || x == "--no-clear-clip"
	}
	for i := range a.s.Ops {
		if i >= len(a.opClip) || !a.opDone(i) {
			break
		}
		got := a.clipIn(i)
		op := &a.s.Ops[i]
		ex := a.inOp(i)
		menu := false
		for _, e := range ex {
			menu = menu || strings.HasPrefix(e.Prompt, menuPrompt)
		}
		if len(got) > 0 && !clipOps[op.Do] && !menu {
			run.fail("shown", "%q put %q on the clipboard\n%s", op.Line, got, p.story())
		}
		if out := a.outOf(i); clipOps[op.Do] {
			said := strings.Count(out, "Failed to copy")
			if a.noClip(i) && said == 0 && strings.Contains(out, "Copied") == (len(got) == 0) {
				run.fail("shown", "%q: the clipboard failed but it says %q\n%s", op.Line, out, p.story())
			}
			if n := strings.Count(out, "Copied "); n != len(got) {
				run.fail("shown", "%q says %q but copied %d values\n%s", op.Line, out, len(got), p.story())
			}
		}
		if len(got) > 0 {
			run.w.probe("copied")
		}
	}
	last := ""
	for i := len(a.opClip) - 1; i >= 0; i-- {
		if got := a.clipIn(i); a.opDone(i) && len(got) > 0 {
			last = got[len(got)-1]
			break
		}
	}
	switch {
	case a.unclear || p.dev.clipErr:
		if out := stripANSI(p.out.String()); !keep && !strings.Contains(out, "failed to clear the clipboard") {
			run.fail("shown", "the clipboard could not be cleared but nothing is said\n%s", p.story())
		}
	case !keep && p.dev.clip != "":
		run.fail("shown", "the clipboard still holds %q after the session\n%s", p.dev.clip, p.story())
	case keep && a.endPos >= 0 && last != "" && p.dev.clip != last:
		run.fail("shown", "the clipboard holds %q after a session with --no-clear-clip that copied %q\n%s", p.dev.clip, last, p.story())
	}
}
