package verifsim

import "strings"

// C07: histories that have nothing in common are merged only with consent.

func sharesTx(a, b []RTx) bool {
	m := countTx(a)
	for _, t := range b {
		if m[t] > 0 {
			return true
		}
	}
	return false
}

const mergeAnyway = "merge these anyway"

func unrelatedGen(r *Rand, tier string) *Plan {
	pl := &Plan{K: map[string]int64{"own": 1, "resolve": int64(r.N(2))}, S: map[string]string{}}
	nd := 2
	if r.P(1, 3) {
		nd = 3
	}
	first := newGState(r)
	pl.S["pass"] = first.pass
	var gs []*GState
	for i := 0; i < nd; i++ {
		dp := DevPlan{Env: map[string]string{"EDITOR": "vim"}, Programs: []string{"vim"}}
		if i > 0 && r.P(1, 3) {
			dp.ClockOff = int64(r.N(2000)-1000) * 1e9
		}
		pl.Devs = append(pl.Devs, dp)
		g := newGState(r)
		g.tag, g.pass, g.exact, g.editor = string(rune('a'+i)), first.pass, true, "vim"
		gs = append(gs, g)
	}
	answer := func(s *Session, a string) {
		s.Def = []Ans{{"Save this host", "y"}, {"[R]estore", []string{"r", "d"}[pl.K["resolve"]]}, {mergeAnyway, a}, {"use remote cred", r.pick([]string{"y", "n"})}}
		if s.Role == "" && r.P(1, 3) {
			// no answer at all, asked again
			odd := func() Ans {
				return Ans{mergeAnyway, r.pick([]string{"", "", "maybe", "Yes", "yess", "ye", "1", "y n", "true", "ok", "j"})}
			}
			s.Start = append(s.Start, odd())
			for i := range s.Ops {
				if s.Ops[i].Do == "sync" {
					s.Ops[i].Ans = append(s.Ops[i].Ans, odd())
				}
			}
		}
	}
	any := func() string {
		return r.pick([]string{"y", "y", "yes", "Y", "YES", "n", "n", "no", "NO", "N", "^D", "^C"})
	}
	remote := addRemote(r, pl, true)
	// who sets up the remote, and when, is open
	for _, d := range r.perm(nd) {
		g := gs[d]
		s := Session{Dev: d, Pass: g.pass, Gap: int64(r.N(5000)) * 1e9}
		for k := 1 + r.N(3); k > 0; k-- {
			s.Ops = append(s.Ops, g.add())
		}
		rest := Session{Dev: d, Pass: g.pass, Gap: int64(r.N(5000)) * 1e9, Ops: []Op{remote}}
		if r.P(1, 3) {
			rest.Args = []string{"--no-sync"}
		}
		answer(&rest, any())
		if r.P(1, 2) {
			s.Ops = append(s.Ops, rest.Ops...)
			s.Args, s.Def = rest.Args, rest.Def
			pl.Steps = append(pl.Steps, Step{Sess: []Session{s}})
			continue
		}
		pl.Steps = append(pl.Steps, Step{Sess: []Session{s}}, Step{Sess: []Session{rest}})
	}
	for k := 2 + r.N(5); k > 0; k-- {
		d := r.N(nd)
		s := Session{Dev: d, Pass: first.pass, Gap: int64(r.N(5000)) * 1e9}
		for n := r.N(4); n > 0; n-- {
			if r.P(1, 4) {
				s.Ops = append(s.Ops, Op{Line: "sync", Do: "sync"})
			} else {
				s.Ops = append(s.Ops, gs[d].mutation())
			}
		}
		answer(&s, any())
		if r.P(1, 6) {
			s.Args = []string{"--no-sync"}
		}
		pl.Steps = append(pl.Steps, Step{Sess: []Session{s}})
	}
	pl.K["settle"] = int64(nd * (nd + 1))
	for k := 0; k < nd+1; k++ {
		for d := 0; d < nd; d++ {
			s := Session{Dev: d, Pass: first.pass, Gap: 60e9, Role: "settle"}
			answer(&s, "y")
			pl.Steps = append(pl.Steps, Step{Sess: []Session{s}})
		}
	}
	return pl
}

func init() {
	register(&Property{ID: "C07", Rule: "one run is a history of 2 or 3 devices that each made a file of their own and are then pointed to the same place, with every answer to the question whether to merge, followed by a few rounds in which it is answered yes; non-trivial when the question was asked",
		Scens: []*Scenario{{Name: "unrelated", Weight: 1, Gen: unrelatedGen,
			Setup: func(run *Run) Hooks {
				h, o := syncHooks(run, "crash diverged stale lost overwritten")
				after, end := h.after, h.end
				asks := 0
				h.after = func(step int) {
					p := run.procs[step][0]
					old := o.logs[p.dev.name]
					after(step)
					if p.crashed != "" || p.crashedBadly() != "" || o.invalid {
						return
					}
					now := o.logs[p.dev.name]
					rm := run.plan.remotes()[0]
					var theirs []RTx
					if b := o.rbefore[0]; b != nil {
						v, err := o.pass(b)
						if err != nil {
							return
						}
						theirs = v.Log
					}
					asked, yes := 0, false
					for _, e := range p.agent.hist {
						if strings.Contains(e.Prompt, mergeAnyway) {
							asked++
							yes = yes || e.Reply == "y" || e.Reply == "Y" || e.Reply == "yes" || e.Reply == "YES"
						}
					}
					asks += asked
					related := sharesTx(old, theirs)
					b, _ := run.remoteRead(rm)
					switch {
					case asked > 0 && len(theirs) == 0:
						run.fail("asked", "%s on %s asks whether to merge with a remote that is not there", p.story(), p.dev.name)
					case asked > 0 && related:
						run.fail("asked", "%s on %s says that the remote has nothing in common with the local file, but it has", p.story(), p.dev.name)
					case !related && !yes:
						if t := firstShared(now, theirs); t != nil {
							run.fail("unasked", "%s on %s took over %s from an unrelated file without consent", p.story(), p.dev.name, txStr(*t))
						}
						if len(theirs) > 0 && string(b) != string(o.rbefore[0]) {
							run.fail("unasked", "%s on %s replaced an unrelated file at the remote without consent", p.story(), p.dev.name)
						}
					}
				}
				h.end = func() {
					end()
					run.nontrivial = asks > 0
				}
				return h
			}}}})
}

func firstShared(a, b []RTx) *RTx {
	m := countTx(b)
	for i := range a {
		if m[a[i]] > 0 {
			return &a[i]
		}
	}
	return nil
}
