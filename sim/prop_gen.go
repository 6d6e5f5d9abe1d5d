package verifsim

import "strings"

// C17: generated passwords meet the settings of the menu.

const menuPrompt = "u/l/n/b/e/"

// menuScript is a walk through the password menu that ends by accepting a
// generated or a typed password; p is the typed one.
func (r *Rand) menuScript(n int) (as []Ans, p string) {
	say := func(s string) { as = append(as, Ans{M: menuPrompt, R: s}) }
	for k := r.N(n + 1); k > 0; k-- {
		kind := passKinds[r.N(5)].key
		switch r.N(16) {
		case 0, 1, 2:
			say(kind)
		case 3, 4:
			say(kind + " " + sprint(r.N(12)))
		case 5:
			say(kind + " " + r.pick([]string{"-1", "-7", "0", "31", "32", "33", "100", "x", "1.5", "99999999999999999999", "4000000000000000000"}))
		case 6, 7:
			say(sprint(1 + r.N(40)))
		case 8:
			say(r.pick([]string{"0", "1", "2", "-1", "-32", "255", "256", "257", "512", "600", "768", "1024", "4096", "65536", "65537", "100000"}))
		case 9:
			say(r.pick([]string{"", " ", "\t", "   "}))
		case 10, 11:
			say("c")
		case 12:
			say("?")
		case 13:
			say(r.pick([]string{"Y", "yes", "q", "u5", "-", "länge", "12a", "U", "ul", "u l", "0x10"}))
		case 14:
			a, b := r.pick([]string{"one", "", "zwölf", "a b"}), r.pick([]string{"other", "x"})
			say("m")
			as = append(as, Ans{M: "enter new password", R: a}, Ans{M: "verify password", R: b})
		case 15:
			say("")
		}
	}
	switch r.N(8) {
	case 0:
		p = r.pick([]string{"hunter2", "correct horse", "ünï", "\"quoted\" , pass", " lead", "x"})
		say("m")
		as = append(as, Ans{M: "enter new password", R: p}, Ans{M: "verify password", R: p})
	default:
		// settings that can be met
		say("y")
		say("20")
		say("u 1")
		for _, k := range passKinds {
			say(k.key + " 1")
		}
		say("c")
		say("y")
	}
	return as, p
}

// genOracle checks everything password menus displayed.
type genOracle struct {
	run  *Run
	seen map[string]string
}

func (o *genOracle) session(p *Proc) {
	a := p.agent
	run := o.run
	if s := p.crashedBadly(); s != "" {
		run.fail("crash", "%s\n%s", s, p.story())
		return
	}
	strong := false
	check := func(ex []Exchange, from string) (string, string) {
		has := false
		for _, e := range ex {
			has = has || strings.HasPrefix(e.Prompt, menuPrompt)
		}
		if !has {
			return "", ""
		}
		m := newMenu(a)
		pass, end := m.walk(ex, func(f string, v ...any) {
			run.fail("menu", "%s: "+f, append([]any{from}, v...)...)
		})
		for i, s := range m.passwords {
			run.nontrivial = true
			run.w.probe("generated")
			if m.bits[i] < 64 || p.sess.Rnd != "" {
				continue
			}
			strong = true
			if was := o.seen[s]; was != "" {
				run.fail("fresh", "%s generates %q again, first seen in %s", from, s, was)
			}
			o.seen[s] = from
		}
		return pass, end
	}
	who := "session " + sprint(p.stepIdx)
	for i := range a.s.Ops {
		check(a.inOp(i), who+" "+a.s.Ops[i].Line)
	}
	if p.subcommand() && p.args[1] == "gen" {
		var ex []Exchange
		for _, e := range a.hist {
			if e.Op < 0 {
				ex = append(ex, e)
			}
		}
		pass, end := check(ex, who)
		switch end {
		case "y", "m":
			last := ex[len(ex)-1]
			out := stripANSI(string(p.out.Bytes()[last.OutPos:]))
			if out != pass+"\n" || p.code != 0 {
				run.fail("menu", "gen prints %q, status %d, after %q was accepted", out, p.code, pass)
			}
		case "^D", "^C", "^E":
			if p.code == 0 {
				run.fail("menu", "gen ends with status 0 after %s", end)
			}
		}
	}
	if strong && p.rndRead < 8 {
		run.fail("fresh", "%s generates passwords from %d random bytes", who, p.rndRead)
	}
}

func genSession(r *Rand, n int) Session {
	s := Session{Args: []string{"gen"}, Gap: int64(r.N(1000)) * 1e9}
	s.Start, _ = r.menuScript(n)
	if r.P(1, 8) {
		s.Start = append(s.Start[:r.N(len(s.Start)):len(s.Start)], Ans{M: "", R: r.pick([]string{"^D", "^C"})})
	}
	if r.P(1, 3) {
		s.Rnd = r.pick([]string{"zero", "ones", "alt", "low", "high", "count", "mixed"})
	}
	return s
}

func init() {
	register(&Property{ID: "C17", Rule: "one run is a series of password menus, of gen or inside a session; non-trivial when a password was generated",
		Scens: []*Scenario{
			{Name: "gen", Weight: 3,
				Gen: func(r *Rand, tier string) *Plan {
					pl := &Plan{Devs: []DevPlan{{Env: map[string]string{}}}, K: map[string]int64{}}
					pl.Devs[0].ClipErr = r.P(1, 10)
					for k := 1 + r.N(5); k > 0; k-- {
						pl.Steps = append(pl.Steps, Step{Sess: []Session{genSession(r, 14)}})
					}
					return pl
				},
				Setup: genHooks},
			{Name: "vault", Weight: 3,
				Gen: func(r *Rand, tier string) *Plan {
					pl, g := soloGen(r, tier, 2, 3, 10)
					g.menus = true
					for i := range pl.Steps {
						s := &pl.Steps[i].Sess[0]
						g.ctx = ""
						pre := []Op{{Line: "cd", Do: "cd"}}
						if i == 0 {
							pre = nil
						}
						for k := 1 + r.N(4); k > 0; k-- {
							switch r.N(6) {
							case 0, 1:
								pre = append(pre, g.add())
							case 2:
								p, _ := g.passAns()
								pre = append(pre, Op{Line: "passwd", Do: "passwd", Ans: p})
							case 3:
								pre = append(pre, g.addUsers(1)...)
							default:
								n := g.some()
								l, a := g.qa(n, "pass")
								p, _ := g.passAns()
								pre = append(pre, Op{Line: "set " + l + " ", Do: "set", A: a, Ans: p})
							}
						}
						s.Ops = append(pre, s.Ops...)
						if r.P(1, 4) {
							s.Rnd = r.pick([]string{"low", "mixed", "high"})
						}
					}
					readBack(pl)
					return pl
				},
				Setup: func(run *Run) Hooks {
					h, _ := soloHooks(run, "shown contents crash denied")
					after := h.after
					o := &genOracle{run, map[string]string{}}
					h.after = func(step int) {
						after(step)
						for _, p := range run.procs[step] {
							o.session(p)
						}
						run.nontrivial = run.w.stats.Probes["generated"] > 0
					}
					return h
				}},
			{Name: "spread", Weight: 1,
				Gen: func(r *Rand, tier string) *Plan {
					pl := &Plan{Devs: []DevPlan{{Env: map[string]string{}}}, K: map[string]int64{"samples": pick(r, int64(100), 100, 100, 100, 800)}}
					s := Session{Args: []string{"gen"}}
					// one or two kinds, so that each is likely everywhere
					off := r.N(31)
					on := 0
					for k := range passKinds {
						if off>>k&1 == 1 && !(on == 0 && k == 4) {
							s.Start = append(s.Start, Ans{M: menuPrompt, R: passKinds[k].key})
						} else {
							on++
						}
					}
					n := 8 + r.N(40)
					s.Start = append(s.Start, Ans{M: menuPrompt, R: sprint(n)})
					for k := range passKinds {
						if off>>k&1 == 0 && r.P(1, 2) {
							s.Start = append(s.Start, Ans{M: menuPrompt, R: passKinds[k].key + " " + sprint(n/on)})
						}
					}
					for k := 0; k < int(pl.K["samples"]); k++ {
						s.Start = append(s.Start, Ans{M: menuPrompt, R: ""})
					}
					s.Start = append(s.Start, Ans{M: menuPrompt, R: "y"})
					pl.Steps = append(pl.Steps, Step{Sess: []Session{s}})
					return pl
				},
				Setup: func(run *Run) Hooks {
					h := genHooks(run)
					after := h.after
					h.after = func(step int) {
						after(step)
						for _, p := range run.procs[step] {
							spread(run, p)
						}
					}
					return h
				}}}})
}

func genHooks(run *Run) Hooks {
	o := &genOracle{run, map[string]string{}}
	return Hooks{after: func(step int) {
		for _, p := range run.procs[step] {
			o.session(p)
		}
	}}
}

// spread looks at many passwords of the same settings: every enabled
// character turns up, and every kind turns up at every place.
func spread(run *Run, p *Proc) {
	var ex []Exchange
	for _, e := range p.agent.hist {
		if e.Op < 0 {
			ex = append(ex, e)
		}
	}
	m := newMenu(p.agent)
	m.walk(ex, nil)
	var ps []string
	for _, s := range m.passwords {
		if len(s) == m.len && m.conforms(s) == "" {
			ps = append(ps, s)
		}
	}
	k := int(run.plan.K["samples"])
	if len(ps) < k || k == 0 {
		return // cut short by minimisation
	}
	ps = ps[len(ps)-k:] // after the last setting
	on := 0.0
	for _, n := range m.least {
		if n >= 0 {
			on++
		}
	}
	free, need := m.len, 0
	for _, n := range m.least {
		if n > 0 {
			free -= n
			need += n
		}
	}
	all := strings.Join(ps, "")
	for i, kind := range passKinds {
		n := m.least[i]
		if n < 0 {
			continue
		}
		// expected share of the kind
		share := (float64(n) + float64(free)/on) / float64(m.len)
		// improbable to be missing by chance: less than e^-40
		if share/float64(len(kind.chars))*float64(len(all)) > 60 {
			for _, c := range kind.chars {
				if !strings.ContainsRune(all, c) {
					run.fail("spread", "%q never occurs in %d passwords with %s", c, k, m)
					return
				}
			}
		}
		// a remainder of a random byte is a little uneven, and the backslash
		// is there twice; half and less are eight standard deviations away
		if mean := share / float64(len(kind.chars)) * float64(len(all)); mean > 250 {
			for _, c := range kind.chars {
				n := float64(strings.Count(all, string(c))) / mean
				if n < 0.5 || n > 2.5 {
					run.fail("spread", "%q occurs %.2f times as often as it should in %d passwords with %s", c, n, k, m)
					return
				}
				run.w.probe("counted")
			}
		}
		if share*float64(k) < 45 {
			continue
		}
		for at := 0; at < m.len; at++ {
			hit := false
			for _, s := range ps {
				hit = hit || strings.IndexByte(kind.chars, s[at]) >= 0
			}
			if !hit {
				run.fail("spread", "no character of kind %s at place %d in %d passwords with %s", kind.key, at+1, k, m)
				return
			}
		}
	}
}
