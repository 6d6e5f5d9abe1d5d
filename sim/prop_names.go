package verifsim

import (
	"fmt"
	"strings"
)

// C21: whatever devices add on their own, every name in a file means one entry.

// sameName adds an entry or renames one, maybe like another device does.
func (g *GState) sameName(r *Rand) Op {
	switch {
	case r.P(1, 6):
		// a second way to sync to the same place
		return Op{Line: "addsync file", Do: "addsync", A: []string{"file"}, Ans: []Ans{{"path: ", "/mnt/share/" + r.pick([]string{"more", "other"})}}}
	case r.P(1, 4) && len(g.names) > 0:
		from := g.some()
		to := g.newName()
		g.drop(from)
		g.names = append(g.names, to)
		return Op{Line: "mv " + from + " " + to, Do: "mv", A: []string{from, to}}
	}
	return g.add()
}

// sameUser adds a user, or lets one that was added work with the file.
func (g *GState) sameUser(r *Rand, s *Session) []Op {
	if len(g.users) > 1 && r.P(1, 2) {
		i := 1 + r.N(len(g.users)-1)
		if len(s.Ops) == 0 {
			s.User, s.Pass = g.users[i], g.userPass[i]
			if r.P(1, 2) {
				p := g.word()
				g.userPass[i] = p
				return []Op{{Line: "passwd", Do: "passwd", Ans: manual(p)}}
			}
			return []Op{g.add()}
		}
	}
	u := r.pick([]string{"bob", "bob", "eve", "bob1"})
	for _, x := range g.users {
		if x == u {
			return []Op{{Line: "ls", Do: "ls"}}
		}
	}
	p := g.word()
	g.users = append(g.users, u)
	g.userPass = append(g.userPass, p)
	return []Op{{Line: "adduser " + u, Do: "adduser", A: []string{u}, Ans: manual(p)}}
}

// namesOracle checks that names are unambiguous.
type namesOracle struct {
	o     *syncOracle
	run   *Run
	typed map[string]bool
	cred  map[string][]string // device and user: passwords
}

func (n *namesOracle) file(where string, b []byte) {
	v, err := n.o.pass(b)
	if err != nil {
		return
	}
	eff, err := v.effective()
	if err != nil {
		return
	}
	by := map[string]string{}
	for _, u := range sortedKeys(eff) {
		name := eff[u]["name"]
		if name == "" {
			n.run.fail("nameless", "%s has an entry without a name: %.8s %v", where, u, eff[u])
			continue
		}
		if x, ok := by[name]; ok {
			n.run.fail("ambiguous", "%s has two entries called %q: %.8s and %.8s", where, name, x, u)
			return
		}
		by[name] = u
	}
	// names change as asked, or to tell entries apart
	last := map[string]string{}
	for _, t := range v.Log {
		if t.Kind != "setk" || t.Key != "name" {
			continue
		}
		old, ok := last[t.UUID]
		last[t.UUID] = t.Value
		if !ok || n.typed[t.Value] {
			continue
		}
		if strings.Trim(strings.TrimPrefix(t.Value, old), "1") != "" {
			// the other order of two renames
			base := strings.TrimRight(t.Value, "1")
			fine := false
			for x := range n.typed {
				fine = fine || strings.TrimRight(x, "1") == base
			}
			if !fine {
				n.run.fail("renamed", "%s: entry %.8s was renamed from %q to %q, which nobody asked for", where, t.UUID, old, t.Value)
			}
			continue
		}
		n.run.w.probe("renamed")
		n.run.nontrivial = true
	}
	hs := map[string]bool{}
	for _, u := range v.users {
		if hs[string(u.hash)] {
			n.run.fail("ambiguous", "%s can be opened with one user name in two ways", where)
			return
		}
		hs[string(u.hash)] = true
	}
}

func (n *namesOracle) after(step int) {
	run := n.run
	for _, p := range run.procs[step] {
		for i, op := range p.sess.Ops {
			switch {
			case op.Do == "add" && len(op.A) > 0:
				n.typed[op.A[0]] = true
			case op.Do == "mv" && len(op.A) > 1:
				n.typed[op.A[1]] = true
			case op.Do == "adduser" && len(op.A) > 0 && len(op.Ans) == 3 && p.agent.opDone(i):
				n.typed["user/"+op.A[0]] = true
				k := p.dev.name + "|" + op.A[0]
				if p.code == 0 && p.crashed == "" && strings.Contains(p.agent.outOf(i), "added user") {
					n.cred[k] = append(n.cred[k], op.Ans[1].R)
				}
			case op.Do == "passwd" && len(op.Ans) == 3 && p.agent.opDone(i):
				k := p.dev.name + "|" + p.sess.User
				if n.cred[k] != nil {
					n.cred[k] = append(n.cred[k], op.Ans[1].R)
				}
			}
		}
	}
	if len(run.procs[step]) != 1 {
		return
	}
	p := run.procs[step][0]
	if p.crashed != "" || p.code != 0 {
		return
	}
	if b, ok := p.dev.fs.read(p.vaultFile()); ok {
		n.file(fmt.Sprintf("after %s the file of %s", p.story(), p.dev.name), b)
	}
	for i, r := range run.plan.remotes() {
		b, ok := run.remoteRead(r)
		if ok && string(b) != string(n.o.rbefore[i]) {
			n.file(fmt.Sprintf("after %s on %s remote %d", p.story(), p.dev.name, i), b)
		}
	}
}

// users checks that everybody can still open the file.
func (n *namesOracle) users() {
	b, ok := n.run.w.devs[0].fs.read(vaultPath)
	if !ok {
		return
	}
	used := map[string]bool{}
	for _, k := range sortedKeys(n.cred) {
		_, u, _ := strings.Cut(k, "|")
		if base := strings.TrimRight(u, "1"); !used[base] {
			used[base] = true
		}
		found := false
		for name := strings.TrimRight(u, "1"); len(name) < len(u)+6 && !found; name += "1" {
			for _, p := range n.cred[k] {
				if _, err := openVault(b, name, p); err == nil {
					found = true
				}
			}
		}
		if !found {
			n.run.fail("locked", "user %q added on %s can no longer open the file under any name, passwords %q", u, k, n.cred[k])
		}
		n.run.w.probe("user-opens")
	}
}

func init() {
	names := func(name string, w int, so syncOpts) *Scenario {
		so.names = true
		return &Scenario{Name: name, Weight: w, Gen: func(r *Rand, tier string) *Plan {
			pl, _ := syncGen(r, tier, so)
			for d := range pl.Devs {
				pl.Steps = append(pl.Steps, Step{Sess: []Session{{Dev: d, User: pl.S["user"], Pass: pl.S["pass"], Role: "look", Args: []string{"--no-sync"}}}})
			}
			return pl
		}, Setup: func(run *Run) Hooks {
			h, o := syncHooks(run, "crash diverged lost overwritten stale")
			n := &namesOracle{o: o, run: run, typed: map[string]bool{}, cred: map[string][]string{}}
			look := map[*Session]*Model{}
			before, after, end := h.before, h.after, h.end
			h.before = func(step int) {
				before(step)
				for i := range run.plan.Steps[step].Sess {
					s := &run.plan.Steps[step].Sess[i]
					if s.Role != "look" {
						continue
					}
					s.Ops = nil
					b, ok := run.w.devs[s.Dev].fs.read(vaultPath)
					if !ok {
						continue
					}
					v, err := o.pass(b)
					if err != nil {
						continue
					}
					eff, _ := v.effective()
					ents, err := byName(eff, "name", "updated")
					if err != nil {
						continue
					}
					m := newModel()
					m.ents, m.exists, m.pass = ents, true, s.Pass
					look[s] = m
					s.Ops = readBackOps(m)
				}
			}
			h.after = func(step int) {
				if len(run.procs[step]) == 0 {
					return
				}
				after(step)
				n.after(step)
				for _, p := range run.procs[step] {
					if m := look[p.sess]; m != nil && p.agent.reachedMain() {
						run.w.probe("look")
						m.play(p, func(f string, x ...any) { run.fail("shown", f, x...) })
					}
				}
			}
			h.end = func() {
				end()
				if len(run.viol) == 0 && o.settled == int(run.plan.K["settle"]) && so.users {
					n.users()
				}
			}
			return h
		}}
	}
	// one device, names that are easily confused
	exact := &Scenario{Name: "exact", Weight: 2, Gen: func(r *Rand, tier string) *Plan {
		pl, g := soloGen(r, tier, 2, 4, 30)
		for i := range pl.Steps {
			s := &pl.Steps[i].Sess[0]
			var ops []Op
			for k := 2 + r.N(4); k > 0; k-- {
				if i > 0 && r.P(1, 2) {
					ops = append(ops, g.mutation())
					continue
				}
				n := ""
				if len(g.names) > 0 && r.P(2, 3) {
					n = nearName(r, g.names[r.N(len(g.names))])
				}
				if n == "" || strings.ContainsAny(n, " ") || g.used[n] {
					n = g.newName()
				}
				ops = append(ops, g.addNamed(n))
			}
			s.Ops = append(ops, s.Ops...)
		}
		fileArgs(r, pl)
		readBack(pl)
		return pl
	}, Setup: func(run *Run) Hooks {
		h, _ := soloHooks(run, "shown contents crash changed")
		end := h.end
		h.end = func() {
			if end != nil {
				end()
			}
			run.nontrivial = run.nontrivial || len(run.viol) == 0
		}
		return h
	}}
	register(&Property{ID: "C21", Rule: "one run is a history of 2 or 3 devices that use the same names for different things and sync, followed by a few rounds without faults and a look at every entry by its name; non-trivial when an entry was renamed",
		Scens: []*Scenario{names("names", 3, syncOpts{}), names("faults", 1, syncOpts{faults: true, conc: true}), names("users", 2, syncOpts{users: true}), exact,
			{Name: "inside", Weight: 2, Gen: insideGen, Setup: insideSetup}}})
}
