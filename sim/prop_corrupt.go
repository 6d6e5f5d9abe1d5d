package verifsim

import (
	"bytes"
	"strings"
)

// C08: a damaged file or wrong credentials are refused cleanly.

// withUsers turns the vault of a plan into a multi-user one.
func (g *GState) addUsers(n int) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		u := g.r.pick([]string{"alice", "bob", "carol", "dave", "zoë", "e.e", "Alice", "CAROL", "mary-Ann", "ÉVA", "x"})
		if i > 0 {
			u += g.r.pick([]string{"", "2", "3"})
		}
		dup := false
		for _, x := range g.users {
			dup = dup || x == u
		}
		if dup {
			continue
		}
		op := Op{Line: "adduser " + u, Do: "adduser", A: []string{u}}
		p := g.pass
		if len(g.users) > 0 {
			p = g.line()
			op.Ans = manual(p)
		}
		g.users = append(g.users, u)
		g.userPass = append(g.userPass, p)
		ops = append(ops, op)
	}
	return ops
}

func swapCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

// wrongPass is a passphrase that is not p.
func wrongPass(r *Rand, p string) string {
	switch r.N(7) {
	case 0:
		return ""
	case 1:
		return p + r.pick([]string{" ", "x", "\x00", "1"})
	case 2:
		return p[:len(p)-1]
	case 3:
		return swapCase(p)
	case 4:
		return " " + p
	default:
		return "guess" + sprint(r.N(100000))
	}
}

func init() {
	register(&Property{ID: "C08", Rule: "one run creates a file and then tries to open damaged copies of it, or the intact file with wrong credentials, 6 to 14 times; non-trivial when at least one attempt had to be refused",
		Scens: []*Scenario{{Name: "refuse", Weight: 1,
			Gen: func(r *Rand, tier string) *Plan {
				pl, g := soloGen(r, tier, 1, 4, 0)
				pl.Steps = pl.Steps[:1]
				if r.P(1, 2) {
					pl.Steps = append(pl.Steps, Step{Sess: []Session{{Pass: "$", User: "$", Ops: g.addUsers(1 + r.N(4))}}})
				}
				if r.P(1, 4) {
					pl.Steps = append(pl.Steps, Step{Sess: []Session{{Pass: "$", User: "$", Ops: []Op{{Line: "passwd", Do: "passwd", Ans: manual(g.line())}}}}})
				}
				for i, n := 0, 6+r.N(9); i < n; i++ {
					s := Session{User: "$", Pass: "$", Role: "probe"}
					st := Step{}
					if r.P(1, 2) {
						st.Env = append(st.Env, EnvOp{Op: "bitrot", A: vaultPath, N: int64(r.Next() >> 1)})
					} else {
						k := -1
						s.Pass = wrongPass(r, g.pass)
						if len(g.users) > 0 {
							k = r.N(len(g.users))
							s.User = g.users[k]
							s.Pass = wrongPass(r, g.userPass[k])
							switch r.N(5) {
							case 0:
								s.User = r.pick([]string{"mallory", "", g.users[k] + " ", swapCase(g.users[k]), "user/" + g.users[k]})
								s.Pass = g.userPass[r.N(len(g.users))]
							case 1:
								s.Pass = g.userPass[r.N(len(g.users))]
							case 2:
								s.Pass = g.pass
							}
						}
					}
					switch r.N(8) {
					case 0:
						s.Args = []string{"export", "out.csv"}
					case 1:
						s.Args = []string{"-t", "2030-01-01 00:00:00"}
					}
					st.Sess = []Session{s}
					pl.Steps = append(pl.Steps, st)
				}
				readBack(pl)
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, j := soloHooks(run, "contents crash")
				solo := h.after
				var orig []byte
				h.after = func(step int) {
					p := run.procs[step][0]
					d := p.dev
					if p.sess.Role != "probe" {
						if !j.broken {
							solo(step)
						}
						orig, _ = d.fs.read(vaultPath)
						return
					}
					if orig == nil || j.broken {
						return
					}
					run.probe(j, p, orig)
					d.fs.remove("/home/u/out.csv")
					if n := d.fs.get(vaultPath); n != nil {
						n.data, n.durable, n.pending = orig, orig, nil
					}
				}
				old := h.before
				h.before = func(step int) {
					old(step)
					if orig != nil {
						b, _ := run.w.devs[0].fs.read(vaultPath)
						run.stash = b
					}
				}
				return h
			}}}})
}

// probe judges an attempt to open a possibly damaged file.
func (run *Run) probe(j *judge, p *Proc, orig []byte) {
	given := run.stash
	user, pass := "", ""
	for _, e := range p.agent.hist {
		if e.Op >= 0 {
			break
		}
		if strings.HasSuffix(e.Prompt, " user: ") {
			user = e.Reply
		} else if strings.HasSuffix(e.Prompt, "passphrase: ") {
			pass = e.Reply
		}
	}
	what := "an intact file"
	if !bytes.Equal(given, orig) {
		what = "a damaged file"
	}
	if why := p.crashedBadly(); why != "" {
		run.fail("crash", "opening %s of %d bytes (header %q) as %q: %s", what, len(given), given[:imin(16, len(given))], user, why)
		return
	}
	_, err := openVault(given, user, pass)
	export := len(p.sess.Args) > 0 && p.sess.Args[0] == "export"
	if err == nil {
		if p.code != 0 {
			run.fail("refused", "%s is refused although %q and %q open it: %s", what, user, pass, p.out.String())
		}
		return
	}
	run.nontrivial = true
	if p.code == 0 {
		run.fail("status", "%s (user %q, passphrase %q) ends with status 0", what, user, pass)
	}
	if p.agent.reachedMain() {
		run.fail("opened", "%s was opened with user %q, passphrase %q", what, user, pass)
	}
	now, _ := p.dev.fs.read(p.vaultFile())
	if !bytes.Equal(now, given) {
		run.fail("modified", "%s changed although it was refused (%d bytes before, %d after)", what, len(given), len(now))
	}
	if _, ok := p.dev.fs.read("/home/u/out.csv"); ok && export {
		run.fail("exported", "%s was exported although it was refused", what)
	}
	m := j.model(p)
	out := p.out.String()
	for _, n := range sortedKeys(m.ents) {
		for _, k := range sortedKeys(m.ents[n]) {
			if v := m.ents[n][k]; len(v) > 8 && strings.Contains(out, v) {
				run.fail("shown", "%s was refused but %s of %q was shown", what, k, n)
			}
		}
	}
}
