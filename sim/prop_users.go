package verifsim

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"sort"
	"strings"
)

// C09: exactly the current users open a multi-user file.

// userOp is a random user management command.
func (g *GState) userOp() Op {
	r := g.r
	someone := func() string {
		if len(g.users) == 0 || r.P(1, 10) {
			return r.pick([]string{"nobody", "mallory", "bob"})
		}
		return g.users[r.N(len(g.users))]
	}
	switch x := r.N(100); {
	case x < 22 || len(g.users) == 0:
		if ops := g.addUsers(1); len(ops) > 0 {
			return ops[0]
		}
		return Op{Line: "ls", Do: "ls"}
	case x < 40:
		p, _ := g.passAns()
		return Op{Line: "passwd", Do: "passwd", Ans: p}
	case x < 56:
		p, _ := g.passAns()
		return Op{Line: "passwd " + someone(), Do: "passwd", Ans: p}
	case x < 62:
		return Op{Line: "rekey", Do: "rekey"}
	case x < 70:
		p, _ := g.passAns()
		return Op{Line: "rekey " + someone(), Do: "rekey", Ans: p}
	case x < 78:
		return Op{Line: "rekeyall", Do: "rekeyall", Ans: []Ans{{M: "are you sure", R: r.pick([]string{"y", "yes", "Y", "n", ""})}}}
	case x < 88:
		u := someone()
		g.dropUser(u)
		return Op{Line: "rm user/" + u, Do: "rm", Ans: []Ans{{M: "to proceed", R: "user/" + u}}}
	case x < 94:
		u := someone()
		to := "user/" + r.pick([]string{"new", "renamed", "zed", "New", "Zed", "ÖZ"}) + sprint(r.N(10))
		if r.P(1, 5) {
			to = r.pick([]string{"old/", "users/", "x/user/"}) + u
		}
		g.dropUser(u)
		if strings.HasPrefix(to, "user/") {
			g.users = append(g.users, to[5:])
			g.userPass = append(g.userPass, "")
		}
		return Op{Line: "mv user/" + u + " " + to, Do: "mv"}
	case x < 96:
		o := g.addNamed("user/" + r.pick([]string{"plain", "guest", "pet"}) + sprint(r.N(10)))
		return o
	case x < 98:
		return Op{Line: "rmk user/" + someone() + " " + r.pick([]string{"iv", "salt", "mkey"}), Do: "rmk"}
	default:
		return Op{Line: "set user/" + someone() + " " + r.pick([]string{"note x", "iv 00", "mkey 11", "email a@b"}), Do: "set"}
	}
}

func (g *GState) dropUser(u string) {
	for i, x := range g.users {
		if x == u {
			g.users = append(g.users[:i:i], g.users[i+1:]...)
			g.userPass = append(g.userPass[:i:i], g.userPass[i+1:]...)
			return
		}
	}
}

type pair struct{ user, pass string }

// accessOracle checks stored files against the credentials of the model.
type accessOracle struct {
	run     *Run
	past    map[pair]bool
	masters map[string]int // master key -> number of rekeyalls before it
	salts   map[string]bool
	prev    *Vault
	prevM   *Model
}

func (o *accessOracle) check(p *Proc, before, m *Model, saved int, v *Vault) {
	run := o.run
	b, _ := p.dev.fs.read(p.vaultFile())
	if len(v.users) != len(m.users) {
		run.fail("access", "after %s: the file has %d users, expected %d (%v)", p.story(), len(v.users), len(m.users), sortedKeys(m.users))
		return
	}
	now := map[pair]bool{}
	if m.multi {
		var want, got []string
		for _, u := range sortedKeys(m.users) {
			now[pair{u, m.users[u]}] = true
			h := sha256.Sum256([]byte(u))
			want = append(want, hex.EncodeToString(h[:]))
			x, err := openVault(b, u, m.users[u])
			if err != nil {
				run.fail("lockout", "after %s: user %q can no longer open the file with passphrase %q: %v", p.story(), u, m.users[u], err)
				return
			}
			if !bytes.Equal(x.plain, v.plain) {
				run.fail("access", "users see different contents")
			}
		}
		salts := map[string]bool{}
		for _, u := range v.users {
			got = append(got, hex.EncodeToString(u.hash))
			if salts[string(u.salt)] {
				run.fail("salt", "after %s: two users share a salt", p.story())
			}
			salts[string(u.salt)] = true
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, " ") != strings.Join(got, " ") {
			run.fail("access", "after %s: the users in the file are not %v", p.story(), sortedKeys(m.users))
		}
	} else {
		now[pair{"", m.pass}] = true
	}
	for _, q := range sortedPairs(o.past) {
		if now[q] || !m.multi && q.pass == m.pass {
			continue
		}
		if _, err := openVault(b, q.user, q.pass); err == nil {
			run.fail("revoked", "after %s: the former credentials %q/%q still open the file", p.story(), q.user, q.pass)
			return
		}
	}
	for q := range now {
		o.past[q] = true
	}
	// which keys had to change
	if o.prev != nil && saved == 1 {
		o.rotation(p, v)
	}
	o.prev, o.prevM = v, m
}

// rotation checks that rekeying replaced what it promises to replace.
func (o *accessOracle) rotation(p *Proc, v *Vault) {
	run := o.run
	salt := func(v *Vault, u string) string {
		if len(v.users) == 0 {
			return string(v.salt)
		}
		h := sha256.Sum256([]byte(u))
		for _, x := range v.users {
			if bytes.Equal(x.hash, h[:]) {
				return string(x.salt)
			}
		}
		return ""
	}
	me, _, _ := p.agent.opener()
	for i := range p.sess.Ops {
		op := &p.sess.Ops[i]
		if !p.agent.opDone(i) {
			return
		}
		out := p.agent.outOf(i)
		who := me
		if f := strings.Fields(op.Line); len(f) > 1 {
			who = f[1]
		}
		switch {
		case op.Do == "rekeyall" && strings.Contains(out, "have been rekeyed"):
			if len(o.prev.master) > 0 && bytes.Equal(o.prev.master, v.master) {
				run.fail("rotation", "after %s: the master key is still the one from before", p.story())
			}
			for _, u := range v.users {
				for _, w := range o.prev.users {
					if bytes.Equal(u.salt, w.salt) {
						run.fail("rotation", "after %s: a user kept the salt from before", p.story())
					}
				}
			}
		case (op.Do == "rekey" || op.Do == "passwd") && strings.Contains(out, "bits will be re-encrypted"):
			if len(o.prev.users) == 0 && len(v.users) == 0 {
				who = ""
			}
			s := salt(o.prev, who)
			if s != "" && s == salt(v, who) && len(o.prev.users) > 0 == (len(v.users) > 0) {
				run.fail("rotation", "after %s: the salt of %q did not change", p.story(), who)
			}
		}
	}
}

func sortedPairs(m map[pair]bool) []pair {
	var out []pair
	for q := range m {
		out = append(out, q)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].user < out[j].user || out[i].user == out[j].user && out[i].pass < out[j].pass
	})
	return out
}

func init() {
	register(&Property{ID: "C09", Rule: "one run is a history of sessions that add, remove, rename and re-key users; non-trivial when a multi-user file was stored",
		Scens: []*Scenario{{Name: "users", Weight: 1,
			Gen: func(r *Rand, tier string) *Plan {
				pl, g := soloGen(r, tier, 4, 3, 10)
				for i := range pl.Steps {
					s := &pl.Steps[i].Sess[0]
					end := len(s.Ops)
					if end > 0 && (s.Ops[end-1].Do == "exit" || s.Ops[end-1].Line == "^C") {
						end--
					}
					at := r.N(end + 1)
					var ins []Op
					for k, n := 0, 1+r.N(4); k < n; k++ {
						ins = append(ins, g.userOp())
						if r.P(1, 12) && len(ins[k].Ans) > 0 {
							ins[k].Ans[r.N(len(ins[k].Ans))].R = "^D"
						}
					}
					// user commands do not depend on the entered entry, the
					// others do
					in := false
					for k := 0; k < at; k++ {
						if s.Ops[k].Do == "cd" {
							in = s.Ops[k].Line != "cd"
						}
					}
					if in {
						at = end
						ins = append([]Op{{Line: "cd", Do: "cd"}}, ins...)
					}
					s.Ops = append(s.Ops[:at:at], append(ins, s.Ops[at:]...)...)
					if r.P(1, 10) && i > 0 {
						s.User, s.Pass = r.pick([]string{"$", "alice", "bob", "mallory"}), r.pick([]string{g.pass, "guess", "$"})
					}
				}
				readBack(pl)
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, j := soloHooks(run, "contents torn crash denied opened stale shown")
				o := &accessOracle{run: run, past: map[pair]bool{}}
				j.extra = func(p *Proc, before, after *Model, saved int, v *Vault) {
					run.nontrivial = run.nontrivial || after.multi
					o.check(p, before, after, saved, v)
				}
				return h
			}}}})
}
