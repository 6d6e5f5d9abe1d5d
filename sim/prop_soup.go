package verifsim

import "strings"

// C19: whatever is typed, the program neither crashes nor hangs, and what it
// stores afterwards is sound.

var soupCommands = []string{"add", "addsync", "mv", "rm", "rmk", "ls", "cd", "cp", "get", "user", "pass", "email", "totp", "login", "set", "edit", "open",
	"label", "rmlabel", "labels", "show", "sync", "dump", "dumpall", "help", "exit", "quit", "add", "set", "set", "set", "show", "rm", "nosuch", "Add", "?"}

var soupArgs = []string{"", "/", "//", "a/", "/a", "..", ".", "*", "-", "-1", "0", "1", "2", "99999999999999999999", "\x00", "\x1b[31m", "user/", "sync/", "user/x",
	"sync/file", "sync/scp", "scp", "file", "Scp", "name", "url", "sync", "totp", "labels", "notes", "pass", "knownhosts", "privkey", "updated", "iv", "=", "a=b", "'", "\"", "\\",
	"a b", "é", "İ", "ſ", "K", "日本", "🔑", "\u202e", "\ufeff", "%s", "%!d", "$HOME", "`id`", "~", ",", ",,", "a,b", "true", "true ", "false"}

var soupURLs = []string{"scp://", "scp://h", "scp://u@h", "scp://u@h/", "scp://u@h:22/", "scp://u@h:x/p", "scp://u:p@srv0.example/v", "scp://srv@srv0.example:22/vault0", "scp://srv:pw@srv0.example:22/vault0",
	"scp://srv:pw@srv0.example:22/a/../vault0", "scp:", "scp:x", "file", "file:", "file://", "file:///", "file:///home/u", "file:///home/u/x", "file:x", "file:/home/u/y", "file://host/home/u/z", "file:///nodir/x",
	"http://x", "::", "%zz", "http://[::1", "mailto:a@b", "ftp://x/y", "FILE:///home/u/w", "javascript:x", "file:///home/u/.bpass", "file:///home/u/my.blob"}

type soup struct {
	g   *GState
	r   *Rand
	deg int
}

func (s *soup) name() string {
	if r := s.r; r.P(1, 2) {
		return s.g.some()
	}
	return s.arg()
}

func (s *soup) arg() string {
	r := s.r
	switch r.N(12) {
	case 0:
		return strings.Repeat(r.pick(soupArgs), 1+r.N(40))
	case 1:
		return strings.Repeat("x", 1+r.N(5000))
	case 2:
		return r.pick(soupArgs) + r.pick(soupArgs)
	case 3:
		return r.pick(soupURLs)
	case 4:
		return s.g.some()
	case 5:
		return r.totpJunk()
	}
	return r.pick(soupArgs)
}

func (r *Rand) totpJunk() string {
	return r.pick([]string{"otpauth://totp/x?secret=JBSWY3DPEHPK3PXP", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&digits=99", "otpauth://totp/x?secret=", "otpauth://hotp/x?secret=AAAA&counter=1",
		"otpauth://", "JBSWY3DPEHPK3PXP", "jbsw y3dp", "A", "!!!!", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&period=0", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&period=-1", "otpauth://totp/x?secret=%zz",
		"otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&digits=0", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&algorithm=md4", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&period=99999999999999999999"})
}

func (s *soup) op() Op {
	r := s.r
	cmd := r.pick(soupCommands)
	var f []string
	switch cmd {
	case "set":
		f = []string{s.name(), r.pick([]string{"url", "url", "sync", "totp", "labels", "notes", "knownhosts", "privkey", s.arg()}), s.arg()}
		switch f[1] {
		case "url":
			f[2] = r.pick(soupURLs)
		case "sync":
			f[2] = r.pick([]string{"true", "true", "false", "x"})
		case "totp":
			f[2] = r.totpJunk()
		case "knownhosts":
			f[2] = r.pick([]string{"srv0.example:22", "srv0.example:22 ", "srv0.example:22 x", "srv0.example:22 a ssh-ed25519", " ", "x y z w", "srv0.example:22 a b c d e"})
		}
		if r.P(1, 8) {
			f = f[:r.N(len(f))]
		}
	case "add":
		f = []string{r.pick([]string{s.arg(), s.g.newName(), s.g.newName()})}
		if r.P(1, 2) {
			s.g.names = append(s.g.names, f[0])
		}
	case "addsync":
		f = []string{r.pick([]string{"file", "scp", "scp", s.arg()})}
	case "mv":
		f = []string{s.name(), s.arg()}
	case "rm":
		f = []string{s.name()}
	case "show":
		f = []string{s.name()}
		if r.P(1, 2) {
			f = append(f, r.pick([]string{"1", "0", "-1", "2", "7", "x", "99999999999999999999", "-9223372036854775808"}))
		}
	default:
		if r.P(2, 3) {
			f = append(f, s.name())
		}
		for r.P(1, 2) {
			f = append(f, s.arg())
		}
	}
	line := cmd + " " + strings.Join(f, r.pick([]string{" ", " ", " ", "  ", "\t"}))
	if r.P(1, 12) {
		line = r.pick([]string{" ", "\t", ""}) + line + r.pick([]string{" ", "", "\t"})
	}
	o := Op{Line: strings.NewReplacer("\n", " ").Replace(line), Do: "soup"}
	for k := r.N(12); k > 0; k-- {
		o.Ans = append(o.Ans, Ans{M: "", R: s.answer(cmd, f)})
	}
	if cmd == "edit" {
		o.Edit = &EditOp{Text: r.pick([]string{"", "\n", "\n\n\n", "x", "a\x00b", "\r\n", strings.Repeat("long\n", 3000), s.arg()}), Code: r.pick2(0, 0, 0, 1), Mode: r.pick([]string{"", "", "rename", "remove", "none"})}
	}
	if r.P(1, 60) {
		o.Line = r.pick([]string{"^C", "^D"})
	}
	return o
}

// remote makes an entry something to sync with.
func (s *soup) remote() []Op {
	r := s.r
	n := s.g.some()
	cmds := []string{"set " + n + " url " + r.pick(soupURLs), "set " + n + " sync true"}
	if r.P(1, 3) {
		cmds = append(cmds, "set "+n+" knownhosts "+r.pick([]string{"srv0.example:22", "srv0.example:22 x", "srv0.example:22 a ssh-ed25519", "x", "srv0.example:22 a b c d e"}))
	}
	if r.P(1, 6) {
		cmds = append(cmds, "set "+n+" privkey x")
	}
	if r.P(1, 2) {
		cmds = append(cmds, "sync "+r.pick([]string{"", n}))
	}
	if r.P(1, 6) {
		cmds = append(cmds, "rmk "+n+" "+r.pick([]string{"url", "name", "sync", "knownhosts"}), "sync "+n)
	}
	if r.P(1, 6) {
		cmds = append(cmds, "rm "+n, "sync")
	}
	var out []Op
	for _, c := range cmds {
		out = append(out, Op{Line: c, Do: "soup", Ans: []Ans{{M: "", R: r.pick([]string{"y", "n", "x", n})}, {M: "", R: r.pick([]string{"y", "r", "d", ""})}}})
	}
	return out
}

func (r *Rand) pick2(x ...int) int { return x[r.N(len(x))] }

func (s *soup) answer(cmd string, f []string) string {
	r := s.r
	if cmd == "rm" && len(f) > 0 && r.P(1, 2) {
		return f[0]
	}
	if cmd == "addsync" && r.P(1, 2) {
		return r.pick([]string{"srv", "srv0.example", "22", "vault0", "1", "2", "3", "/home/u/x", "", "", "/", "-1", "65536", "host name", "[::1]", "::1", "1.2.3.4", "a:b", "@", "u@h", "../x", "a b", "?x", "#y", "%41"})
	}
	switch r.N(14) {
	case 0:
		return "^D"
	case 1, 2:
		return "y"
	case 3:
		return "m"
	case 4:
		return ""
	case 5:
		return r.pick([]string{"u", "l", "n", "b", "e", "c", "?", "u -1", "l 0", "n 33", "600", "-1", "0", "u x y", "c c"})
	case 6:
		return "."
	case 7:
		return r.pick([]string{"Y", "r", "d", "n"})
	}
	return s.arg()
}

// syncsItself: a remote was set up that is the file itself, so that a sync
// writes it already.
func (pl *Plan) syncsItself() bool {
	own := func(x string) bool {
		return strings.Contains(x, "/home/u/.bpass") || strings.Contains(x, "/home/u/my.blob")
	}
	for _, st := range pl.Steps {
		for i := range st.Sess {
			for _, o := range st.Sess[i].Ops {
				if own(o.Line) {
					return true
				}
				for _, a := range o.Ans {
					if own(a.R) {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	register(&Property{ID: "C19", Rule: "one run is a few sessions of odd or hostile input at every prompt, with completion requests, followed by an ordinary one; non-trivial when such a session ended normally and saved",
		Scens: []*Scenario{{Name: "soup", Weight: 1, Gen: func(r *Rand, tier string) *Plan {
			pl, g := soloGen(r, tier, 2, 3, 10)
			for i := range pl.Steps {
				pl.Steps[i].Sess[0].Pass = g.pass
			}
			if r.P(1, 2) {
				pl.Srvs = append(pl.Srvs, SrvPlan{Addr: "srv0.example:22", Seed: 9, Algo: "ssh-ed25519", Users: map[string]string{"srv": "pw"}, AnyKey: true})
			}
			s := &soup{g: g, r: r}
			for i := range pl.Steps {
				se := &pl.Steps[i].Sess[0]
				se.Role = "soup"
				if i == 0 {
					se.Ops = append([]Op{g.add(), g.add()}, se.Ops...)
				}
				for k := 2 + r.N(12); k > 0; k-- {
					se.Ops = append(se.Ops, s.op())
				}
				if r.P(1, 3) {
					se.Ops = append(se.Ops, s.remote()...)
				}
				// some of the earlier ones move behind
				if n := len(se.Ops); r.P(1, 3) {
					a, b := r.N(n), r.N(n)
					se.Ops[a], se.Ops[b] = se.Ops[b], se.Ops[a]
				}
				se.Tabs = r.N(30)
				se.Def = []Ans{{M: "(y/n)", R: r.pick([]string{"y", "n"})}, {M: "(r/R/d/D)", R: r.pick([]string{"r", "d"})}, {M: "(y/N)", R: r.pick([]string{"y", "n"})}}
				if r.P(1, 6) {
					se.Args = append(se.Args, r.pick([]string{"--no-sync", "--no-color", "--no-clear-clip"}))
				}
			}
			if r.P(1, 4) {
				fileArgs(r, pl)
			}
			args := pl.Steps[0].Sess[0].Args
			pl.Steps = append(pl.Steps, Step{Sess: []Session{{Pass: g.pass, Args: append(append([]string(nil), args...), "--no-sync"), Role: "clean", Ops: []Op{{Line: "ls", Do: "ls"}}}}})
			return pl
		}, Setup: func(run *Run) Hooks {
			var before []byte
			var log []RTx
			h := Hooks{}
			h.before = func(step int) {
				before = nil
				for _, s := range run.plan.Steps[step].Sess {
					p := &Proc{dev: run.w.devs[s.Dev], cwd: "/home/u", args: append([]string{"bpass"}, s.Args...), env: run.plan.Devs[0].Env}
					before, _ = p.dev.fs.read(p.vaultFile())
				}
			}
			h.after = func(step int) {
				for _, p := range run.procs[step] {
					if why := p.crashedBadly(); why != "" {
						run.fail("crash", "%s died: %s (last command %q)", p.story(), why, short(p.agent.lastLine()))
						continue
					}
					b, ok := p.dev.fs.read(p.vaultFile())
					if p.code != 0 {
						if string(b) != string(before) && !run.plan.syncsItself() {
							run.fail("changed", "%s ended with status %d but changed the file", p.story(), p.code)
						}
						continue
					}
					if !ok {
						if p.agent.reachedMain() {
							run.fail("lost", "%s ended with status 0 but there is no file", p.story())
						}
						continue
					}
					v, err := openVault(b, "", p.sess.Pass)
					if err != nil {
						run.fail("lost", "after %s the file cannot be opened: %v", p.story(), err)
						continue
					}
					if err := checkVault(v); err != nil {
						run.fail("unsound", "after %s: %v", p.story(), err)
						continue
					}
					if !isPrefix(log, v.Log) {
						run.fail("unsound", "after %s: history was rewritten", p.story())
					}
					log = v.Log
					eff, err := refReplay(v.Log)
					if err != nil {
						run.fail("unsound", "after %s: %v", p.story(), err)
						continue
					}
					ents, err := byName(eff)
					if err != nil {
						run.fail("unsound", "after %s: %v", p.story(), err)
						continue
					}
					if p.sess.Role == "clean" && len(p.sess.Ops) > 0 && p.agent.opDone(0) {
						m := newModel()
						m.ents = ents
						var want []string
						for _, n := range sortedKeys(ents) {
							want = append(want, n)
						}
						got := strings.TrimSuffix(p.agent.outOf(0), "\n")
						if w := strings.Join(want, "\n"); len(want) > 0 && stripANSI(w) != got {
							run.fail("unsound", "the listing shows %q, stored are %q", got, w)
						}
					}
					if p.sess.Role == "soup" {
						run.nontrivial = true
					}
				}
			}
			return h
		}}}})
}

func short(s string) string {
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}
