package verifsim

import "strings"

// C24: passphrases asked for by a pinentry program.

var pinPrograms = []string{"pinentry", "pinentry-gnome3", "pinentry-kde", "pinentry-x11", "pinentry-curses", "pinentry-tty"}

var pinModes = []string{"rogue", "silent", "die-setup", "noopt", "die-getpin", "die-half", "die-data", "garbage", "timeout", "nodata", "exit1"}

func (r *Rand) oddPass() string {
	return r.pick([]string{"100% sure", "a+b", "c++ +" + sprint(r.N(10)), "a&b=c;d", "%0A", "%25", "%0Dx%0a", "a b  c", " lead", "trail ", "ünï cödé", "日本語のパス", "D x", "OK", "ERR no", "# x",
		"tab\tx", "x\"'\\", "%", "%%", "%252", "two\nlines", "cr\rhere", "plain pass " + sprint(r.N(100)), "50%255", strings.Repeat("long ", 40), "caf\ue0e9"})
}

// pinChoice is the pinentry program a session is documented to use; "" for
// none. found is false if it does not exist.
func pinChoice(p *Proc) (prog string, found bool) {
	prog = p.env["PINENTRY"]
	switch {
	case strings.EqualFold(prog, "none"):
		return "", false
	case prog != "":
		return prog, p.dev.programs[prog] != nil
	}
	for _, x := range pinPrograms {
		if p.dev.programs[x] != nil {
			return x, true
		}
	}
	return "", false
}

// shortName is how prompts name a file.
func shortName(path string) string {
	parts := strings.Split(path, "/")
	for i, x := range parts[:len(parts)-1] {
		if x != "" {
			parts[i] = x[:1]
		}
	}
	return strings.Join(parts, "/")
}

func init() {
	register(&Property{ID: "C24", Rule: "one run is a history of sessions whose passphrases are asked for by a pinentry program, some of them cancelled, some with a program that misbehaves; non-trivial when a session got a passphrase this way and saved",
		Scens: []*Scenario{{Name: "pinentry", Weight: 1,
			Gen: func(r *Rand, tier string) *Plan {
				pl, g := soloGen(r, tier, 4, 5, 10)
				d := &pl.Devs[0]
				pl.Steps[0].Sess[0].Pass = r.oddPass()
				switch r.N(8) {
				case 0:
					d.Programs = append(d.Programs, "my-pinentry", "pinentry")
					d.Env["PINENTRY"] = "my-pinentry"
				case 1:
					d.Programs = append(d.Programs, "pinentry")
					d.Env["PINENTRY"] = r.pick([]string{"none", "NONE", "None"})
				case 2:
					d.Env["PINENTRY"] = ""
				case 3:
					d.Env["PINENTRY"] = ""
					d.Programs = append(d.Programs, "pinentry-tty", "pinentry-gnome3")
				default:
					d.Env["PINENTRY"] = ""
					d.Programs = append(d.Programs, "pinentry")
				}
				switch r.N(5) {
				case 0:
					d.Env["TERM"] = ""
				case 1:
					d.Env["DISPLAY"] = ":0"
				}
				if r.P(1, 4) {
					f := r.pick([]string{"50%25 off", "my %0A file", "100%", "plain file", "%", "ünï"})
					for i := range pl.Steps {
						pl.Steps[i].Sess[0].Args = append(pl.Steps[i].Sess[0].Args, "-f", f)
					}
				} else {
					fileArgs(r, pl)
				}
				for i := range pl.Steps {
					s := &pl.Steps[i].Sess[0]
					var extra []Op
					for k := r.N(3); k > 0; k-- {
						p := r.oddPass()
						if r.P(1, 6) {
							p = ""
						}
						v := p
						if r.P(1, 8) {
							v = "other"
						}
						if r.P(1, 8) {
							p = "^D"
						}
						ans := []Ans{{M: menuPrompt, R: "m"}, {M: "enter new password", R: p}, {M: "verify password", R: v}, {M: menuPrompt, R: "y"}}
						switch r.N(4) {
						case 0:
							extra = append(extra, Op{Line: "passwd", Do: "passwd", Ans: ans})
						case 1:
							l, a := g.qa(g.some(), "pass")
							extra = append(extra, Op{Line: "set " + l, Do: "set", A: a, Ans: ans})
						case 2:
							n := "pin" + sprint(r.N(50))
							extra = append(extra, Op{Line: "cd"}, Op{Line: "add " + n, Do: "add", A: []string{n}, Ans: append([]Ans{{M: "email: "}, {M: "user: "}}, ans...)})
							extra[len(extra)-2].Do = "cd"
						case 3:
							if len(g.users) > 0 || r.P(1, 3) {
								u := "u" + sprint(len(g.users))
								g.users = append(g.users, u)
								extra = append(extra, Op{Line: "adduser " + u, Do: "adduser", A: []string{u}, Ans: ans})
							}
						}
					}
					s.Ops = append(extra, s.Ops...)
					switch r.N(10) {
					case 0:
						s.Pin, s.PinAt = r.pick(pinModes), 1+r.N(4)
					case 1:
						s.Start = append(s.Start, Ans{M: "passphrase: ", R: r.pick([]string{"^D", "", "wrong", "%"})})
					case 2:
						if r.P(1, 3) {
							s.Env = map[string]string{"PINENTRY": "no-such-program"}
						}
					}
				}
				readBack(pl)
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, j := soloHooks(run, "shown contents crash status denied opened changed")
				ran := 0
				run.w.hooks.onExec = func(p *Proc, argv []string) {
					base := argv[0][strings.LastIndex(argv[0], "/")+1:]
					if !strings.Contains(base, "pinentry") {
						return
					}
					ran++
					if prog, _ := pinChoice(p); base != prog {
						run.fail("program", "runs %q to ask for a passphrase, expected %q", base, prog)
					}
				}
				solo := h.after
				h.after = func(step int) {
					models := map[*Proc]string{}
					for _, p := range run.procs[step] {
						models[p] = j.key(p)
					}
					solo(step)
					for _, p := range run.procs[step] {
						prog, found := pinChoice(p)
						if p.pinBad != "" {
							run.fail("program", "the passphrase program %s", p.pinBad)
						}
						for _, e := range p.agent.hist {
							if !e.Hidden {
								continue
							}
							if e.Pin != found {
								run.fail("program", "%q is asked by pinentry: %v, expected %v (%q)", e.Prompt, e.Pin, found, prog)
							}
							switch e.Prompt {
							case "passphrase: ", "verify passphrase: ", "enter new password: ", "verify password: ", shortName(p.vaultFile()) + " passphrase: ":
							case "":
								if e.Reply != "^E" {
									run.fail("prompt", "a passphrase is asked for without saying which")
								}
							default:
								run.fail("prompt", "pinentry asks %q for file %q", e.Prompt, p.vaultFile())
							}
						}
						if prog != "" && !found && p.crashedBadly() == "" && (p.code == 0 || p.agent.reachedMain()) {
							run.fail("status", "pinentry program %q does not exist but the session ends with status %d", prog, p.code)
						}
					}
					run.nontrivial = run.nontrivial && run.w.stats.Probes["pinentry-answered"] > 0
				}
				return h
			}}}})
}
