package verifsim

import (
	"fmt"
	"strings"
	"syscall"
)

// C14: secrets reach the disk only encrypted.

// written is one write of a program to a file.
type written struct {
	p    *Proc
	n    *Inode
	mode uint32
	op   int
	data string
}

type secretOracle struct {
	run     *Run
	secrets map[string]string // secret -> what it is
	writes  []written
	gone    []written // files removed by the program
	execs   []written
	seen    map[string]map[string]bool // device -> files there before the session
	ivs     map[string]string
	salts   map[string]string
	locked  map[string]uint32
	ivSaves int
	stores  map[string]string // files on the share and the servers before it
}

func newSecretOracle(run *Run) *secretOracle {
	o := &secretOracle{run: run, secrets: map[string]string{}, ivs: map[string]string{}, salts: map[string]string{}, seen: map[string]map[string]bool{}}
	rec := func(l *[]written, p *Proc, n *Inode, s string) {
		if p.agent != nil {
			*l = append(*l, written{p, n, n.mode, p.agent.op, s})
		}
	}
	run.w.hooks.onWrite = func(p *Proc, n *Inode) { rec(&o.writes, p, n, string(n.data)) }
	run.w.hooks.onUnlink = func(p *Proc, n *Inode, path string) { rec(&o.gone, p, n, string(n.data)) }
	run.w.hooks.onExec = func(p *Proc, argv []string) {
		rec(&o.execs, p, &Inode{}, strings.Join(argv, "\x00"))
	}
	return o
}

func (o *secretOracle) add(s, what string) {
	for _, l := range strings.Split(s, "\n") {
		if len(l) >= 6 && strings.Trim(l, " \t0") != "" {
			o.secrets[l] = what
		}
	}
}

// find returns what secret s contains.
func (o *secretOracle) find(s string) string {
	for _, x := range sortedKeys(o.secrets) {
		if strings.Contains(s, x) {
			return fmt.Sprintf("%s (%q)", o.secrets[x], x)
		}
	}
	return ""
}

// learn collects the secrets a session dealt with.
func (o *secretOracle) learn(p *Proc) (hidden []string) {
	a := p.agent
	for _, e := range a.hist {
		switch {
		case e.Hidden && !strings.HasPrefix(e.Reply, "^"):
			o.add(e.Reply, "a passphrase or password")
			if e.Op < 0 || strings.HasSuffix(e.Prompt, "passphrase: ") {
				hidden = append(hidden, e.Reply)
			}
		case e.Prompt == "> " && !strings.HasPrefix(e.Reply, "^"):
			o.add(e.Reply, "a value")
		}
	}
	for i, op := range a.s.Ops {
		if i >= len(a.opOut) {
			break
		}
		switch op.Do {
		case "set":
			f := strings.SplitN(op.Line, " ", 4)
			if a.prompts[i] != "" && promptEntry(a.prompts[i]) != "" {
				f = strings.SplitN(op.Line, " ", 3)
			}
			if len(f) > 2 {
				o.add(f[len(f)-1], "a value")
			}
		case "edit":
			if op.Edit != nil {
				o.add(op.Edit.Text, "an edited value")
			}
		}
		m := newMenu(a)
		if p, end := m.walk(a.inOp(i), nil); end == "y" {
			o.add(p, "a generated password")
		}
	}
	return hidden
}

// before notes the files of the devices.
func (o *secretOracle) before(step int) {
	o.writes, o.gone, o.execs = nil, nil, nil
	for _, d := range o.run.w.devs {
		s := map[string]bool{}
		d.fs.files(func(path string, n *Inode) { s[path] = true })
		o.seen[d.name] = s
	}
	o.stores = o.run.stores()
}

func (o *secretOracle) after(step int) {
	run := o.run
	for _, p := range run.procs[step] {
		hidden := o.learn(p)
		if p.crashed == "" && p.panicV == nil {
			out := stripANSI(p.out.String())
			for _, s := range hidden {
				if p.sess.Role != "readback" && len(s) >= 6 && strings.Contains(out, s) && !o.typedOpenly(p, s) {
					run.fail("secret", "the passphrase or password %q, typed hidden, is displayed\n%s", s, p.story())
				}
			}
		}
	}
	export := func(p *Proc) bool { return p.subcommand() && p.sess.Role == "export" }
	editing := func(w written) bool {
		ops := w.p.agent.s.Ops
		return w.op >= 0 && w.op < len(ops) && ops[w.op].Do == "edit"
	}
	temps := map[*Inode]bool{}
	for _, w := range o.writes {
		if export(w.p) {
			if w.mode&077 != 0 && o.find(w.data) != "" {
				run.fail("secret", "the exported file is readable by others (mode %o)\n%s", w.mode&0777, w.p.story())
			}
			continue
		}
		s := o.find(w.data)
		if s == "" {
			continue
		}
		if !editing(w) {
			run.fail("secret", "%s is written to the disk in the clear\n%s", s, w.p.story())
			return
		}
		temps[w.n] = true
		if w.mode&077 != 0 {
			run.fail("secret", "the value being edited is in a file readable by others (mode %o)\n%s", w.mode&0777, w.p.story())
			return
		}
		run.w.probe("edited")
	}
	for _, e := range run.w.edits {
		if e.mode&077 != 0 {
			run.fail("secret", "the value being edited is in a file readable by others (mode %o)\n%s", e.mode&0777, e.p.story())
			return
		}
	}
	for _, w := range o.execs {
		if f := strings.SplitN(w.data, "\x00", 2); len(f) == 2 && !strings.Contains(f[0], "xdg-open") {
			if s := o.find(f[1]); s != "" {
				run.fail("secret", "%s is an argument of %s\n%s", s, f[0], w.p.story())
			}
		}
	}
	clean := true
	for _, p := range run.procs[step] {
		clean = clean && p.crashed == "" && p.fired == 0 && p.panicV == nil
	}
	for _, w := range o.gone {
		if s := o.find(w.data); s != "" && w.p.fired == 0 && temps[w.n] {
			run.fail("secret", "the temporary file is removed without erasing %s\n%s", s, w.p.story())
			return
		}
	}
	sent := func(srv string, fs *FS) {
		fs.files(func(path string, n *Inode) {
			if _, ok := o.stores[srv+"|"+path]; !ok && n.mode&077 != 0 && n.mode&syscall.S_IFMT == syscall.S_IFREG {
				run.fail("secret", "the new file %s%s is readable by others (mode %o)", srv, path, n.mode&0777)
			}
		})
	}
	sent("", run.w.share)
	for _, a := range sortedKeys(run.w.servers) {
		sent(a, run.w.servers[a].fs)
	}
	for i, d := range run.w.devs {
		ours := false
		for _, p := range run.procs[step] {
			ours = ours || p.sess.Dev == i && !export(p)
		}
		if !ours {
			continue
		}
		d.fs.files(func(path string, n *Inode) {
			if n.isDir() || n.isLink() || o.seen[d.name][path] {
				return
			}
			if s := o.find(string(n.data)); s != "" && clean {
				run.fail("secret", "%s stays in the clear in %s", s, path)
			}
			if n.mode&077 != 0 && n.mode&syscall.S_IFMT == syscall.S_IFREG && strings.HasPrefix(path, "/home/") {
				run.fail("secret", "the new file %s is readable by others (mode %o)", path, n.mode&0777)
			}
		})
	}
}

// typedOpenly tells whether s was also typed or shown openly.
func (o *secretOracle) typedOpenly(p *Proc, s string) bool {
	for _, op := range p.sess.Ops {
		if strings.Contains(op.Line, s) || op.Do == "get" || op.Do == "show" || op.Do == "dump" || op.Do == "dumpall" {
			return true
		}
		if op.Edit != nil && strings.Contains(op.Edit.Text, s) {
			return true
		}
	}
	return false
}

// cipher looks at the encryption of a stored single-user file.
func (o *secretOracle) cipher(where string, v *Vault, fresh bool) {
	if v == nil || len(v.users) > 0 {
		return
	}
	k := string(v.key) + "|" + string(v.iv)
	if was, ok := o.ivs[k]; ok && was != string(v.plain) {
		o.run.fail("iv", "different contents are encrypted with the same key and initialisation vector %x (%s)", v.iv, where)
	}
	o.ivs[k] = string(v.plain)
	o.run.w.probe("encrypted")
	if fresh {
		if was, ok := o.salts[string(v.salt)]; ok && was != where {
			o.run.fail("iv", "two new files (%s, %s) have the same salt %x", was, where, v.salt)
		}
		o.salts[string(v.salt)] = where
	}
}

func init() {
	register(&Property{ID: "C14", Rule: "one run is a history of sessions, some with edits, a failing disk or a crash, or of devices that sync; non-trivial when contents were saved",
		Scens: []*Scenario{
			{Name: "solo", Weight: 4, Variants: 5,
				Gen: func(r *Rand, tier string) *Plan {
					pl, g := soloGen(r, tier, 3, 6, 15)
					pl.K["victim"] = int64(r.N(len(pl.Steps)))
					if r.P(1, 4) {
						s := &pl.Steps[0].Sess[0]
						s.Ops = append(g.addUsers(1+r.N(2)), s.Ops...)
					}
					if g.editor != "" {
						for i := range pl.Steps {
							s := &pl.Steps[i].Sess[0]
							end := len(s.Ops)
							if end > 0 && (s.Ops[end-1].Do == "exit" || s.Ops[end-1].Line == "^C") {
								end--
							}
							tail := append([]Op(nil), s.Ops[end:]...)
							s.Ops = append(s.Ops[:end:end], Op{Line: "cd", Do: "cd"})
							g.ctx = ""
							for k := r.N(4); k > 0; k-- {
								e := g.edit()
								if e.Edit.Text != "" && r.P(1, 4) {
									e.Edit.Text = strings.Repeat(e.Edit.Text+" ", 2+r.N(30))
								}
								s.Ops = append(s.Ops, e)
							}
							s.Ops = append(s.Ops, tail...)
						}
						if r.P(1, 10) {
							pl.Devs[0].Programs = nil // the editor is not there
						}
					}
					readBack(pl)
					if r.P(1, 2) {
						pl.Steps = append(pl.Steps, Step{Sess: []Session{{Args: []string{"-f", "/home/u/other.blob"}, Pass: g.pass, Role: "other", Ops: []Op{g.addNamed("other")}}}})
					}
					if r.P(1, 3) {
						pl.Steps = append(pl.Steps, Step{Sess: []Session{{Args: []string{"export", "out.csv"}, Role: "export", Pass: "$", User: "$"}}})
					}
					return pl
				},
				Setup: func(run *Run) Hooks {
					h, j := soloHooks(run, "none")
					o := newSecretOracle(run)
					fresh := map[string]bool{}
					j.extra = func(p *Proc, before, after *Model, saved int, v *Vault) {
						f := p.vaultFile()
						o.cipher(f, v, !fresh[f])
						fresh[f] = true
					}
					before, after := h.before, h.after
					h.before = func(step int) {
						before(step)
						o.before(step)
					}
					h.after = func(step int) {
						for _, p := range run.procs[step] {
							if p.sess.Role != "export" {
								after(step)
							}
						}
						o.after(step)
					}
					return h
				},
				Mutate: func(r *Rand, pl *Plan, base *Run, v int) *Plan {
					vi := int(pl.K["victim"])
					if vi >= len(base.procs) {
						return nil
					}
					p := base.procs[vi][0]
					s := &pl.Steps[vi].Sess[0]
					f := Fault{Kind: "kill", At: 1 + r.N(p.events)}
					if v%2 == 0 {
						f = storageFault(r, p.events)
						if r.P(1, 2) {
							f = Fault{Kind: r.pick([]string{"eio", "enospc", "short", "eintr"}), At: 1 + r.N(p.events)}
						}
					}
					s.Faults = append(s.Faults, f)
					return pl
				}},
			{Name: "sync", Weight: 1,
				Gen: func(r *Rand, tier string) *Plan {
					pl, _ := syncGen(r, tier, syncOpts{})
					return pl
				},
				Setup: func(run *Run) Hooks {
					so := newSyncOracle(run, "none")
					o := newSecretOracle(run)
					h := Hooks{}
					h.before = func(step int) {
						so.before(step)
						o.before(step)
					}
					h.after = func(step int) {
						so.after(step)
						o.after(step)
						for i, d := range run.w.devs {
							if b, ok := d.fs.read(vaultPath); ok {
								if v, err := so.pass(b); err == nil {
									run.nontrivial = true
									o.cipher("device "+fmt.Sprint(i), v, false)
								}
							}
						}
						for i, r := range run.plan.remotes() {
							b, ok := run.remoteRead(r)
							if !ok {
								continue
							}
							if s := o.find(string(b)); s != "" {
								run.fail("secret", "%s is in the clear on remote %d", s, i)
							}
							if v, err := so.pass(b); err == nil {
								o.cipher("remote "+fmt.Sprint(i), v, false)
							}
						}
					}
					return h
				}},
		}})
}
