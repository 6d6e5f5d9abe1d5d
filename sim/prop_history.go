package verifsim

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// C11: the past can be looked at exactly, and looking changes nothing.

// epoch is what a vault held between two commands.
type epoch struct {
	from, to int64 // device time; to is exclusive
	m        *Model
}

// second returns a whole second within an epoch.
func (e epoch) second(r *Rand) (int64, bool) {
	a, b := (e.from+1e9-1)/1e9, (e.to-1)/1e9
	if a > b {
		return 0, false
	}
	n := b - a + 1
	if n > 1000 {
		n = 1000
	}
	if r.P(1, 2) {
		return b - int64(r.N(int(n))), true
	}
	return a + int64(r.N(int(n))), true
}

var writeCommands = map[string]bool{"passwd": true, "adduser": true, "rekey": true, "rekeyall": true, "add": true, "mv": true, "rm": true, "rmk": true,
	"login": true, "set": true, "edit": true, "label": true, "rmlabel": true, "sync": true, "addsync": true}

// historyOps looks around in the past and tries to change it.
func historyOps(r *Rand, m *Model) []Op {
	var reads []Op
	names := sortedKeys(m.ents)
	for _, o := range readBackOps(m) {
		if r.P(2, 3) {
			reads = append(reads, o)
		}
	}
	if len(reads) > 25 {
		reads = reads[:25]
	}
	n := "nothing"
	if len(names) > 0 {
		n = names[r.N(len(names))]
	}
	write := func() Op {
		l := r.pick([]string{"set " + n + " user x", "rm " + n, "add new", "mv " + n + " other", "rmk " + n + " user", "passwd", "adduser bob", "rekey",
			"rekeyall", "sync", "addsync file", "edit " + n + " notes", "label " + n, "rmlabel " + n + " x", "login " + n, "set " + n + " pass", "add"})
		f := strings.Fields(l)
		return Op{Line: l, Do: f[0], A: f[1:], Ans: []Ans{{M: "email", R: "e"}, {M: "=user: ", R: "u"}, {M: menuPrompt, R: "y"}, {M: "sure", R: "y"}, {M: "proceed", R: n}, {M: "path", R: "/home/u/p"}, {M: "=> ", R: "lab"}},
			Edit: &EditOp{Text: "changed"}}
	}
	var ops []Op
	for _, o := range reads {
		if r.P(1, 4) {
			ops = append(ops, write())
		}
		if r.P(1, 6) {
			ops = append(ops, Op{Line: "cp " + n + " user", Do: "cp", A: []string{n, "user"}})
		}
		ops = append(ops, o)
	}
	return append(ops, write())
}

// versionOps shows earlier versions of entries.
func versionOps(r *Rand, m *Model, log []RTx) []Op {
	var ops []Op
	eff, err := refReplay(log)
	if err != nil {
		return nil
	}
	for _, u := range sortedKeys(eff) {
		n := eff[u]["name"]
		if n == "" || m.ents[n] == nil || r.P(1, 3) {
			continue
		}
		c := 0
		for _, t := range log {
			if t.UUID == u {
				c++
			}
		}
		for k := 0; k < 3; k++ {
			x := 1 + r.N(c+2)
			ops = append(ops, Op{Line: "show " + n + " " + sprint(x), Do: "noop", A: []string{u, n, sprint(x)}})
		}
	}
	if len(ops) > 30 {
		ops = ops[:30]
	}
	return ops
}

// checkVersions judges the answers to versionOps.
func checkVersions(p *Proc, log []RTx, bad func(string, ...any)) {
	for i, o := range p.sess.Ops {
		if o.Do != "noop" || len(o.A) != 3 || !p.agent.opDone(i) {
			continue
		}
		out := p.agent.outOf(i)
		n, _ := strconv.Atoi(o.A[2])
		var own []RTx
		for _, t := range log {
			if t.UUID == o.A[0] {
				own = append(own, t)
			}
		}
		p.w.probe("version")
		if n >= len(own) {
			// before the entry existed
			if strings.Contains(out, "name:") || strings.TrimSpace(out) == "" {
				bad("%q goes back to before the entry existed but shows %q", o.Line, out)
			}
			continue
		}
		st, err := refReplay(own[:len(own)-n])
		if err != nil {
			continue
		}
		e := st[o.A[0]]
		if len(e) == 0 {
			if !strings.Contains(out, "empty") {
				bad("%q: the entry was empty then but this shows %q", o.Line, out)
			}
			continue
		}
		m := newModel()
		x := REntry{}
		for k, v := range e {
			if k != "updated" && k != "name" {
				x[k] = v
			}
		}
		m.ents[e["name"]] = x
		m.checkShow(e["name"], out, bad)
	}
}

func ascending(log []RTx) bool {
	for i := 1; i < len(log); i++ {
		if log[i].Time < log[i-1].Time {
			return false
		}
	}
	return true
}

func historyGen(r *Rand, tier string) *Plan {
	pl, g := soloGen(r, tier, 4, 9, 10)
	if r.P(1, 4) {
		s := &pl.Steps[r.N(len(pl.Steps))].Sess[0]
		s.Ops = append(g.addUsers(1+r.N(2)), s.Ops...)
	}
	if r.P(1, 4) {
		s := &pl.Steps[0].Sess[0]
		s.Ops = append([]Op{{Line: "addsync file", Do: "addsync", A: []string{"file"}, Ans: []Ans{{"path: ", "/mnt/share/copy"}}}}, s.Ops...)
	}
	fileArgs(r, pl)
	jumpy := r.P(1, 3)
	if r.P(1, 4) {
		// changes at the very moment that is asked for
		pl.Devs[0].ClockRes = r.pick64(1e6, 1e9)
	}
	for i := range pl.Steps {
		if jumpy && i > 0 && r.P(1, 2) {
			// the clock is set, or the device is another one
			pl.Steps[i].Sess[0].Jump = r.pick64(-1, -1, 1) * int64(1+r.N(1e5)) * 1e9
		}
		if r.P(1, 2) {
			// it is suspended in the middle of a command
			for n := 1 + r.N(3); n > 0; n-- {
				f := Fault{Kind: "pause", Op: "now", At: 1 + r.N(30), N: int(r.pick64(400, 1000, 2500, 90000, 4e6))}
				if jumpy && r.P(1, 2) {
					f.Kind, f.N = "step", f.N*(1-2*r.N(2))
				}
				pl.Steps[i].Sess[0].Faults = append(pl.Steps[i].Sess[0].Faults, f)
			}
		}
		for k := range pl.Steps[i].Sess[0].Ops {
			if r.P(1, 2) {
				pl.Steps[i].Sess[0].Ops[k].Wait = int64(1+r.N(100)) * 1e8 * int64(1+r.N(30))
			}
		}
	}
	look := func() Step {
		s := Session{Role: r.pick([]string{"then", "then", "then", "when", "versions"}), Pass: "$", User: "$", Args: append([]string(nil), pl.Steps[0].Sess[0].Args...), Rnd: ""}
		if jumpy && s.Role == "then" {
			s.Role = "when"
		}
		s.Gap = int64(r.N(5000)) * 1e9
		pl.K["look"+sprint(len(pl.K))] = int64(r.N(1 << 30))
		if r.P(1, 5) {
			s.Tabs = 3
		}
		return Step{Sess: []Session{s}}
	}
	var steps []Step
	for i, s := range pl.Steps {
		steps = append(steps, s)
		for i > 0 && r.P(1, 3) {
			steps = append(steps, look())
		}
	}
	for k := 1 + r.N(3); k > 0; k-- {
		steps = append(steps, look())
	}
	pl.Steps = steps
	pl.K["seed"] = int64(r.N(1 << 30))
	return pl
}

// digest lists all files of a device with their contents.
func (d *Device) digest() string {
	var b strings.Builder
	d.fs.files(func(path string, n *Inode) {
		if path == "/tmp/past.csv" {
			return
		}
		b.WriteString(path + "=" + sprint(hash2(uint64(n.mode), hashBytes(n.data))) + "\n")
	})
	return b.String()
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func init() {
	register(&Property{ID: "C11", Rule: "one run is a history of sessions followed by sessions that open the file as of an earlier time or show earlier versions of entries; non-trivial when such a session opened a file with contents",
		Scens: []*Scenario{{Name: "past", Weight: 1, Gen: historyGen, Setup: func(run *Run) Hooks {
			h, j := soloHooks(run, "crash shown")
			var eps []epoch
			var digest string
			var lastEnd int64 // when the last session that may have written was over
			then := map[*Session]*Model{}
			logAt := map[*Session][]RTx{}
			past := func(s *Session) bool { return s.Role == "then" || s.Role == "when" }
			run.w.hooks.states = func(p *Proc, i int, m *Model) {
				if past(p.sess) {
					return
				}
				p.agent.states = append(p.agent.states, epoch{p.agent.opShown[i], p.agent.opTime[i], m.clone()})
			}
			prep := h.before
			h.before = func(step int) {
				prep(step)
				digest = ""
				for i := range run.plan.Steps[step].Sess {
					s := &run.plan.Steps[step].Sess[i]
					if s.Role != "then" && s.Role != "when" && s.Role != "versions" {
						continue
					}
					s.Ops = nil
					r := NewRand(hash2(uint64(run.plan.K["seed"]), uint64(step)))
					d := run.w.devs[s.Dev]
					digest = d.digest()
					for _, k := range sortedKeys(j.models) {
						m, log := j.models[k], j.logs[k]
						if !m.exists || j.broken || s.Role != "when" && !ascending(log) {
							continue
						}
						var at int64
						switch s.Role {
						case "versions":
							s.Ops = versionOps(r, m, log)
							logAt[s] = log
							continue
						case "then":
							es := append(append([]epoch(nil), eps...), epoch{lastEnd, d.time() + 3e9, m})
							e := es[r.N(len(es))]
							var ok bool
							if at, ok = e.second(r); !ok {
								continue
							}
							c := e.m.clone()
							c.ctx, c.multi, c.users, c.pass = "", m.multi, m.users, m.pass
							then[s] = c
						case "when":
							if len(log) == 0 {
								continue
							}
							a, b := log[0].Time/1e9-1, log[0].Time/1e9+2
							for _, t := range log {
								a, b = imin64(a, t.Time/1e9-1), imax64(b, t.Time/1e9+2)
							}
							at = a + int64(r.N(int(b-a)))
							if r.P(2, 3) {
								at = log[r.N(len(log))].Time/1e9 + int64(r.N(2))
							}
						}
						var cut []RTx
						for _, t := range log {
							// a clock that was set back: what was there until then
							if t.Time > at*1e9 {
								break
							}
							cut = append(cut, t)
						}
						logAt[s] = cut
						if s.Role == "when" {
							st, err := refReplay(cut)
							if err != nil {
								continue
							}
							for u := range st {
								if _, ok := st[u]["name"]; !ok {
									delete(st, u)
								}
							}
							ents, err := byName(st, "name", "updated")
							if err != nil {
								continue
							}
							c := m.clone()
							c.ents = ents
							then[s] = c
						}
						c := then[s]
						c.upd, c.touched = map[string]string{}, map[string]bool{}
						if st, err := refReplay(cut); err == nil {
							for _, e := range st {
								if e["updated"] != "" {
									c.upd[e["name"]] = e["updated"]
								}
							}
						}
						flag := r.pick([]string{"-t", "--time"})
						var args []string
						for k := 0; k < len(s.Args); k++ {
							if s.Args[k] == "-t" || s.Args[k] == "--time" || s.Args[k] == "export" {
								k++
								continue
							}
							args = append(args, s.Args[k])
						}
						s.Args = append(args, flag, time.Unix(at, 0).UTC().Format("2006-01-02 15:04:05"))
						s.Ops = historyOps(r, then[s])
						d.fs.remove("/tmp/past.csv")
						if r.P(1, 6) {
							s.Args = append(s.Args, "export", "/tmp/past.csv")
						} else if r.P(1, 4) {
							s.Ops = append(s.Ops, versionOps(r, then[s], cut)...)
						}
						break
					}
				}
			}
			h.after = func(step int) {
				for _, p := range run.procs[step] {
					s := p.sess
					bad := func(format string, x ...any) { run.fail("past", "%s: "+format, append([]any{p.story()}, x...)...) }
					if !past(s) || p.arg("-t", "--time") == "" {
						if past(s) || j.broken {
							continue
						}
						log := j.logs[j.key(p)]
						lastEnd = p.dev.time()
						j.session(p)
						if j.broken {
							continue
						}
						if p.code == 0 && p.crashed == "" && len(p.agent.states) > 0 {
							for _, e := range p.agent.states {
								eps = append(eps, e)
							}
						}
						if s.Role == "versions" && p.crashed == "" {
							checkVersions(p, log, bad)
						}
						continue
					}
					start := then[s]
					if start == nil || j.broken {
						continue
					}
					if why := p.crashedBadly(); why != "" {
						run.fail("crash", "session %v died: %s (last command %q)", p.args[1:], why, p.agent.lastLine())
						continue
					}
					if d := p.dev.digest(); d != digest {
						run.fail("changed", "a session that looks at the past changed files:\n%s", diffLines(digest, d))
					}
					if p.subcommand() {
						if u, pass, ok := p.agent.opener(); ok && start.valid(u, pass) {
							b, _ := p.dev.fs.read("/tmp/past.csv")
							if err := start.exported(string(b)); err != nil || p.code != 0 {
								bad("status %d, %v\n%s", p.code, err, b)
							}
							run.w.probe("past-export")
						}
						continue
					}
					if !p.agent.reachedMain() {
						if u, pass, ok := p.agent.opener(); ok && start.valid(u, pass) {
							bad("is not opened: %q", p.out.String())
						}
						continue
					}
					start.readOnly = true
					start.play(p, bad)
					checkVersions(p, logAt[s], bad)
					if len(start.ents) > 0 {
						run.nontrivial = true
						run.w.probe("past-" + s.Role)
					}
					if p.code != 0 {
						bad("ends with status %d", p.code)
					}
				}
			}
			return h
		}}}})
}

// exported compares an export with the model.
func (m *Model) exported(data string) error {
	rows, err := parseCSV(data)
	if err != nil || len(rows) == 0 {
		return fmt.Errorf("not a CSV file: %v", err)
	}
	eff := map[string]REntry{}
	for i, row := range rows[1:] {
		e := REntry{}
		for k, f := range row {
			if k < len(rows[0]) && f != "" {
				e[rows[0][k]] = f
			}
		}
		eff[sprint(i)] = e
	}
	c := m.clone()
	for _, e := range c.ents {
		for k, v := range e {
			if v == "" {
				delete(e, k)
			}
		}
	}
	return c.compare(eff)
}

func diffLines(a, b string) string {
	in := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		in[l] = true
	}
	var out []string
	for _, l := range strings.Split(b, "\n") {
		if !in[l] {
			out = append(out, l)
		}
		delete(in, l)
	}
	for _, l := range sortedKeys(in) {
		out = append(out, "- "+l)
	}
	return strings.Join(out, "\n")
}
