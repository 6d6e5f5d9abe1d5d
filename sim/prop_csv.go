package verifsim

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// C16: exports and imports are complete and exact.

const lpassHeader = "url,username,password,extra,name,grouping,fav"

// lpassRows are records of a LastPass export.
func (g *GState) lpassRows(n int) [][]string {
	r := g.r
	rows := [][]string{strings.Split(lpassHeader, ",")}
	for i := 0; i < n; i++ {
		opt := func(s string) string {
			if r.P(1, 3) {
				return ""
			}
			return s
		}
		name := r.pick([]string{"Home Bank", "GitHub", "mail", "My Mail", "Zürich Ö", "shop", "A B C", "x", "日本", "Forum 7"})
		if len(g.names) > 0 && r.P(1, 3) {
			name = strings.ToUpper(g.names[r.N(len(g.names))])
		}
		if r.P(1, 2) {
			name += " " + sprint(r.N(30))
		}
		row := []string{opt("https://" + g.word() + ".example/?a=1,2"), opt(g.line()), opt(g.line()), opt(g.text()), name,
			opt(r.pick([]string{"Work", "Private,Old", "work", "Größe", "a b", "L\"x\""})), r.pick([]string{"0", "1", "0", ""})}
		rows = append(rows, row)
	}
	return rows
}

// imported applies a LastPass export to the model.
func (m *Model) imported(rows [][]string) {
	for i, row := range rows {
		if i == 0 {
			continue
		}
		n := strings.ReplaceAll(strings.ToLower(row[4]), " ", "_")
		for m.ents[n] != nil {
			n += "1"
		}
		e := REntry{}
		for k, f := range map[string]int{"url": 0, "user": 1, "pass": 2, "notes": 3} {
			if row[f] != "" {
				e[k] = row[f]
			}
		}
		var l []string
		if row[5] != "" {
			l = append(l, strings.ToLower(row[5]))
		}
		if row[6] == "1" {
			l = append(l, "lpfav")
		}
		if len(l) > 0 {
			e["labels"] = strings.Join(l, ",")
		}
		m.ents[n] = e
		m.touch(n)
	}
}

// exportMatches compares an exported file with the decoded contents.
func exportMatches(data string, want map[string]REntry) error {
	rows, err := parseCSV(data)
	if err != nil {
		return fmt.Errorf("not a CSV file: %v", err)
	}
	if len(rows) == 0 {
		if len(want) == 0 {
			return nil
		}
		return fmt.Errorf("the file is empty")
	}
	head := rows[0]
	seen := map[string]bool{}
	for _, k := range head {
		if seen[k] {
			return fmt.Errorf("column %q occurs twice", k)
		}
		seen[k] = true
	}
	var a, b []string
	for _, row := range rows[1:] {
		if len(row) != len(head) {
			return fmt.Errorf("a line has %d fields, the header %d", len(row), len(head))
		}
		e := REntry{}
		for i, f := range row {
			if f != "" {
				e[head[i]] = f
			}
		}
		a = append(a, canon(map[string]REntry{"": e}))
	}
	for _, e := range want {
		x := REntry{}
		for k, v := range e {
			if !seen[k] {
				return fmt.Errorf("key %q has no column", k)
			}
			if v != "" {
				x[k] = v
			}
		}
		b = append(b, canon(map[string]REntry{"": x}))
	}
	sort.Strings(a)
	sort.Strings(b)
	for i := range b {
		if i >= len(a) || a[i] != b[i] {
			got := "nothing"
			if i < len(a) {
				got = a[i]
			}
			return fmt.Errorf("%d lines for %d entries: expected %s, found %s", len(a), len(b), b[i], got)
		}
	}
	if len(a) > len(b) {
		return fmt.Errorf("%d lines for %d entries: unexpected %s", len(a), len(b), a[len(b)])
	}
	return nil
}

func init() {
	register(&Property{ID: "C16", Rule: "one run is a history of sessions with exports and imports, some with a failing disk or client; non-trivial when an export or import was complete",
		Scens: []*Scenario{
			{Name: "export", Weight: 1, Variants: 3,
				Gen: func(r *Rand, tier string) *Plan {
					pl, g := soloGen(r, tier, 3, 8, 5)
					if r.P(1, 3) {
						s := &pl.Steps[0].Sess[0]
						s.Ops = append(g.addUsers(1+r.N(2)), s.Ops...)
					}
					fileArgs(r, pl)
					at := 1 + r.N(len(pl.Steps))
					s := Session{Role: "export", Pass: "$", User: "$", Args: append([]string(nil), pl.Steps[0].Sess[0].Args...)}
					out := r.pick([]string{"out.csv", "/home/u/x.csv", "/mnt/share/all.csv", "/tmp/e"})
					sub := []string{"export", out}
					if r.P(1, 4) {
						sub = append(sub, "--format", r.pick([]string{"CSV", "CSV", "csv", "json", ""}))
					}
					s.Args = append(s.Args, sub...)
					if r.P(1, 3) {
						pl.Devs[0].Files = append(pl.Devs[0].Files, FilePlan{Path: cleanPath("/home/u", out), Mode: 0600, B64: b64([]byte(strings.Repeat("old,contents\n", r.N(2000))))})
					}
					pl.Steps = append(pl.Steps[:at:at], append([]Step{{Sess: []Session{s}}}, pl.Steps[at:]...)...)
					pl.K["victim"] = int64(at)
					readBack(pl)
					return pl
				},
				Setup: csvHooks,
				Mutate: func(r *Rand, pl *Plan, base *Run, v int) *Plan {
					vi := int(pl.K["victim"])
					if vi >= len(base.procs) || len(base.procs[vi]) == 0 {
						return nil
					}
					p := base.procs[vi][0]
					s := &pl.Steps[vi].Sess[0]
					f := storageFault(r, p.events)
					if f.Op == "" || r.P(1, 2) {
						f = Fault{Kind: r.pick([]string{"eio", "enospc", "erofs", "short", "eintr"}), At: 1 + r.N(p.events), Stay: r.P(1, 3)}
						if f.Kind == "eintr" {
							f.Stay = false
						}
					}
					s.Faults = append(s.Faults, f)
					return pl
				}},
			{Name: "import", Weight: 1, Variants: 2,
				Gen: func(r *Rand, tier string) *Plan {
					pl, g := soloGen(r, tier, 3, 6, 5)
					if r.P(9, 10) {
						pl.Devs[0].Programs = append(pl.Devs[0].Programs, "lpass")
					}
					fileArgs(r, pl)
					at := r.N(len(pl.Steps) + 1)
					rows := g.lpassRows(r.N(12))
					if large := r.P(1, 60); large {
						rows = g.lpassRows(250 + r.N(300))
						pl.Steps = append(pl.Steps, Step{Sess: []Session{{Role: "export", Pass: "$", User: "$", Args: append(append([]string(nil), pl.Steps[0].Sess[0].Args...), "export", "/home/u/large.csv")}}})
					}
					s := Session{Role: "import", Pass: "$", User: "$", Args: append([]string(nil), pl.Steps[0].Sess[0].Args...), Lpass: r.writeCSV(rows)}
					if at == 0 {
						s.Pass = g.pass
					}
					s.Args = append(s.Args, "lpassimport")
					s.Def = []Ans{{M: "proceed (y/N)", R: r.pick([]string{"y", "Y", "y", "n", "", "^C", "^D", "no"})}}
					switch r.N(8) {
					case 0:
						s.LpassCode = 1
					case 1:
						s.Lpass = breakCSV(r, s.Lpass)
					}
					pl.Steps = append(pl.Steps[:at:at], append([]Step{{Sess: []Session{s}}}, pl.Steps[at:]...)...)
					pl.K["victim"] = int64(at)
					readBack(pl)
					return pl
				},
				Setup: csvHooks,
				Mutate: func(r *Rand, pl *Plan, base *Run, v int) *Plan {
					vi := int(pl.K["victim"])
					if vi >= len(base.procs) || len(base.procs[vi]) == 0 {
						return nil
					}
					s := &pl.Steps[vi].Sess[0]
					s.Faults = append(s.Faults, storageFault(r, base.procs[vi][0].events))
					return pl
				}},
		}})
}

func breakCSV(r *Rand, s string) string {
	switch r.N(9) {
	case 6:
		i := r.N(len(s) + 1)
		return s[:i] + "\"" + s[i:]
	case 7:
		return s + r.pick([]string{"http://h,us\"er,p,n,quoted,,0\n", "http://h,\"us\"er,p,n,quoted,,0\n", "http://h,u,p,a \"note\",quoted,,0\n", "http://h,u,p,n,quoted,,\"0\n", "http://h,u,p,n,quoted,\"\"g,0\n"})
	case 8: // lines that are not rows
		return s + r.pick([]string{"Error: timed out\n", "http://h,u,p,n,short,0\n", "http://h,u,p,n,long,,0,\n"})
	case 5:
		return s + "http://h,caf\ue0e9,p\ue0ff,n,latin,,0\n"
	case 0:
		return "Error: Could not find decryption key. Perhaps you need to login with `lpass login`.\n"
	case 1:
		return strings.Replace(s, "grouping", "group", 1)
	case 2:
		return s[:r.N(len(s)+1)]
	case 3:
		return s + "one,two\n"
	default:
		return s + "\"never closed,a,b,c,d,e,f\n"
	}
}

// goodImport parses what the client printed; nil if it must be refused.
func goodImport(s string) [][]string {
	if s == "" {
		return [][]string{}
	}
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	rows, err := parseCSV(s)
	if err != nil || !utf8.ValidString(s) || len(rows) == 0 || strings.Join(rows[0], ",") != lpassHeader {
		return nil
	}
	for _, row := range rows {
		if len(row) != 7 {
			return nil
		}
		for i := range row {
			row[i] = strings.ReplaceAll(row[i], "\r\n", "\n") // however a line ends
		}
	}
	return rows
}

func csvHooks(run *Run) Hooks {
	h, j := soloHooks(run, "shown contents crash status denied changed rewritten torn")
	var pending func(v *Vault)
	var had map[string]bool // files there before the session
	j.sub = func(p *Proc, start *Model) (*Model, int) {
		a := p.agent
		if _, pass, ok := a.opener(); !start.exists || !ok || !start.valid(start.me, pass) {
			return start, 0
		}
		switch p.sess.Role {
		case "export":
			format := p.arg("--format")
			bad := format != "" && format != "CSV"
			if p.arg("--format") == "" && strings.Contains(strings.Join(p.args, " "), "--format") {
				bad = true
			}
			out := cleanPath("/home/u", outFile(p))
			if bad {
				if p.code == 0 {
					run.fail("csv", "export in format %q ends with status 0", format)
				}
				return start, 0
			}
			pending = func(v *Vault) {
				if p.code != 0 || p.crashed != "" {
					if p.fired == 0 {
						run.fail("csv", "export fails with status %d: %q", p.code, p.out.String())
					}
					return
				}
				eff, _ := v.effective()
				b, _ := p.dev.fs.read(out)
				if err := exportMatches(string(b), eff); err != nil {
					run.fail("csv", "the exported file is wrong: %v\n%s", err, p.story())
				}
				if n := p.dev.fs.get(out); n != nil && !had[out] && n.mode&077 != 0 {
					run.fail("csv", "the exported file is readable by others: mode %o", n.mode&0777)
				}
				run.w.probe("exported")
			}
			return start, 1
		case "import":
			after := start.clone()
			for _, e := range a.hist {
				if strings.HasPrefix(e.Prompt, "proceed") {
					switch e.Reply {
					case "y", "Y":
					case "^C", "^D":
						return start, 0
					default:
						return start, 1
					}
				}
			}
			rows := goodImport(raw(p.sess.Lpass))
			if p.sess.LpassCode != 0 || rows == nil || p.w.stats.Probes["lpass-run"] == 0 {
				return start, 0
			}
			after.imported(rows)
			run.w.probe("imported")
			return after, 1
		}
		return start, 0
	}
	solo, prep := h.after, h.before
	h.before = func(step int) {
		prep(step)
		had = map[string]bool{}
		for _, d := range run.w.devs {
			for _, s := range run.plan.Steps[step].Sess {
				for _, a := range s.Args {
					p := cleanPath("/home/u", a)
					had[p] = had[p] || d.fs.get(p) != nil
				}
			}
		}
	}
	h.after = func(step int) {
		pending = nil
		solo(step)
		if pending != nil && !j.broken {
			for _, p := range run.procs[step] {
				if b, ok := p.dev.fs.read(p.vaultFile()); ok {
					if v, err := j.model(p).open(b); err == nil {
						pending(v)
					}
				}
			}
		}
		run.nontrivial = run.w.stats.Probes["exported"]+run.w.stats.Probes["imported"] > 0
	}
	return h
}

// outFile is the file an export session writes.
func outFile(p *Proc) string {
	for i, a := range p.args {
		if a == "export" && i+1 < len(p.args) {
			return p.args[i+1]
		}
	}
	return ""
}
