package verifsim

import (
	"fmt"
	"strings"
)

// Who is inside an entry stays inside that entry, whatever it is called, and
// whatever else gets its name.

const insideKey = "qqx"

func insideGen(r *Rand, tier string) *Plan {
	pl := &Plan{K: map[string]int64{"own": 1, "resolve": int64(r.N(2))}, S: map[string]string{}}
	nd := 2
	base := newGState(r)
	pl.S["pass"] = base.pass
	names := []string{"mail", "mail", "mail1", "mailbox", "bank", "bank"}
	for i := 0; i < nd; i++ {
		dp := DevPlan{Env: map[string]string{"EDITOR": "vim"}, Programs: []string{"vim"}}
		if i > 0 && r.P(1, 3) {
			dp.ClockOff = int64(r.N(2000)-1000) * 1e9
		}
		pl.Devs = append(pl.Devs, dp)
	}
	def := []Ans{{"Save this host", "y"}, {"[R]estore", []string{"r", "d"}[pl.K["resolve"]]}, {mergeAnyway, "y"}, {"use remote cred", "n"}}
	remote := addRemote(r, pl, true)
	tok := 0
	op := func() Op {
		n := r.pick(names)
		switch r.N(16) {
		case 0, 1:
			return Op{Line: "add " + n, Do: "add", A: []string{n}, Ans: []Ans{{M: "email: "}, {M: "user: "}, {menuPrompt, "y"}}}
		case 2, 12, 13:
			to := r.pick(names)
			return Op{Line: "mv " + n + " " + to, Do: "mv", A: []string{n, to}}
		case 3:
			return Op{Line: "rm " + n, Do: "rm", A: []string{n}, Ans: []Ans{{"to proceed", r.pick([]string{n, n, "no"})}}}
		case 4, 5:
			if r.P(1, 4) {
				return Op{Line: "cd", Do: "cd"}
			}
			return Op{Line: "cd " + n, Do: "cd", A: []string{n}}
		case 6, 7:
			return Op{Line: "sync", Do: "sync"}
		default:
			tok++
			v := fmt.Sprint("w", tok)
			return Op{Line: "set " + insideKey + " " + v, Do: "set", A: []string{insideKey, v}}
		}
	}
	for d := 0; d < nd; d++ {
		s := Session{Dev: d, Pass: base.pass, Gap: int64(r.N(5000)) * 1e9, Def: def}
		for _, n := range []string{"mail", "bank", "mailbox"} {
			if r.P(1, 2) {
				s.Ops = append(s.Ops, Op{Line: "add " + n, Do: "add", A: []string{n}, Ans: []Ans{{M: "email: "}, {M: "user: "}, {menuPrompt, "y"}}})
			}
		}
		s.Ops = append(s.Ops, remote)
		pl.Steps = append(pl.Steps, Step{Sess: []Session{s}})
	}
	for k := 3 + r.N(6); k > 0; k-- {
		s := Session{Dev: r.N(nd), Pass: base.pass, Gap: int64(r.N(5000)) * 1e9, Def: def}
		if r.P(1, 2) {
			// the sync that tells is one from within
			s.Args = []string{"--no-sync"}
		}
		n := r.pick(names)
		s.Ops = append(s.Ops, Op{Line: "cd " + n, Do: "cd", A: []string{n}})
		for n := 2 + r.N(8); n > 0; n-- {
			s.Ops = append(s.Ops, op())
		}
		pl.Steps = append(pl.Steps, Step{Sess: []Session{s}})
	}
	pl.K["settle"] = int64(nd * (nd + 1))
	for k := 0; k < nd+1; k++ {
		for d := 0; d < nd; d++ {
			pl.Steps = append(pl.Steps, Step{Sess: []Session{{Dev: d, Pass: base.pass, Gap: 60e9, Role: "settle", Def: def}}})
		}
	}
	return pl
}

func insideSetup(run *Run) Hooks {
	h, o := syncHooks(run, "crash diverged lost overwritten stale")
	after, end := h.after, h.end
	moves := 0
	h.after = func(step int) {
		after(step)
		p := run.procs[step][0]
		if p.crashed != "" || p.code != 0 || o.invalid || len(run.viol) > 0 {
			return
		}
		b, ok := p.dev.fs.read(p.vaultFile())
		if !ok {
			return
		}
		v, err := o.pass(b)
		if err != nil {
			return
		}
		at := map[string]string{}
		for _, t := range v.Log {
			if t.Kind == "setk" && t.Key == insideKey {
				at[t.Value] = t.UUID
			}
		}
		in, from, moved := "", "", false
		for i, op := range p.sess.Ops {
			if i >= len(p.agent.prompts) {
				break
			}
			switch {
			case op.Do == "cd":
				in = ""
			case op.Do == "sync" || op.Do == "mv":
				moved = true
			case op.Do == "rm" && len(p.agent.inOp(i)) > 0 && strings.Contains(p.agent.outOf(i), "WARNING"):
				// perhaps it is gone
				if promptEntry(p.agent.prompts[i]) == op.A[0] {
					in = ""
				}
			case op.Do == "set" && promptEntry(p.agent.prompts[i]) != "" && at[op.A[1]] != "":
				u := at[op.A[1]]
				if in != "" && in != u {
					run.fail("inside", "%s on %s: %q and %q were typed inside one entry but went to %.8s and %.8s", p.story(), p.dev.name, from, op.Line, in, u)
					return
				}
				if in == u && moved {
					moves++
				}
				in, from = u, op.Line
			}
		}
	}
	h.end = func() {
		end()
		run.nontrivial = moves > 0
	}
	return h
}
