package verifsim

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
)

// C22: no trouble with a remote costs what was done on a device.

// poison changes the history stored at a remote to one that decrypts but that
// no copy of the program would write.
func (run *Run) poison(e EnvOp) {
	r := NewRand(uint64(e.N))
	rm := remotePlan{srv: e.A, path: e.B}
	b, ok := run.remoteRead(rm)
	if !ok {
		if b, ok = run.w.devs[0].fs.read(vaultPath); !ok {
			return
		}
	}
	pass := run.plan.S["pass"]
	v, err := openVault(b, "", pass)
	if err != nil || len(v.users) > 0 {
		return
	}
	log := append([]RTx(nil), v.Log...)
	t := int64(1)
	if len(log) > 0 {
		t = log[len(log)-1].Time + int64(r.N(1000))*1e6
	}
	someUUID := func() string {
		if len(log) > 0 {
			return log[r.N(len(log))].UUID
		}
		return refUUID(r)
	}
	add := func(kind, u, k, val string) {
		x := RTx{Time: t, Kind: kind, UUID: u, Key: k, Value: val}
		if r.P(1, 5) && len(log) > 0 {
			i := r.N(len(log))
			x.Time = log[i].Time
			log = append(log[:i], append([]RTx{x}, log[i:]...)...)
			return
		}
		log = append(log, x)
	}
	what := ""
	var plain []byte
	for k := 1 + r.N(2); k > 0; k-- {
		x := r.N(18)
		if e.Op == "junk" {
			x = 9
		}
		switch x {
		case 0:
			what = "set-nowhere"
			add("setk", refUUID(r), "user", "x")
		case 1:
			what = "added-twice"
			add("add", someUUID(), "", "")
		case 2:
			what = "deleted-nowhere"
			add("del", refUUID(r), "", "")
		case 3:
			what = "delk-nowhere"
			add("delk", refUUID(r), "user", "")
		case 4:
			what = "set-after-delete"
			u := someUUID()
			add("del", u, "", "")
			add("setk", u, "user", "x")
		case 5:
			what = "unknown-kind"
			add(r.pick([]string{"", "foo", "ADD"}), someUUID(), "user", "x")
		case 6:
			what = "empty-history"
			log = nil
		case 7:
			what = "nameless"
			u := refUUID(r)
			add("add", u, "", "")
			if r.P(1, 2) {
				add("setk", u, "name", "")
			}
		case 8:
			what = "odd-remote"
			u := refUUID(r)
			add("add", u, "", "")
			add("setk", u, "name", "sync/odd"+sprint(r.N(3)))
			add("setk", u, "sync", "true")
			add("setk", u, "url", r.pick(soupURLs))
			if r.P(1, 2) {
				add("setk", u, r.pick([]string{"privkey", "knownhosts"}), r.pick([]string{"x", "", "a b c d", "\n\n", "srv0.example:22"}))
			}
		case 9:
			what = "not-json"
			plain = []byte(r.pick([]string{"", "x", "{", "[]", "null", "0", `"x"`, `{"log":{}}`, `{"log":[1]}`, `{"log":null}`, `{"log":[null]}`, "{}", `{"version":-1}`, `{"snapshot":{"a":null}}`, `{"snapshot":[]}`, `{"log":[{"time":1e300}]}`, `{"log":[{"time":"x"}]}`}))
			for e.Op == "junk" && (string(plain) == `{"version":-1}` || string(plain) == `{"snapshot":[]}`) {
				// what surrounds a remote's log is not read
				plain = []byte(r.pick([]string{"", "x", "{", "[]", "0", `{"log":{}}`, `{"log":[1]}`, `{"log":[{"time":1e300}]}`}))
			}
		case 10:
			what = "stale-snapshot"
			v.Snapshot = map[string]REntry{refUUID(r): {"name": "ghost"}}
			v.Version = uint(r.N(2 * (len(log) + 1)))
		case 11:
			what = "doubled"
			log = append(log, log...)
		case 12:
			what = "reversed"
			for i, j := 0, len(log)-1; i < j; i, j = i+1, j-1 {
				log[i], log[j] = log[j], log[i]
			}
		case 13:
			what = "odd-times"
			for i := range log {
				if r.P(1, 3) {
					log[i].Time = int64(r.Next())
				}
			}
		case 14:
			what = "cut"
			if len(log) > 0 {
				i := r.N(len(log))
				log = append(log[:i], log[imin(len(log), i+1+r.N(3)):]...)
			}
		case 15:
			what = "unrelated"
			m := map[string]string{}
			for i := range log {
				u := log[i].UUID
				if m[u] == "" {
					m[u] = refUUID(r)
				}
				log[i].UUID = m[u]
			}
		case 17:
			// fine alone, but not together with the original
			what = "added-later"
			for k := 0; k < 4 && len(log) > 0; k++ {
				if i := r.N(len(log)); log[i].Kind == "add" {
					log[i].Time += int64(1 + r.N(5))
					break
				}
			}
		case 16:
			what = "legal"
			u := refUUID(r)
			add("add", u, "", "")
			log = append(log, RTx{Time: t, Kind: "setk", UUID: u, Key: "name", Value: "fine" + sprint(r.N(1000))})
		}
	}
	v.Log = log
	if plain == nil {
		plain, _ = json.Marshal(v)
	}
	salt, iv := v.salt, randBytes(r, 40)
	if len(salt) == 0 || r.P(1, 4) {
		salt = randBytes(r, 32)
	}
	hdr := append([]byte("blobpass00010000"), salt...)
	hdr = append(hdr, iv...)
	out := sealVault(hdr, refKDF(pass, salt), iv, plain)
	if e.A == "" {
		run.w.share.put("/"+e.B, out, 0600)
	} else {
		run.w.servers[e.A].fs.put("/home/srv/"+e.B, out, 0600)
	}
	run.w.stats.fault("poison-" + what)
}

// remoteOp adds another remote or removes one.
func (g *GState) remoteOp(r *Rand, pl *Plan) Op {
	if r.P(2, 5) {
		n := r.pick([]string{"sync/file", "sync/scp", "sync/scp1", "sync/file1", "sync/scp11"})
		return Op{Line: "rm " + n, Do: "rm", A: []string{n}, Ans: []Ans{{M: "to proceed", R: n}}}
	}
	if len(pl.Srvs) == 0 || r.P(1, 4) {
		return Op{Line: "addsync file", Do: "addsync", A: []string{"file"}, Ans: []Ans{{"path: ", "/mnt/share/" + r.pick([]string{"more", "other"})}}}
	}
	sp := pl.Srvs[r.N(len(pl.Srvs))]
	host, port, _ := strings.Cut(sp.Addr, ":")
	op := Op{Line: "addsync scp", Do: "addsync", A: []string{"scp"}, Ans: []Ans{{"=user: ", "srv"}, {"=host: ", host}, {"=port (22): ", port}, {"=path: ", r.pick([]string{"third", "vault0", "fourth"})}}}
	if r.P(1, 2) {
		op.Ans = append(op.Ans, Ans{"=> ", "3"})
		op.Ans = append(op.Ans, manual(sp.Users["srv"])...)
	} else {
		op.Ans = append(op.Ans, Ans{"=> ", "1"})
	}
	return op
}

func init() {
	trouble := func(name string, w int, so syncOpts, poison bool) *Scenario {
		return &Scenario{Name: name, Weight: w, Gen: func(r *Rand, tier string) *Plan {
			pl, _ := syncGen(r, tier, so)
			trimSettle(pl)
			for i := range pl.Steps {
				for k := range pl.Steps[i].Sess {
					s := &pl.Steps[i].Sess[k]
					s.Def = append(append([]Ans(nil), s.Def...), Ans{M: "merge these anyway", R: r.pick([]string{"n", "n", "y"})}, Ans{M: "use remote cred", R: r.pick([]string{"n", "y"})})
					if r.P(1, 5) {
						s.Def[0].R = r.pick([]string{"n", "", "^D", "x"})
					}
					if r.P(1, 8) {
						s.Def[1].R = "^D"
					}
				}
			}
			if poison {
				rs := pl.remotes()
				for i := 1; i < len(pl.Steps); i++ {
					if r.P(1, 2) {
						rm := rs[r.N(len(rs))]
						if rm.srv != "" && r.P(1, 4) {
							pl.Steps[i].Env = append(pl.Steps[i].Env, EnvOp{Op: "srvrude", A: rm.srv, N: int64(pick(r, 0, 1+r.N(200), 1+r.N(200)))})
							continue
						}
						pl.Steps[i].Env = append(pl.Steps[i].Env, EnvOp{Op: "poison", A: rm.srv, B: rm.path, N: int64(r.Next() >> 1)})
					}
				}
			} else if r.P(1, 2) {
				addDamage(r, pl)
			}
			return pl
		}, Setup: func(run *Run) Hooks {
			h, o := syncHooks(run, "crash lost")
			o.forced = true
			before, after := h.before, h.after
			h.end = nil
			stored := map[string][]byte{}
			h.before = func(step int) {
				before(step)
				for _, d := range run.w.devs {
					stored[d.name], _ = d.fs.read(vaultPath)
				}
			}
			h.after = func(step int) {
				after(step)
				for _, p := range run.procs[step] {
					run.nontrivial = run.nontrivial || len(p.agent.hist) > 4 && run.w.stats.Probes["pushed"] > 0
					local := false
					for _, f := range p.sess.Faults {
						switch f.Kind {
						case "eio", "enospc", "short", "eacces", "kill", "power", "rfail":
							local = true
						}
					}
					if p.crashed != "" || p.crashedBadly() != "" || local || !p.agent.reachedMain() {
						continue
					}
					quit := false
					for i, e := range p.agent.hist {
						// ^D and ^C within a command end the session, but
						// at the questions of a sync they are answers
						quit = quit || e.Op >= 0 && (e.Reply == "^D" || e.Reply == "^C") && i > 0 && !syncPrompt(e.Prompt)
					}
					if p.code != 0 && !quit {
						run.fail("status", "%s on %s ended with status %d: %q", p.story(), p.dev.name, p.code, lastLines(p.out.String(), 5))
					}
					if p.code == 0 {
						o.others(p, stored[p.dev.name])
					}
				}
			}
			return h
		}}
	}
	register(&Property{ID: "C22", Rule: "one run is a history of 2 or 3 devices whose remotes fail, hold damaged or poisoned histories, or are removed while in use; non-trivial when a remote was written",
		Scens: []*Scenario{
			trouble("poison", 3, syncOpts{}, true),
			trouble("remotes", 2, syncOpts{remotes: true, faults: true}, false),
			trouble("poisoned-remotes", 1, syncOpts{remotes: true, faults: true, dels: true, skew: true}, true)}})
}

// others checks that every sync of a session turned to every remote, whatever
// the others did: it was pulled, and pushed to unless something was reported.
func (o *syncOracle) others(p *Proc, before []byte) {
	now, ok := p.dev.fs.read(p.vaultFile())
	old, err := o.pass(before)
	if !ok || err != nil {
		return
	}
	v, err := o.pass(now)
	if err != nil {
		return
	}
	// entries that nothing happened to
	had := map[RTx]bool{}
	for _, t := range old.Log {
		had[t] = true
	}
	moved := map[string]bool{}
	for _, t := range v.Log {
		if !had[t] && (t.Kind != "setk" || t.Key != "knownhosts" && t.Key != "updated") {
			moved[t.UUID] = true
		}
	}
	eff, _ := old.effective()
	var names []string
	for _, u := range sortedKeys(eff) {
		l, err := url.Parse(eff[u]["url"])
		if err == nil && !moved[u] && eff[u]["sync"] == "true" && eff[u]["name"] != "" && (l.Scheme == "scp" || l.Scheme == "file") {
			names = append(names, eff[u]["name"])
		}
	}
	out := p.out.String()
	type cut struct {
		at    int
		reply string
	}
	var cuts []cut
	for _, e := range p.agent.hist {
		if e.Main {
			cuts = append(cuts, cut{imin(e.OutPos, len(out)), e.Reply})
		}
	}
	cuts = append(cuts, cut{len(out), ""})
	// what was done before the end is synced at the end
	own := ""
	theirs := map[RTx]bool{}
	for _, b := range o.rbefore {
		if rv, err := o.pass(b); err == nil {
			for _, t := range rv.Log {
				theirs[t] = true
			}
		}
	}
	for _, e := range p.agent.hist {
		if !e.Main {
			continue
		}
		for _, t := range v.Log {
			if !had[t] && !theirs[t] && t.Time >= e.At && own == "" {
				own = txStr(t)
			}
		}
		break
	}
	at, by := 0, ""
	for i, c := range cuts {
		part, line := stripANSI(out[at:c.at]), by
		at, by = c.at, c.reply
		if strings.HasPrefix(line, "sync ") {
			continue // only one of them
		}
		last := i == len(cuts)-1 && own != "" && !strings.Contains(strings.Join(p.args, " "), "--no-sync") && len(names) > 0
		if last && !strings.Contains(part, "pull: ") {
			o.run.fail("others", "%s on %s made %s and did not sync when it ended", p.story(), p.dev.name, own)
			return
		}
		if !strings.Contains(part, "pull: ") || strings.Contains(part, "aborting sync") {
			continue
		}
		for _, n := range names {
			k := strings.LastIndex(part, "pull: "+n+"\n")
			if k < 0 {
				o.run.fail("others", "%s on %s synced, but not with %q", p.story(), p.dev.name, n)
				return
			}
			rest := part[k:]
			if !strings.Contains(rest, "push: "+n+"\n") && !strings.Contains(rest, "skip: "+n+" ") && !strings.Contains(rest, fmt.Sprintf(" %q: ", n)) {
				o.run.fail("others", "%s on %s pulled %q and reported nothing, but did not push to it", p.story(), p.dev.name, n)
				return
			}
			o.run.w.probe("every-remote-served")
		}
	}
}

func syncPrompt(p string) bool {
	for _, q := range []string{"Save this host", "estore item", "merge these anyway", "use remote cred"} {
		if strings.Contains(p, q) {
			return true
		}
	}
	return false
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}
