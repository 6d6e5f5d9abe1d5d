package verifsim

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// C10: syncing locks nobody out.

// credOp changes who may open the file, and how.
func (g *GState) credOp(r *Rand, multi bool) Op {
	pw := func() string { return "pw-" + g.tag + sprint(r.N(1e6)) }
	if !multi {
		if r.P(1, 3) {
			return Op{Line: "rekey", Do: "rekey"}
		}
		return Op{Line: "passwd", Do: "passwd", Ans: manual(pw())}
	}
	u := r.pick([]string{"ann", "bob", "bob", "cid", "dee"})
	switch r.N(14) {
	case 0, 1, 2:
		return Op{Line: "adduser " + u, Do: "adduser", A: []string{u}, Ans: manual(pw())}
	case 3, 4:
		return Op{Line: "passwd", Do: "passwd", Ans: manual(pw())}
	case 5, 6:
		return Op{Line: "passwd " + u, Do: "passwd", Ans: manual(pw())}
	case 7, 8:
		return Op{Line: "rekey " + r.pick([]string{"", u}), Do: "rekey", Ans: manual(pw())}
	case 9, 10:
		return Op{Line: "rekeyall", Do: "rekeyall", Ans: []Ans{{M: "are you sure", R: "y"}}}
	case 11, 12:
		return Op{Line: "rm user/" + u, Do: "rm", Ans: []Ans{{M: "to proceed", R: "user/" + u}}}
	default:
		return Op{Line: "mv user/" + u + " user/" + r.pick([]string{"ann", "bob", "cid", "dee"}), Do: "mv"}
	}
}

// credsOracle knows every passphrase there was, and who may use one.
type credsOracle struct {
	run    *Run
	users  []string
	passes []string
	known  map[string]bool
	named  map[string]bool // uuid and salt of users that were said to be locked out
	single map[string]string
	wasM   map[string]bool
	cache  map[string]*opened
}

func (o *credsOracle) learn(pass string) {
	if pass != "" && !o.known[pass] && len(pass) <= 64 {
		o.known[pass] = true
		o.passes = append(o.passes, pass)
	}
}

// opened remembers what was tried on a file.
type opened struct {
	tried int
	pass  string
	v     *Vault
}

// as opens a file as a user.
func (o *credsOracle) as(b []byte, user string) (string, *Vault) {
	h := sha256.Sum256(b)
	k := string(h[:]) + user
	x := o.cache[k]
	if x == nil {
		x = &opened{}
		o.cache[k] = x
	}
	for i := len(o.passes) - 1; x.v == nil && i >= x.tried; i-- {
		if v, err := openVault(b, user, o.passes[i]); err == nil {
			x.pass, x.v = o.passes[i], v
		}
	}
	x.tried = len(o.passes)
	return x.pass, x.v
}

// all finds everybody who can open a file.
func (o *credsOracle) all(b []byte) (who []pair, v *Vault) {
	h, _, err := vaultHeader(b)
	if err != nil {
		return nil, nil
	}
	if len(h.users) == 0 {
		if p, x := o.as(b, ""); x != nil {
			return []pair{{"", p}}, x
		}
		return nil, nil
	}
	for _, u := range o.users {
		hash := sha256.Sum256([]byte(u))
		for _, x := range h.users {
			if bytes.Equal(x.hash, hash[:]) {
				if p, y := o.as(b, u); y != nil {
					who = append(who, pair{u, p})
					v = y
				}
			}
		}
	}
	return who, v
}

// answer gives credentials that open the file that is asked about.
func (o *credsOracle) answer(p *Proc, pr string) (string, bool) {
	isUser, isPass := strings.HasSuffix(pr, " user: "), strings.HasSuffix(pr, "passphrase: ")
	if !isUser && !isPass {
		return "", false
	}
	var b []byte
	if n, _, ok := strings.Cut(pr, " "); ok && strings.HasPrefix(n, "sync/") {
		b = o.remoteOf(p, n)
	} else if p.sess.Pass == "$" {
		b, _ = p.dev.fs.read(p.vaultFile())
	}
	who, _ := o.all(b)
	if len(who) == 0 {
		return "", false
	}
	me := ""
	for _, e := range p.agent.hist {
		if strings.HasSuffix(e.Prompt, " user: ") {
			me = e.Reply
		}
	}
	q := who[int(hash2(o.run.w.seed, uint64(p.stepIdx))%uint64(len(who)))]
	mine := me == "" || who[0].user == ""
	for _, x := range who {
		if x.user == me {
			q = x
			mine = true
		}
	}
	if isPass && !mine {
		return "^D", true
	}
	if isUser {
		return q.user, true
	}
	if n := len(p.agent.hist); n > 0 && p.agent.hist[n-1].Prompt == pr && p.agent.hist[n-1].Reply == q.pass {
		return "^D", true // not accepted
	}
	return q.pass, true
}

// remoteOf reads the remote of a sync entry.
func (o *credsOracle) remoteOf(p *Proc, name string) []byte {
	b, _ := p.dev.fs.read(p.vaultFile())
	_, v := o.all(b)
	if v == nil {
		return nil
	}
	eff, _ := v.effective()
	for _, e := range eff {
		if e["name"] != name {
			continue
		}
		for _, r := range o.run.plan.remotes() {
			if strings.HasSuffix(e["url"], "/"+r.path) {
				x, _ := o.run.remoteRead(r)
				return x
			}
		}
	}
	return nil
}

var notPresent = regexp.MustCompile(`user "(user/[^"]*)" \(from (?:local|remote)\) was not present`)

var movedUser = regexp.MustCompile(`moved "(user/[^"]*)" => "(user/[^"]*)"`)

// saidOf lists the users a session named as locked out.
func saidOf(out string) map[string]bool {
	said := map[string]bool{}
	for _, m := range notPresent.FindAllStringSubmatch(out, -1) {
		// it may be renamed in the same sync
		for x, i := m[1], 0; i < 4; x, i = x+"1", i+1 {
			said[x] = true
		}
	}
	for _, m := range movedUser.FindAllStringSubmatch(out, -1) {
		if said[m[1]] {
			said[m[2]] = true
		}
	}
	return said
}

// note remembers the users a session named, in a file it wrote.
func (o *credsOracle) note(b []byte, out string) {
	said := saidOf(out)
	if len(said) == 0 {
		return
	}
	_, v := o.all(b)
	if v == nil {
		return
	}
	eff, err := v.effective()
	if err != nil {
		return
	}
	for _, uuid := range sortedKeys(eff) {
		if e := eff[uuid]; said[e["name"]] && e["salt"] != "" {
			o.named[uuid+e["salt"]] = true
			o.run.w.probe("named")
		}
	}
}

// file checks who can open a file, against the users it says it has.
func (o *credsOracle) file(where string, b []byte, out string) (*Vault, bool) {
	who, v := o.all(b)
	if v == nil {
		o.run.fail("lockout", "nobody can open %s any more", where)
		return nil, false
	}
	eff, err := v.effective()
	if err != nil {
		return nil, false
	}
	o.note(b, out)
	can := map[string]bool{}
	for _, q := range who {
		can[q.user] = true
	}
	n := 0
	for _, uuid := range sortedKeys(eff) {
		e := eff[uuid]
		u, ok := strings.CutPrefix(e["name"], "user/")
		if !ok || u == "" || e["salt"] == "" || e["iv"] == "" || e["mkey"] == "" {
			continue
		}
		n++
		if len(v.users) == 0 {
			continue
		}
		h := sha256.Sum256([]byte(u))
		found := false
		for _, x := range v.users {
			if bytes.Equal(x.hash, h[:]) {
				found = true
				if hex.EncodeToString(x.salt) != e["salt"] {
					o.run.fail("lockout", "in %s the salt of user %q is not the one of the entry", where, u)
				}
			}
		}
		if !found {
			o.run.fail("lockout", "user %q is not among the users of %s", u, where)
			return v, false
		}
		if !can[u] && !o.named[uuid+e["salt"]] {
			o.run.fail("lockout", "user %q can no longer open %s with any passphrase and was not named", u, where)
			return v, false
		}
	}
	if n != len(v.users) {
		o.run.fail("access", "%s has %d users but entries for %d", where, len(v.users), n)
	}
	return v, true
}

// session follows the passphrase of single-user files.
func (o *credsOracle) session(p *Proc) (cur string, all map[string]bool) {
	a := p.agent
	raw := p.out.Bytes()
	type ev struct {
		pos  int
		what string
		val  string
	}
	var evs []ev
	_, cur, _ = a.opener()
	for i := range a.hist {
		e := &a.hist[i]
		if e.Hidden && !gaveUp(e.Reply) {
			o.learn(e.Reply)
			if n, ok := strings.CutSuffix(e.Prompt, " passphrase: "); ok && e.OutPos > 0 && strings.HasPrefix(n, "sync/") {
				evs = append(evs, ev{e.OutPos, "typed " + n, e.Reply})
			}
		}
	}
	if c, ok := a.created(); ok {
		cur = c
	}
	for i := range p.sess.Ops {
		op := &p.sess.Ops[i]
		if i >= len(a.opOut) {
			break
		}
		out := a.outOf(i)
		switch op.Do {
		case "passwd", "adduser", "rekey":
			if np, end := menuResult(a, a.inOp(i)); end != "" && !gaveUp(end) && np != "" {
				o.learn(np)
				evs = append(evs, ev{a.opOut[i], "given", np})
				if op.Do == "passwd" && strings.Contains(out, "passphrase updated") {
					evs = append(evs, ev{a.opOut[i] + 1, "set", np})
				}
			}
		case "rekeyall":
			for _, l := range strings.Split(out, "\n") {
				if _, x, ok := strings.Cut(strings.TrimSpace(l), ": "); ok {
					o.learn(x)
					evs = append(evs, ev{a.opOut[i] + 1, "given", x})
				}
			}
		}
	}
	for _, x := range []string{"local credentials updated from remote: \"", "pull: "} {
		for at := 0; ; {
			k := bytes.Index(raw[at:], []byte(x))
			if k < 0 {
				break
			}
			at += k + len(x)
			n := string(raw[at:imin(len(raw), at+60)])
			n = n[:len(n)-len(strings.TrimLeft(n, "abcdefghijklmnopqrstuvwxyz0123456789/"))]
			evs = append(evs, ev{at, map[bool]string{true: "pull ", false: "took "}[x == "pull: "] + n, ""})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].pos < evs[j].pos })
	all = map[string]bool{cur: true}
	typed := map[string]string{}
	for _, e := range evs {
		what, n, _ := strings.Cut(e.what, " ")
		switch what {
		case "pull":
			delete(typed, n)
		case "typed":
			typed[n] = e.val
			all[e.val] = true
		case "took":
			o.run.w.probe("credentials-from-remote")
			if t, ok := typed[n]; ok {
				cur = t
			}
		case "given":
			all[e.val] = true
		case "set":
			cur = e.val
			all[e.val] = true
		}
	}
	return cur, all
}

func (o *credsOracle) after(step int, s *syncOracle) {
	run := o.run
	for _, p := range run.procs[step] {
		cur, all := o.session(p)
		b, ok := p.dev.fs.read(p.vaultFile())
		if !ok {
			continue
		}
		k := p.dev.name
		// what a session pushed may come back later, even when it did not end
		for _, r := range run.plan.remotes() {
			if now, ok := run.remoteRead(r); ok {
				o.note(now, stripANSI(p.out.String()))
			}
		}
		where := fmt.Sprintf("the file of %s after %s", k, p.story())
		v, fine := o.file(where, b, stripANSI(p.out.String()))
		if !fine {
			return
		}
		multi := len(v.users) > 0
		if multi {
			run.nontrivial = true
		}
		if !multi {
			ps, _ := o.as(b, "")
			old, had := o.single[k]
			clean := p.crashed == "" && p.fired == 0 && p.code == 0
			switch {
			case clean && !o.wasM[k] && had && len(v.Log) > 0 && !o.everM(p) && ps != cur:
				run.fail("credentials", "%s opens with %q, expected %q", where, ps, cur)
			case !all[ps] && ps != old:
				run.fail("credentials", "%s opens with %q, which was not used in the session", where, ps)
			}
			if had && ps != old {
				run.nontrivial = true
			}
			o.single[k] = ps
		}
		o.wasM[k] = multi
		for i, r := range run.plan.remotes() {
			now, ok := run.remoteRead(r)
			if !ok || bytes.Equal(now, s.rbefore[i]) || p.fired > 0 || p.crashed != "" {
				continue
			}
			if sv := run.w.servers[r.srv]; r.srv != "" && (sv.full || sv.exitCode != 0) {
				continue
			}
			rv, fine := o.file(fmt.Sprintf("remote %d after %s", i, p.story()), now, stripANSI(p.out.String()))
			if fine && len(rv.users) == 0 {
				if ps, _ := o.as(now, ""); !all[ps] {
					run.fail("credentials", "remote %d after %s opens with %q, which was not used in the session", i, p.story(), ps)
				}
			}
		}
	}
}

// everM tells whether a file with several users was involved in a session.
func (o *credsOracle) everM(p *Proc) bool {
	return strings.Contains(p.out.String(), "user file") || strings.Contains(p.out.String(), "re-used your key") || o.run.plan.K["multi"] != 0
}

func init() {
	creds := func(name string, w int, so syncOpts, multi int64) *Scenario {
		return &Scenario{Name: name, Weight: w, Gen: func(r *Rand, tier string) *Plan {
			so := so
			so.creds = 1 + multi
			so.users = multi == 1
			pl, _ := syncGen(r, tier, so)
			pl.K["multi"] = multi
			for i := range pl.Steps {
				for k := range pl.Steps[i].Sess {
					s := &pl.Steps[i].Sess[k]
					if i > 0 {
						s.Pass, s.User = "$", "$"
					}
					s.Def = append(append([]Ans(nil), s.Def...), Ans{M: "use remote cred", R: r.pick([]string{"n", "y"})})
					if r.P(1, 12) {
						// once, then right
						s.Start = append(s.Start, Ans{M: "sync/", R: r.pick([]string{"^D", "", "wrong", "ann", "bob"})})
					}
				}
			}
			return pl
		}, Setup: func(run *Run) Hooks {
			h, so := syncHooks(run, "crash lost overwritten stale")
			o := &credsOracle{run: run, users: []string{"ann", "bob", "cid", "dee"}, known: map[string]bool{}, named: map[string]bool{}, cache: map[string]*opened{}, single: map[string]string{}, wasM: map[string]bool{}}
			for _, u := range o.users[:4] {
				for _, x := range []string{"1", "11", "111"} {
					o.users = append(o.users, u+x)
				}
			}
			o.learn(run.plan.S["pass"])
			run.w.hooks.answer = o.answer
			so.pass = func(b []byte) (*Vault, error) {
				if _, v := o.all(b); v != nil {
					return v, nil
				}
				return nil, errVaultPass
			}
			so.forced = true
			after := h.after
			h.end = nil
			h.after = func(step int) {
				for _, p := range run.procs[step] {
					o.session(p)
				}
				after(step)
				o.after(step, so)
			}
			return h
		}}
	}
	register(&Property{ID: "C10", Rule: "one run is a history of 2 or 3 devices that change passphrases, keys and users and sync; non-trivial when a multi-user file was stored or the passphrase of a file changed",
		Scens: []*Scenario{
			creds("single", 2, syncOpts{}, 0),
			creds("users", 3, syncOpts{}, 1),
			creds("convert", 2, syncOpts{}, 2),
			creds("faults", 1, syncOpts{faults: true}, 1)}})
}
