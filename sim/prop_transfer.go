package verifsim

import (
	"crypto/sha256"
	"fmt"
	"net/url"
	"strings"
)

// C12: only hosts whose key was accepted are talked to.
// C13: a transfer is exact, or reported.

// hostOracle knows which host keys users accepted.
type hostOracle struct {
	run     *Run
	trusted map[string]bool // server and key
	seen    map[*srvConn]bool
	known   map[string]string // server: what the device's file said before
}

func keyLine(c *srvConn) string {
	return fmt.Sprintf("%s %x", c.key.Type(), sha256.Sum256(c.key.Marshal()))
}

// knownHosts returns what a file says about a server.
func (o *syncOracle) knownHosts(b []byte, ok bool, addr string) string {
	if !ok {
		return ""
	}
	v, err := o.pass(b)
	if err != nil {
		return ""
	}
	eff, _ := v.effective()
	var out []string
	for _, u := range sortedKeys(eff) {
		k := eff[u]["knownhosts"]
		l, err := url.Parse(eff[u]["url"])
		if k != "" && (err == nil && l.Host == addr || strings.HasPrefix(k, addr+" ") || strings.Contains(k, "\n"+addr+" ")) {
			out = append(out, k) // perhaps it pointed there and will again
		}
	}
	return strings.Join(out, "\n")
}

// pointing counts the entries of a file that ever pointed to a server.
func (o *syncOracle) pointing(b []byte, addr string) int {
	v, err := o.pass(b)
	if err != nil {
		return -1
	}
	es := map[string]bool{}
	for _, t := range v.Log {
		if l, err := url.Parse(t.Value); t.Key == "url" && err == nil && l.Host == addr {
			es[t.UUID] = true
		}
	}
	return len(es)
}

// askedAbout finds the host and the key that a question is about: those shown
// before it, if it is a host that presented this key.
func (run *Run) askedAbout(p *Proc, e Exchange) (addr, key string) {
	out := p.out.String()
	out = out[:imin(len(out), e.OutPos)]
	to := ""
	if i := strings.LastIndex(out, "verify pubkey: "); i >= 0 {
		key = stripANSI(firstLines(out[i+len("verify pubkey: "):], 1))
		if i := strings.LastIndex(out[:i], "connected to: "); i >= 0 {
			to, _, _ = strings.Cut(out[i+len("connected to: "):], " ")
		}
	}
	if f := strings.Fields(key); len(f) >= 2 {
		key = f[0] + " " + strings.ReplaceAll(f[1], ":", "")
	}
	for _, a := range sortedKeys(run.w.servers) {
		for _, c := range run.w.servers[a].conns {
			if c.p == p && c.key != nil && to == a && key == keyLine(c) {
				addr = a
			}
		}
	}
	return addr, key
}

// knows tells that known hosts have a host and key.
func knows(lines, line string) bool {
	for _, l := range strings.Split(lines, "\n") {
		if f := strings.Fields(l); len(f) == 4 && f[0]+f[2]+" "+f[3] == line {
			return true
		}
	}
	return false
}

func (h *hostOracle) check(o *syncOracle, p *Proc) {
	run := h.run
	var asked []Exchange
	for _, e := range p.agent.hist {
		if strings.Contains(e.Prompt, "Save this host") {
			asked = append(asked, e)
		}
	}
	out := p.out.String()
	accepted := map[string]bool{}
	for _, e := range asked {
		if addr, key := run.askedAbout(p, e); addr != "" && (e.Reply == "y" || e.Reply == "Y") {
			accepted[addr+key] = true
		}
	}
	n := 0
	for _, addr := range sortedKeys(run.w.servers) {
		now, ok := p.dev.fs.read(p.vaultFile())
		kb, ka := h.known[p.dev.name+addr], o.knownHosts(now, ok, addr)
		fixed := kb != "" && kb == ka && !strings.Contains(kb, "\n") && strings.HasPrefix(kb, addr+" ")
		for _, c := range run.w.servers[addr].conns {
			if c.p != p || c.key == nil {
				continue
			}
			n++
			line := addr + keyLine(c)
			if fixed && !strings.HasSuffix(kb, keyLine(c)) && (c.authed || len(c.execs) > 0) {
				run.fail("spoofed", "%s on %s talked to %s although its key %s is not the one that was saved: %s", p.story(), p.dev.name, addr, keyLine(c), kb)
			}
			if c.impost {
				run.w.probe("impostor-met")
			}
			if c.authed || len(c.execs) > 0 {
				// it was saved, or has been accepted just now; a session that
				// did not save may have pulled it
				yes := accepted[line] || knows(kb, line) || knows(ka, line) || h.trusted[line] && (p.code != 0 || p.crashed != "")
				if !yes {
					run.fail("spoofed", "%s on %s talked to %s with key %s, which nobody accepted", p.story(), p.dev.name, addr, keyLine(c))
				}
			}
		}
	}
	// every question shows a key that was presented, and counts for that one
	for _, e := range asked {
		match, key := run.askedAbout(p, e)
		if match == "" {
			run.fail("spoofed", "%s on %s asked to confirm a key nobody presented: %q", p.story(), p.dev.name, key)
			continue
		}
		run.w.probe("host-asked")
		run.nontrivial = true
		if kb := h.known[p.dev.name+match]; strings.HasPrefix(kb, match+" ") && !strings.Contains(out, "local credentials") {
			if now, ok := p.dev.fs.read(p.vaultFile()); o.knownHosts(now, ok, match) == kb {
				run.fail("asked", "%s on %s asked about %s, whose key is saved", p.story(), p.dev.name, match)
			}
		}
		if e.Reply == "y" || e.Reply == "Y" {
			h.trusted[match+key] = true
		}
	}
	// nothing is remembered that was not accepted
	for _, addr := range sortedKeys(run.w.servers) {
		now, ok := p.dev.fs.read(p.vaultFile())
		for _, l := range strings.Split(o.knownHosts(now, ok, addr), "\n") {
			f := strings.Fields(l)
			if l == "" {
				continue
			}
			if len(f) != 4 || !h.trusted[f[0]+f[2]+" "+f[3]] {
				run.fail("spoofed", "after %s on %s the file trusts %q, which nobody accepted", p.story(), p.dev.name, l)
			}
		}
	}
	if p.code == 0 && p.crashed == "" {
		// who accepted a host for the only entry that points there has answered
		now, ok := p.dev.fs.read(p.vaultFile())
		yes := map[string]bool{}
		for _, e := range asked {
			addr, key := run.askedAbout(p, e)
			if yes[addr+key] && ok && o.pointing(now, addr) == 1 {
				run.fail("asked", "%s on %s asked about %s again, which was accepted", p.story(), p.dev.name, addr)
			}
			if e.Reply == "y" || e.Reply == "Y" {
				yes[addr+key] = true
				run.w.probe("accepted-once")
			}
		}
	}
	if p.code == 0 && p.crashed == "" && p.fired == 0 && !strings.Contains(out, "aborting sync") {
		for _, e := range asked {
			if e.Reply != "y" || len(asked) > 1 {
				continue
			}
			now, ok := p.dev.fs.read(p.vaultFile())
			found := false
			for _, addr := range sortedKeys(run.w.servers) {
				found = found || o.knownHosts(now, ok, addr) != ""
			}
			if !found && ok {
				run.fail("forgotten", "after %s on %s the host that was accepted is not saved", p.story(), p.dev.name)
			}
		}
	}
}

// entryNames lists the names of sync entries by remote.
func (v *Vault) entryNames(r remotePlan) []string {
	eff, _ := v.effective()
	var out []string
	for _, u := range sortedKeys(eff) {
		l, err := url.Parse(eff[u]["url"])
		if err != nil || eff[u]["sync"] != "true" {
			continue
		}
		if r.srv == "" && l.Scheme == "file" && l.Path == "/mnt/share/"+r.path || r.srv != "" && l.Host == r.srv && strings.TrimPrefix(l.Path, "/") == r.path {
			out = append(out, eff[u]["name"])
		}
	}
	return out
}

// transfers checks a session that ran alone.
func (o *syncOracle) transfers(p *Proc, before map[string]string) {
	run := o.run
	for _, addr := range sortedKeys(run.w.servers) {
		s := run.w.servers[addr]
		if len(s.odd) > 0 {
			run.fail("command", "%s on %s made %s run %q", p.story(), p.dev.name, addr, s.odd[0])
			return
		}
	}
	after := run.stores()
	for _, f := range sortedKeys(after) {
		if _, ok := before[f]; !ok && !run.isRemote(f) && p.crashed == "" && p.fired == 0 {
			run.fail("stray", "%s on %s created %s, which is no remote", p.story(), p.dev.name, f)
			return
		}
	}
	if p.crashed != "" || p.crashedBadly() != "" {
		return
	}
	pulls, pushes, out := 0, 0, stripANSI(p.out.String())
	for _, addr := range sortedKeys(run.w.servers) {
		for _, c := range run.w.servers[addr].conns {
			for _, x := range c.execs {
				switch {
				case c.p != p:
				case x.sink && (x.bad || x.done && x.code != 0):
					pushes++
				case x.bad:
					pulls++
				}
			}
		}
	}
	n, m := strings.Count(out, "error pulling "), strings.Count(out, "error pushing ")
	if n < pulls || m < pushes {
		run.fail("unreported", "%s on %s had %d pulls and %d pushes with a failure at the server, but reported %d and %d", p.story(), p.dev.name, pulls, pushes, n, m)
		return
	}
	if pulls > 0 {
		run.w.probe("failed-pull-reported")
	}
	if pushes > 0 {
		run.w.probe("failed-push-reported")
	}
	if p.code != 0 {
		return
	}
	b, ok := p.dev.fs.read(p.vaultFile())
	if !ok {
		return
	}
	v, err := o.pass(b)
	if err != nil {
		return
	}
	last := 0
	for _, e := range p.agent.hist {
		if e.Main {
			last = e.OutPos
		}
	}
	tail := stripANSI(p.out.String()[imin(last, p.out.Len()):])
	for i, r := range run.plan.remotes() {
		names := v.entryNames(r)
		if len(names) != 1 || r.srv == "" && p.dev.fs.mounts["/mnt/share"] == nil {
			continue
		}
		n := names[0]
		k := strings.LastIndex(out, "push: "+n+"\n")
		if k < 0 || strings.Contains(out[k:], fmt.Sprintf("error pushing to %q", n)) {
			if k >= 0 {
				run.w.probe("push-failed")
			}
			continue
		}
		rb, ok := run.remoteRead(r)
		if !ok {
			run.fail("inexact", "%s on %s reported no failure to push to %q, but there is no file", p.story(), p.dev.name, n)
			continue
		}
		rv, err := o.pass(rb)
		if err != nil {
			run.fail("inexact", "%s on %s reported no failure to push to %q, but what is there cannot be opened: %v", p.story(), p.dev.name, n, err)
			continue
		}
		if !isPrefix(rv.Log, v.Log) {
			run.fail("inexact", "%s on %s reported no failure to push to %q, but what is there is not what was sent", p.story(), p.dev.name, n)
			continue
		}
		if strings.Contains(tail, "push: "+n+"\n") && !strings.Contains(p.agent.lastLine(), "^C") {
			for _, t := range v.Log[len(rv.Log):] {
				if t.Key != "knownhosts" {
					run.fail("inexact", "%s on %s reported no failure to push to %q, but it lacks %s", p.story(), p.dev.name, n, txStr(t))
					break
				}
			}
		}
		run.w.probe("push-exact")
		run.nontrivial = true
		if nd := run.remoteNode(r); nd != nil && nd.mode&0077 != 0 {
			run.fail("inexact", "%s on %s left %q readable by others: %o", p.story(), p.dev.name, n, nd.mode&0777)
		}
		// what was there was received
		if old := o.rbefore[i]; old != nil {
			if ov, err := o.pass(old); err == nil {
				if t, why, ok := o.kept(ov.Log, v.Log); !ok {
					run.fail("inexact", "%s on %s pulled %q without a complaint, but: %s: %s", p.story(), p.dev.name, n, why, txStr(t))
				}
			}
		}
	}
}

// stores lists the files at the places devices sync through.
func (run *Run) stores() map[string]string {
	out := map[string]string{}
	run.w.share.files(func(path string, n *Inode) { out["|"+path] = "" })
	for _, a := range sortedKeys(run.w.servers) {
		run.w.servers[a].fs.files(func(path string, n *Inode) { out[a+"|"+path] = "" })
	}
	return out
}

func (run *Run) isRemote(f string) bool {
	for _, r := range run.plan.remotes() {
		if f == r.srv+"|/"+r.path || f == r.srv+"|/home/srv/"+r.path {
			return true
		}
	}
	return false
}

func init() {
	register(&Property{ID: "C12", Rule: "one run is a history of 2 or 3 devices that sync through ssh servers whose place impostors take and whose keys and addresses change; non-trivial when a host key was asked about",
		Scens: []*Scenario{{Name: "hosts", Weight: 1, Gen: func(r *Rand, tier string) *Plan {
			pl, _ := syncGen(r, tier, syncOpts{ssh: true, remotes: false, conc: false})
			trimSettle(pl)
			rs := pl.remotes()
			if r.P(1, 3) {
				moveHost(r, pl)
			}
			for i := range pl.Steps {
				for k := range pl.Steps[i].Sess {
					s := &pl.Steps[i].Sess[k]
					s.Def = append([]Ans(nil), s.Def...)
					s.Def[0].R = r.pick([]string{"y", "y", "y", "Y", "n", "", "^D", "yes", "N", " y", "x"})
					if r.P(1, 8) {
						s.Faults = append(s.Faults, Fault{Kind: "drop", At: 1 + r.N(6), Op: r.pick([]string{"hostkey", "auth", "exec", "sshread"})})
					}
				}
				// between two connections of a session
				if s := pl.Steps[i].pickSession(r); r.P(1, 3) {
					f := Fault{Kind: r.pick([]string{"spoof", "spoof", "rekey"}), Op: "dial", At: 1 + r.N(5)}
					f.N = []int{99, 99, 255, 0}[r.N(4)]
					if f.Kind == "rekey" {
						f.N = 40 + r.N(3)
					}
					s.Faults = append(s.Faults, f)
				}
				rm := rs[r.N(len(rs))]
				if rm.srv == "" || !r.P(1, 2) {
					continue
				}
				e := EnvOp{Op: r.pick([]string{"mitm", "mitm", "nomitm", "rekeyhost", "ip", "nomitm"}), A: rm.srv}
				switch e.Op {
				case "mitm":
					e.N = int64([]int{99, 99, 255}[r.N(3)])
				case "rekeyhost":
					e.N = int64(40 + r.N(3))
				case "ip":
					e.B = fmt.Sprintf("198.51.100.%d", r.N(200))
				}
				pl.Steps[i].Env = append(pl.Steps[i].Env, e)
			}
			return pl
		}, Setup: func(run *Run) Hooks {
			h, o := syncHooks(run, "crash")
			ho := &hostOracle{run: run, trusted: map[string]bool{}, known: map[string]string{}}
			before, after := h.before, h.after
			h.before = func(step int) {
				before(step)
				for _, d := range run.w.devs {
					for _, a := range sortedKeys(run.w.servers) {
						b, ok := d.fs.read(vaultPath)
						ho.known[d.name+a] = o.knownHosts(b, ok, a)
					}
				}
			}
			h.after = func(step int) {
				after(step)
				for _, p := range run.procs[step] {
					ho.check(o, p)
				}
			}
			h.end = nil
			return h
		}}}})
	exact := func(name string, w int, so syncOpts, damage bool) *Scenario {
		return &Scenario{Name: name, Weight: w, Gen: func(r *Rand, tier string) *Plan {
			pl, _ := syncGen(r, tier, so)
			trimSettle(pl)
			if damage {
				addDamage(r, pl)
			}
			return pl
		}, Setup: func(run *Run) Hooks {
			h, o := syncHooks(run, "crash")
			var files map[string]string
			before, after := h.before, h.after
			h.before = func(step int) {
				before(step)
				files = run.stores()
			}
			h.after = func(step int) {
				after(step)
				if len(run.procs[step]) == 1 {
					o.transfers(run.procs[step][0], files)
				}
			}
			h.end = nil
			return h
		}}
	}
	register(&Property{ID: "C13", Rule: "one run is a history of 2 or 3 devices that sync through servers and shares that fail in the middle of transfers; non-trivial when a transfer was complete",
		Scens: []*Scenario{exact("faults", 3, syncOpts{faults: true}, false), exact("paths", 2, syncOpts{ssh: true, paths: true}, false), exact("damage", 3, syncOpts{faults: true}, true)}})
}

// moveHost makes a remote one of another server, with an address that is
// similar and perhaps the same key, and perhaps back.
func moveHost(r *Rand, pl *Plan) {
	i := r.N(len(pl.remotes()))
	rm := pl.remotes()[i]
	var sp SrvPlan
	for _, x := range pl.Srvs {
		if x.Addr == rm.srv {
			sp = x
		}
	}
	host, port, _ := strings.Cut(rm.srv, ":")
	sp.Addr = r.pick([]string{host + ":2022", host + ":2022", host + ".org:" + port, "x" + host + ":" + port, strings.ToUpper(host) + ":" + port, host + ":" + port + "0"})
	switch r.N(4) {
	case 0:
		sp.Seed += 60
	case 1:
		sp.Seed += 60
		sp.Algo = r.pick([]string{"ssh-ed25519", "ssh-rsa"})
	}
	pl.Srvs = append(pl.Srvs, sp)
	name := "sync/scp" + strings.Repeat("1", i)
	for k, a := range []string{sp.Addr, rm.srv} {
		s := pl.Steps[1+r.N(len(pl.Steps)-1)].pickSession(r)
		u := "scp://srv:" + sp.Users["srv"] + "@" + a + "/" + rm.path
		op := Op{Line: "set " + name + " url " + u, Do: "set", A: []string{name, "url", u}}
		s.Ops = append(s.Ops, op)
		if r.P(2, 3) {
			s.Ops = append(s.Ops, Op{Line: "sync", Do: "sync"})
		}
		if k == 0 && r.P(1, 2) {
			break
		}
	}
}

// trimSettle drops the rounds that are only for convergence.
func trimSettle(pl *Plan) {
	for i := range pl.Steps {
		if pl.Steps[i].Sess[0].Role == "settle" {
			pl.Steps = pl.Steps[:imin(len(pl.Steps), i+1)]
			break
		}
	}
	delete(pl.K, "settle")
}
