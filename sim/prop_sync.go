package verifsim

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// Synchronisation between devices.

// remotePlan is a place devices sync through.
type remotePlan struct {
	srv  string // ssh host, "" for the share
	path string // on the share, or relative to the remote home
	ops  []Op
}

// remotes tells where the plan's remotes are.
func (pl *Plan) remotes() []remotePlan {
	var out []remotePlan
	for i := 0; ; i++ {
		s, ok := pl.S[fmt.Sprint("remote", i)]
		if !ok {
			return out
		}
		srv, path, _ := strings.Cut(s, "|")
		out = append(out, remotePlan{srv: srv, path: path})
	}
}

func (run *Run) remoteNode(r remotePlan) *Inode {
	if r.srv == "" {
		return run.w.share.get("/" + r.path)
	}
	return run.w.servers[r.srv].fs.get("/home/srv/" + r.path)
}

func (run *Run) remoteRead(r remotePlan) ([]byte, bool) {
	n := run.remoteNode(r)
	if n == nil {
		return nil, false
	}
	return n.data, true
}

func (run *Run) remoteRemove(r remotePlan) {
	if r.srv == "" {
		run.w.share.remove("/" + r.path)
	} else {
		run.w.servers[r.srv].fs.remove("/home/srv/" + r.path)
	}
}

// addRemote adds a remote of a random kind to the plan.
func addRemote(r *Rand, pl *Plan, allowSSH bool) Op {
	n := len(pl.remotes())
	if pl.S == nil {
		pl.S = map[string]string{}
	}
	key := fmt.Sprint("remote", n)
	if !allowSSH || pl.K["ssh"] == 0 && r.P(2, 5) {
		path := r.pick([]string{"vault.blob", "bpass/vault", "v"}) + fmt.Sprint(n)
		if strings.Contains(path, "/") {
			pl.Share = append(pl.Share, FilePlan{Path: "/bpass", Dir: true})
		}
		pl.S[key] = "|" + path
		return Op{Line: "addsync file", Do: "addsync", A: []string{"file"}, Ans: []Ans{{"path: ", "/mnt/share/" + path}}}
	}
	host := fmt.Sprintf("srv%d.example", n)
	port := r.pick([]string{"", "", "2222"})
	addr := host + ":22"
	if port != "" {
		addr = host + ":" + port
	}
	sp := SrvPlan{Addr: addr, Seed: byte(10 + n), Algo: r.pick([]string{"ssh-ed25519", "ssh-ed25519", "ssh-rsa"}), Users: map[string]string{"srv": "s3cret" + fmt.Sprint(r.N(100))}, AnyKey: true}
	if r.P(1, 3) {
		sp.MaxRead = 100 + r.N(2000)
	}
	pl.Srvs = append(pl.Srvs, sp)
	path := "vault" + fmt.Sprint(n)
	if pl.K["paths"] != 0 {
		path = r.pick([]string{"", "my ", "a'b", "$HOME-", "x;y ", "é", "100%", "q?", "#", "a&b", "dir/", "*", "\\", "\"", "(1)", "a  b", "!", "+", "`", "[x]", "~"}) + path
		if pl.K["paths"] == 2 {
			path = strings.TrimPrefix(path, "dir/") // there is none
		}
	}
	pl.S[key] = addr + "|" + path
	op := Op{Line: "addsync scp", Do: "addsync", A: []string{"scp"}, Ans: []Ans{{"=user: ", "srv"}, {"=host: ", host}, {"=port (22): ", port}, {"=path: ", path}}}
	if r.P(1, 6) {
		// what is not an answer is asked for again
		for k := len(op.Ans) - 1; k >= 0; k-- {
			no := ""
			if strings.Contains(op.Ans[k].M, "port") {
				no = r.pick([]string{"x", "22x", "2 2", "1.5", "-"})
			}
			if r.P(1, 2) {
				op.Ans = append(op.Ans[:k:k], append([]Ans{{op.Ans[k].M, no}}, op.Ans[k:]...)...)
			}
		}
		for r.P(1, 2) {
			op.Ans = append(op.Ans, Ans{"=> ", r.pick([]string{"", "0", "4", "9", "-1", "x", "1x", "ED25519", "33"})})
		}
	}
	switch r.N(4) {
	case 0:
		op.Ans = append(op.Ans, Ans{"=> ", "3"})
		op.Ans = append(op.Ans, manual(sp.Users["srv"])...)
	case 1:
		op.Ans = append(op.Ans, Ans{"=> ", "2"})
	default:
		op.Ans = append(op.Ans, Ans{"=> ", "1"})
	}
	return op
}

// fork gives another device its own view of the vault.
func (g *GState) fork(r *Rand, tag string) *GState {
	c := *g
	c.r = r
	c.tag = tag
	c.names = append([]string(nil), g.names...)
	c.keys = map[string]map[string]string{}
	c.used = g.used
	if g.pool != nil {
		// devices do not know what the others add
		c.used = map[string]bool{}
		for n := range g.used {
			c.used[n] = true
		}
		c.users = append([]string(nil), g.users...)
		c.userPass = append([]string(nil), g.userPass...)
	}
	return &c
}

type syncOpts struct {
	skew    bool // clocks that disagree or jump
	faults  bool
	dels    bool // many deletions
	conc    bool
	names   bool  // devices use the same names
	users   bool  // and add users
	remotes bool  // devices add and remove remotes
	ssh     bool  // through servers only
	paths   bool  // odd remote paths
	dirs    bool  // in directories that exist
	creds   int64 // devices change credentials: 1 of one user, else of several
}

// syncGen makes a history of several devices that sync through remotes.
func syncGen(r *Rand, tier string, o syncOpts) (*Plan, []*GState) {
	g := newGState(r)
	g.tag = "a"
	g.exact = true
	pl := &Plan{K: map[string]int64{}, S: map[string]string{}}
	nd := 2
	if r.P(2, 5) {
		nd = 3
	}
	res := []int64{1, 1, 1, 100, 1000, 1e6, 15_600_000, 15_600_000}[r.N(8)]
	for i := 0; i < nd; i++ {
		dp := DevPlan{ClockRes: res}
		if i > 0 {
			switch r.N(5) {
			case 0:
				dp.ClockOff = int64(r.N(2000)-1000) * 1e6
			case 1:
				dp.ClockOff = int64(r.N(20000)-10000) * 1e9
			case 2:
				if o.skew {
					dp.ClockOff = int64(r.N(800)-400) * 86400e9
				}
			}
			if !o.skew && dp.ClockOff < 0 {
				dp.ClockOff = 0
			}
			if !o.skew && r.P(1, 2) {
				dp.ClockOff = 0
			}
		}
		dp.Programs = append(dp.Programs, "vim")
		dp.Env = map[string]string{"EDITOR": "vim"}
		pl.Devs = append(pl.Devs, dp)
	}
	g.editor = "vim"
	pl.K["resolve"] = int64(r.N(2))
	if o.ssh {
		pl.K["ssh"] = 1
	}
	if o.paths {
		pl.K["paths"] = 1
		if o.dirs {
			pl.K["paths"] = 2
		}
	}
	pl.K["skew"] = 0
	if o.skew {
		pl.K["skew"] = 1
	}
	nr := 1
	if r.P(1, 4) {
		nr = 2
	}
	if o.names {
		g.pool = []string{"bank", "bank1", "mail", "x", "wifi/home"}
	}
	s0 := Session{Pass: g.pass, Ops: []Op{g.add(), g.add()}}
	if o.users {
		g.users, g.userPass = []string{"ann"}, []string{g.pass}
		pl.S["user"] = "ann"
		s0.Ops = append([]Op{{Line: "adduser ann", Do: "adduser", A: []string{"ann"}}}, s0.Ops...)
	}
	if o.users && o.creds > 1 {
		for _, u := range []string{"bob", "cid"}[:1+r.N(2)] {
			s0.Ops = append(s0.Ops, Op{Line: "adduser " + u, Do: "adduser", A: []string{u}, Ans: manual("first-" + u)})
		}
	}
	if r.P(1, 2) {
		s0.Ops = append(s0.Ops, g.set(), g.add())
	}
	for i := 0; i < nr; i++ {
		s0.Ops = append(s0.Ops, addRemote(r, pl, true))
	}
	pl.S["pass"] = g.pass
	def := []Ans{{"Save this host", "y"}, {"[R]estore", []string{"r", "d"}[pl.K["resolve"]]}}
	s0.Def = def
	pl.Steps = append(pl.Steps, Step{Sess: []Session{s0}})
	gs := []*GState{g}
	for i := 1; i < nd; i++ {
		gs = append(gs, g.fork(r, string(rune('a'+i))))
	}
	n := 3 + r.N(6)
	if tier == "thorough" {
		n = 3 + r.N(10)
	}
	sess := func(d int) Session {
		g := gs[d]
		s := Session{Dev: d, User: pl.S["user"], Pass: g.pass, Gap: int64(1+r.N(50000)) * 1e9, Def: def, NoWait: r.P(1, 4)}
		if r.P(1, 4) {
			s.Args = []string{"--no-sync"}
		}
		for i, n := 0, r.N(5); i < n; i++ {
			switch {
			case r.P(1, 5):
				s.Ops = append(s.Ops, Op{Line: "sync", Do: "sync"})
			case o.creds > 1 && r.P(1, 12):
				// renamed users, perhaps gone the next moment
				u, v := r.pick([]string{"ann", "bob", "bob", "cid"}), "user/"+r.pick([]string{"bob", "cid", "dee"})
				s.Ops = append(s.Ops, Op{Line: "sync", Do: "sync"}, Op{Line: "mv user/" + u + " " + v, Do: "mv"})
				if r.P(1, 2) {
					s.Ops = append(s.Ops, Op{Line: "rm " + v, Do: "rm", Ans: []Ans{{M: "to proceed", R: v}}})
				}
			case o.creds > 0 && r.P(2, 5):
				s.Ops = append(s.Ops, g.credOp(r, o.creds > 1))
			case o.remotes && r.P(1, 3):
				s.Ops = append(s.Ops, g.remoteOp(r, pl))
			case o.users && o.creds == 0 && r.P(1, 2):
				s.Ops = append(s.Ops, g.sameUser(r, &s)...)
				if s.User == pl.S["user"] && r.P(1, 3) {
					// perhaps after a sync that renamed something
					s.Ops = append(s.Ops, Op{Line: "rekey", Do: "rekey"})
				}
			case o.names && r.P(1, 2):
				s.Ops = append(s.Ops, g.sameName(r))
			case o.dels && r.P(1, 3):
				s.Ops = append(s.Ops, g.rm(true))
			case o.dels && r.P(1, 3):
				s.Ops = append(s.Ops, g.set())
			default:
				s.Ops = append(s.Ops, g.mutation())
			}
		}
		if r.P(1, 15) {
			s.Ops = append(s.Ops, Op{Line: "^C"})
		}
		if o.skew && r.P(1, 8) {
			s.Jump = int64(r.N(2000000)-1000000) * 1e9 / int64(1+r.N(1000))
		}
		if o.faults && r.P(1, 3) {
			k := r.pick([]string{"drop", "drop", "stall", "refuse", "authno", "rfail", "eio", "enospc", "short", "kill", "power", "eacces"})
			f := Fault{Kind: k, At: 1 + r.N(8), Stay: r.P(1, 6)}
			switch k {
			case "kill", "power", "eio", "enospc", "short":
				f.At = 1 + r.N(150)
				f.Stay = false
			case "drop", "stall":
				f.Op = r.pick([]string{"dial", "sshwrite", "sshread", "exec", "sshclose", "sshexit", "auth", "hostkey"})
				if k == "stall" && f.Op == "sshclose" {
					f.Op = "sshread"
				}
			case "eacces":
				f.Op = r.pick([]string{"create", "openw", "rename", "open", "open"})
				f.Stay = false
			}
			s.Faults = append(s.Faults, f)
		}
		return s
	}
	// sharing learns what other devices called things
	learn := func() {
		if r.P(1, 2) {
			a, b := gs[r.N(nd)], gs[r.N(nd)]
			if a != b && len(a.names) > 0 {
				n := a.some()
				for _, x := range b.names {
					if x == n {
						return
					}
				}
				b.names = append(b.names, n)
			}
		}
	}
	for i := 0; i < n; i++ {
		st := Step{}
		if o.faults && r.P(1, 3) {
			rm := pl.remotes()[r.N(nr)]
			if rm.srv == "" {
				st.Env = append(st.Env, EnvOp{Op: r.pick([]string{"umount", "mount", "mount"}), Dev: r.N(nd)})
			} else {
				switch r.N(6) {
				case 0, 1:
					st.Env = append(st.Env, EnvOp{Op: "down", A: rm.srv})
				case 2:
					st.Env = append(st.Env, EnvOp{Op: "srvfull", A: rm.srv, N: 1})
				case 3:
					st.Env = append(st.Env, EnvOp{Op: "srvro", A: rm.srv, N: 1})
				case 4:
					st.Env = append(st.Env, EnvOp{Op: "srvexit", A: rm.srv, N: int64(1 + r.N(4))})
				default:
					st.Env = append(st.Env, EnvOp{Op: "heal"})
				}
			}
		}
		if nd > 1 && o.conc && r.P(1, 4) {
			d := r.N(nd)
			st.Sess = append(st.Sess, sess(d), sess((d+1)%nd))
			st.Sess[1].Gap = 0
		} else {
			st.Sess = append(st.Sess, sess(r.N(nd)))
		}
		pl.Steps = append(pl.Steps, st)
		learn()
	}
	// when everything works again, a few rounds settle it
	pl.K["settle"] = int64(nd * (nd + 1))
	for k := 0; k < nd+1; k++ {
		for d := 0; d < nd; d++ {
			pl.Steps = append(pl.Steps, Step{Sess: []Session{{Dev: d, User: pl.S["user"], Pass: g.pass, Gap: 60e9, Def: def, Role: "settle"}}})
		}
	}
	return pl, gs
}

// syncOracle follows the logs of all devices.
type syncOracle struct {
	run     *Run
	report  string
	pass    func(b []byte) (*Vault, error)
	logs    map[string][]RTx
	union   map[RTx]int
	pushed  map[RTx]int // by sessions that did not save it
	rbefore map[int][]byte
	mono    bool
	asked   map[string]bool
	discR   bool
	discD   bool
	noRem   bool // remotes are not compared
	dirty   bool // devices with sessions killed or failing
	healed  bool
	settled int
	invalid bool // the plan lost its beginning
	forced  bool // remotes hold histories nobody made
}

func (o *syncOracle) fail(class, format string, a ...any) {
	if strings.Contains(o.report, " "+class+" ") && !o.invalid {
		o.run.fail(class, format, a...)
	}
}

func countTx(log []RTx) map[RTx]int {
	m := map[RTx]int{}
	for _, t := range log {
		m[t]++
	}
	return m
}

func isMono(log []RTx) bool {
	for i := 1; i < len(log); i++ {
		if log[i].Time < log[i-1].Time {
			return false
		}
	}
	return true
}

func txStr(t RTx) string {
	v := t.Value
	if len(v) > 40 {
		v = v[:40] + "..."
	}
	return fmt.Sprintf("{%d %s %.8s %s=%q}", t.Time, t.Kind, t.UUID, t.Key, v)
}

// redundant tells whether a transaction may vanish from a merged log.
func (o *syncOracle) redundant(t RTx, final map[RTx]int) string {
	if t.Kind == "del" {
		for f := range final {
			if f.Kind == "del" && f.UUID == t.UUID {
				return ""
			}
		}
		if !o.discR {
			return "a deletion was lost"
		}
		// deletions of one entry count as the first of them
		first := t.Time
		for u := range o.union {
			if u.UUID == t.UUID && u.Kind == "del" && u.Time < first {
				first = u.Time
			}
		}
		for _, m := range []map[RTx]int{o.union, o.pushed} {
			for u := range m {
				if u.UUID == t.UUID && u.Kind != "del" && (!o.mono || u.Time >= first) {
					return ""
				}
			}
		}
		return "a deletion was lost although nothing happened to the entry later"
	}
	if !o.discD {
		return "a change was lost"
	}
	for _, m := range []map[RTx]int{o.union, o.pushed} {
		for f := range m {
			if f.Kind == "del" && f.UUID == t.UUID && (!o.mono || f.Time <= t.Time) {
				return ""
			}
		}
	}
	return "a change was lost although its entry was not deleted before"
}

func newSyncOracle(run *Run, report string) *syncOracle {
	o := &syncOracle{run: run, report: " " + report + " ", logs: map[string][]RTx{}, union: map[RTx]int{}, pushed: map[RTx]int{}, rbefore: map[int][]byte{}, mono: true, asked: map[string]bool{}}
	o.pass = func(b []byte) (*Vault, error) { return openVault(b, run.plan.S["user"], run.plan.S["pass"]) }
	return o
}

func (o *syncOracle) before(step int) {
	run := o.run
	for i := range run.plan.Steps[step].Sess {
		s := &run.plan.Steps[step].Sess[i]
		if s.Dev > 0 && run.plan.K["own"] == 0 && run.w.devs[s.Dev].fs.get(vaultPath) == nil {
			// a new device starts with a copy of the file
			b, ok := run.w.devs[0].fs.read(vaultPath)
			if !ok {
				o.invalid = true
				continue
			}
			run.w.devs[s.Dev].fs.put(vaultPath, b, 0600)
		}
		if s.Role == "settle" {
			o.settled++
			if !o.healed {
				o.healed = true
				run.env(EnvOp{Op: "heal"})
				run.env(EnvOp{Op: "healremotes"})
				run.env(EnvOp{Op: "time", N: 3600e9})
			}
		}
	}
	for i, r := range o.run.plan.remotes() {
		b, _ := o.run.remoteRead(r)
		o.rbefore[i] = b
	}
}

// subsequence reports the first element of a that does not occur in order in b
// unless it may vanish.
func (o *syncOracle) kept(a, b []RTx) (RTx, string, bool) {
	fin := countTx(b)
	j := 0
	for _, t := range a {
		if fin[t] > 0 && o.run.plan.Devs[0].ClockRes >= 1e6 && (t.Kind == "del" || t.Key == "updated") {
			// two devices can have made the very same change
			continue
		}
		k := j
		for k < len(b) && b[k] != t {
			k++
		}
		if k == len(b) {
			why := ""
			if fin[t] == 0 {
				if why = o.redundant(t, fin); why == "" {
					continue
				}
			} else if o.forced {
				// two histories can have what was made up in two orders
				continue
			} else {
				why = "the order of changes was not kept"
			}
			return t, why, false
		}
		j = k + 1
	}
	return RTx{}, "", true
}

func (o *syncOracle) after(step int) {
	run := o.run
	for _, p := range run.procs[step] {
		if why := p.crashedBadly(); why != "" {
			o.fail("crash", "%s on %s died: %s", p.story(), p.dev.name, why)
		}
		if p.crashed != "" {
			o.dirty = true
		}
		for _, e := range p.agent.hist {
			if strings.Contains(e.Prompt, "[R]estore") {
				run.nontrivial = true
				switch e.Reply {
				case "r", "R":
					o.discR = true
				case "d", "D":
					o.discD = true
				}
			}
		}
	}
	for _, p := range run.procs[step] {
		b, ok := p.dev.fs.read(p.vaultFile())
		old := o.logs[p.dev.name]
		if !ok {
			if old != nil {
				o.fail("lost", "after %s the file of %s is gone", p.story(), p.dev.name)
			}
			continue
		}
		v, err := o.pass(b)
		if err != nil {
			o.fail("lost", "after %s the file of %s cannot be opened: %v", p.story(), p.dev.name, err)
			continue
		}
		if err := checkVault(v); err != nil {
			o.fail("stale", "after %s on %s: %v", p.story(), p.dev.name, err)
		}
		o.mono = o.mono && isMono(v.Log)
		for t, n := range countTx(v.Log) {
			if n > o.union[t] {
				o.union[t] = n
			}
		}
		if t, why, ok := o.kept(old, v.Log); !ok {
			o.fail("lost", "after %s on %s: %s: %s (%d transactions before, %d after)", p.story(), p.dev.name, why, txStr(t), len(old), len(v.Log))
		}
		if p.crashed == "" && p.code == 0 && p.crashedBadly() == "" {
			o.typed(p, v)
		}
		o.logs[p.dev.name] = v.Log
		if os.Getenv("VERIF_LOGS") != "" {
			fmt.Println(p.story(), "on", p.dev.name)
			for _, t := range v.Log {
				fmt.Println("   ", txStr(t))
			}
		}
	}
	if len(run.procs[step]) == 1 {
		o.remotes(step, run.procs[step][0])
	}
}

// typed checks that what was set in a session is in its log.
func (o *syncOracle) typed(p *Proc, v *Vault) {
	for i := range p.sess.Ops {
		op := &p.sess.Ops[i]
		if op.Do != "set" || len(op.A) != 3 || op.A[1] == "totp" || protectedKey(op.A[1]) || !p.agent.opDone(i) {
			continue
		}
		if !strings.Contains(p.agent.outOf(i), "set "+op.A[1]+" = ") {
			continue
		}
		found := false
		for _, t := range v.Log {
			if t.Kind == "setk" && t.Key == op.A[1] && t.Value == op.A[2] {
				found = true
			}
		}
		if !found && !o.discD {
			o.fail("lost", "after %s on %s: %q was typed and stored, but is not in the history", p.story(), p.dev.name, op.Line)
		}
	}
}

// remotes checks what a session that ran alone did to the remotes.
func (o *syncOracle) remotes(step int, p *Proc) {
	run := o.run
	for i, r := range run.plan.remotes() {
		old := o.rbefore[i]
		now, ok := run.remoteRead(r)
		if string(old) == string(now) {
			continue
		}
		torn := r.srv != "" && (p.fired > 0 || run.w.servers[r.srv].full || run.w.servers[r.srv].exitCode != 0)
		var before *Vault
		if old != nil {
			var err error
			if before, err = o.pass(old); err != nil {
				o.fail("overwritten", "%s on %s overwrote a remote it could not read (%v)", p.story(), p.dev.name, err)
				continue
			}
		}
		if !ok {
			o.fail("overwritten", "%s on %s removed a remote", p.story(), p.dev.name)
			continue
		}
		v, err := o.pass(now)
		if err != nil {
			if !torn {
				o.fail("overwritten", "%s on %s left a remote that cannot be opened: %v", p.story(), p.dev.name, err)
			}
			continue
		}
		if err := checkVault(v); err != nil {
			o.fail("stale", "after %s on %s, remote: %v", p.story(), p.dev.name, err)
		}
		for _, t := range v.Log {
			o.pushed[t]++
		}
		if before != nil {
			if t, why, ok := o.kept(before.Log, v.Log); !ok {
				o.fail("overwritten", "%s on %s pushed a file without what the remote had: %s: %s", p.story(), p.dev.name, why, txStr(t))
			}
		}
		run.w.probe("pushed")
	}
}

// converged checks the state after everything settled.
func (o *syncOracle) converged() {
	run := o.run
	var names []string
	vs := map[string]*Vault{}
	for _, d := range run.w.devs {
		b, ok := d.fs.read(vaultPath)
		if !ok {
			continue
		}
		v, err := o.pass(b)
		if err != nil {
			o.fail("diverged", "the file of %s cannot be opened in the end: %v", d.name, err)
			return
		}
		vs[d.name] = v
		names = append(names, d.name)
	}
	if len(names) < 2 {
		return
	}
	first := vs[names[0]]
	if !o.noRem {
		for i, r := range run.plan.remotes() {
			b, ok := run.remoteRead(r)
			if !ok {
				if len(first.remoteEntries()) > i {
					o.fail("remote", "remote %d is missing in the end", i)
				}
				return
			}
			v, err := o.pass(b)
			if err != nil {
				o.fail("remote", "remote %d cannot be opened in the end: %v", i, err)
				return
			}
			n := fmt.Sprint("remote", i)
			vs[n] = v
			names = append(names, n)
		}
	}
	fin := countTx(first.Log)
	eff, _ := first.effective()
	want := canon(eff)
	for _, n := range names[1:] {
		e, _ := vs[n].effective()
		if got := canon(e); got != want {
			o.fail("diverged", "in the end %s and %s differ:\n%s\n%s", names[0], n, diffCanon(eff, e), "")
			return
		}
	}
	for _, n := range names[1:] {
		c := countTx(vs[n].Log)
		for _, t := range sortedTx(c) {
			if fin[t] != c[t] && (t.Kind != "del" || o.redundant(t, c) != "" || o.redundant(t, fin) != "") {
				o.fail("diverged", "in the end the histories of %s and %s differ: %s occurs %d and %d times", names[0], n, txStr(t), fin[t], c[t])
				return
			}
		}
		for _, t := range sortedTx(fin) {
			if c[t] == 0 && t.Kind != "del" {
				o.fail("diverged", "in the end the histories of %s and %s differ: %s occurs %d and %d times", names[0], n, txStr(t), fin[t], c[t])
				return
			}
		}
	}
	for _, t := range sortedTx(o.union) {
		if fin[t] >= o.union[t] {
			continue
		}
		if fin[t] > 0 {
			continue
		}
		if why := o.redundant(t, fin); why != "" {
			o.fail("diverged", "in the end %s: %s", why, txStr(t))
			return
		}
	}
	for _, t := range sortedTx(fin) {
		if fin[t] > o.union[t] && o.union[t] > 0 {
			o.fail("diverged", "in the end %s occurs %d times, it was made %d times", txStr(t), fin[t], o.union[t])
			return
		}
	}
	if o.mono {
		o.latest(first, eff)
	}
}

// remoteEntries lists the automatic sync entries.
func (v *Vault) remoteEntries() []string {
	eff, _ := v.effective()
	var out []string
	for _, u := range sortedKeys(eff) {
		if eff[u]["sync"] == "true" && eff[u]["url"] != "" {
			out = append(out, u)
		}
	}
	return out
}

// latest checks that the latest change of every value won.
func (o *syncOracle) latest(v *Vault, eff map[string]REntry) {
	type uk struct{ u, k string }
	best := map[uk]RTx{}
	tie := map[uk]bool{}
	for _, t := range v.Log {
		if t.Kind != "setk" && t.Kind != "delk" {
			continue
		}
		k := uk{t.UUID, t.Key}
		b, ok := best[k]
		switch {
		case !ok || t.Time > b.Time:
			best[k] = t
			tie[k] = false
		case t.Time == b.Time:
			tie[k] = true
		}
	}
	for k, t := range best {
		if tie[k] || eff[k.u] == nil {
			continue
		}
		got, ok := eff[k.u][k.k]
		if t.Kind == "setk" && (!ok || got != t.Value) || t.Kind == "delk" && ok {
			o.fail("order", "in the end %q of entry %.8s is %q (%v) although the latest change was %s", k.k, k.u, got, ok, txStr(t))
			return
		}
	}
}

func sortedTx(m map[RTx]int) []RTx {
	var out []RTx
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Time != b.Time {
			return a.Time < b.Time
		}
		return a.UUID+a.Kind+a.Key+"\x00"+a.Value < b.UUID+b.Kind+b.Key+"\x00"+b.Value
	})
	return out
}

func diffCanon(a, b map[string]REntry) string {
	var out []string
	for _, u := range sortedKeys(a) {
		if b[u] == nil {
			out = append(out, fmt.Sprintf("only first has %.8s (%s)", u, a[u]["name"]))
			continue
		}
		for _, k := range sortedKeys(a[u]) {
			if w, ok := b[u][k]; !ok || w != a[u][k] {
				out = append(out, fmt.Sprintf("%.8s (%s) %s: %q / %q", u, a[u]["name"], k, a[u][k], w))
			}
		}
		for _, k := range sortedKeys(b[u]) {
			if _, ok := a[u][k]; !ok {
				out = append(out, fmt.Sprintf("%.8s (%s) only second has %s=%q", u, a[u]["name"], k, b[u][k]))
			}
		}
	}
	for _, u := range sortedKeys(b) {
		if a[u] == nil {
			out = append(out, fmt.Sprintf("only second has %.8s (%s)", u, b[u]["name"]))
		}
	}
	if len(out) > 5 {
		out = out[:5]
	}
	return strings.Join(out, "; ")
}

func syncHooks(run *Run, report string) (Hooks, *syncOracle) {
	o := newSyncOracle(run, report)
	return Hooks{before: o.before, after: func(step int) {
		if len(run.procs[step]) > 0 {
			o.after(step)
		}
	}, end: func() {
		if len(run.viol) == 0 && o.settled == int(run.plan.K["settle"]) {
			o.converged()
		}
		if run.w.stats.Probes["pushed"] > 1 {
			run.nontrivial = true
		}
	}}, o
}

func init() {
	conv := func(name string, w int, o syncOpts) *Scenario {
		return &Scenario{Name: name, Weight: w, Gen: func(r *Rand, tier string) *Plan {
			pl, _ := syncGen(r, tier, o)
			return pl
		}, Setup: func(run *Run) Hooks {
			h, _ := syncHooks(run, "crash diverged order stale remote lost overwritten")
			return h
		}}
	}
	paths := conv("paths", 1, syncOpts{paths: true, ssh: true, dirs: true})
	// devices that do equally much, often offline or while nothing can be pushed
	even := conv("even", 2, syncOpts{ssh: true})
	even.Gen = func(r *Rand, tier string) *Plan {
		pl, gs := syncGen(r, tier, syncOpts{ssh: true})
		for len(pl.Devs) < 3 {
			pl, gs = syncGen(r, tier, syncOpts{ssh: true})
		}
		g0 := gs[0]
		var names []string
		for _, op := range pl.Steps[0].Sess[0].Ops {
			if op.Do == "add" {
				names = append(names, op.A[0])
			}
		}
		srv := pl.remotes()[0].srv
		k, n := 1+r.N(2), 0
		for n < len(pl.Steps) && pl.Steps[n].Sess[0].Role != "settle" {
			n++
		}
		at := len(pl.Devs) + r.N(3)
		for i := 1; i < n; i++ {
			s := &pl.Steps[i].Sess[0]
			s.Ops, s.Args = nil, nil
			if i < len(pl.Devs) {
				s.Dev = i // all have to be there first
				continue
			}
			if i <= at+len(pl.Devs) {
				for n := 0; n < k && !r.P(1, 8); n++ {
					x, v := r.pick(names), g0.word()
					s.Ops = append(s.Ops, Op{Line: "set " + x + " note " + v, Do: "set", A: []string{x, "note", v}})
				}
				if r.P(2, 3) {
					s.Args = []string{"--no-sync"}
				}
				if r.P(2, 3) {
					s.Dev = i % len(pl.Devs)
				}
			}
			if r.P(2, 5) {
				pl.Steps[i].Env = append(pl.Steps[i].Env, EnvOp{Op: "srvro", A: srv, N: int64(r.N(2))})
			}
		}
		return pl
	}
	register(&Property{ID: "C04", Rule: "one run is a history of 2 or 3 devices that share a file through one or two remotes, followed by a few rounds without faults; non-trivial when remotes were written more than once",
		Scens: []*Scenario{conv("devices", 3, syncOpts{conc: true}), conv("skew", 2, syncOpts{conc: true, skew: true}), conv("faults", 3, syncOpts{conc: true, faults: true}), paths, even}})
	guard := func(name string, w int, o syncOpts) *Scenario {
		s := conv(name, w, o)
		gen := s.Gen
		s.Gen = func(r *Rand, tier string) *Plan {
			pl := gen(r, tier)
			addDamage(r, pl)
			return pl
		}
		s.Setup = func(run *Run) Hooks {
			h, _ := syncHooks(run, "crash lost overwritten")
			return h
		}
		return s
	}
	moved := guard("moved", 2, syncOpts{conc: true})
	moved.Gen = func(r *Rand, tier string) *Plan {
		pl, _ := syncGen(r, tier, syncOpts{conc: r.P(1, 2), faults: r.P(1, 4)})
		trimSettle(pl)
		addMoves(r, pl)
		return pl
	}
	moved.Setup = func(run *Run) Hooks {
		h, _ := syncHooks(run, "crash lost overwritten")
		h.end = func() { run.nontrivial = run.w.stats.Probes["pushed"] > 1 }
		return h
	}
	register(&Property{ID: "C05", Rule: "one run is a history of 2 or 3 devices that sync through remotes that fail or are damaged; non-trivial when remotes were written more than once",
		Scens: []*Scenario{guard("damage", 3, syncOpts{conc: true}), guard("faults", 2, syncOpts{conc: true, faults: true}), guard("skew", 1, syncOpts{conc: true, skew: true, faults: true, dels: true}), moved}})
	conflicts := func(name string, w int, o syncOpts) *Scenario {
		s := conv(name, w, o)
		s.Setup = func(run *Run) Hooks {
			h, o := syncHooks(run, "crash asked answered diverged stale lost overwritten")
			after, end := h.after, h.end
			h.after = func(step int) {
				after(step)
				for _, p := range run.procs[step] {
					o.questions(p)
				}
			}
			h.end = func() {
				end()
				if len(run.viol) == 0 && o.settled == int(run.plan.K["settle"]) {
					o.answered()
				}
				run.nontrivial = o.discR || o.discD
			}
			return h
		}
		return s
	}
	register(&Property{ID: "C06", Rule: "one run is a history of 2 or 3 devices that delete and change the same entries and sync, followed by a few rounds without faults; non-trivial when a conflict was asked about",
		Scens: []*Scenario{conflicts("deletes", 3, syncOpts{dels: true, conc: true}), conflicts("skew", 1, syncOpts{dels: true, conc: true, skew: true})}})
}

// addMoves changes where sync entries point to.
func addMoves(r *Rand, pl *Plan) {
	rs := pl.remotes()
	var names []string
	n := map[string]int{}
	for _, rm := range rs {
		k := "file"
		if rm.srv != "" {
			k = "scp"
		}
		name := "sync/" + k
		if n[k]++; n[k] > 1 {
			name += fmt.Sprint(n[k] - 1)
		}
		names = append(names, name)
	}
	to := []string{"file:///mnt/share/moved"}
	pl.S[fmt.Sprint("remote", len(rs))] = "|moved"
	for _, rm := range rs {
		if rm.srv == "" {
			to = append(to, "file:///mnt/share/"+rm.path)
		}
	}
	if len(pl.Srvs) > 0 {
		sp := pl.Srvs[r.N(len(pl.Srvs))]
		to = append(to, "scp://srv:"+sp.Users["srv"]+"@"+sp.Addr+"/moved")
		pl.S[fmt.Sprint("remote", len(rs)+1)] = sp.Addr + "|moved"
	}
	for i := 1; i < len(pl.Steps); i++ {
		if r.P(1, 2) {
			continue
		}
		s := pl.Steps[i].pickSession(r)
		op := Op{Line: "cd", Do: "cd"}
		nm, url := r.pick(names), r.pick(to)
		set := Op{Line: "set " + nm + " url " + url, Do: "set", A: []string{nm, "url", url}}
		at := r.N(len(s.Ops) + 1)
		s.Ops = append(s.Ops[:at:at], append([]Op{op, set}, s.Ops[at:]...)...)
	}
}

// addDamage makes remotes unreadable in various ways.
func addDamage(r *Rand, pl *Plan) {
	rs := pl.remotes()
	for i := 1; i < len(pl.Steps); i++ {
		st := &pl.Steps[i]
		if st.Sess[0].Role == "settle" || !r.P(1, 3) {
			continue
		}
		k := r.N(len(rs))
		rm := rs[k]
		n := int64(r.Next() >> 1)
		if len(rs) > 1 && r.P(1, 2) {
			// the same everywhere
			a, b := int64(k), int64((k+1)%len(rs))
			defer func() {
				st.Env = append(st.Env, EnvOp{Op: "twin", N: a*10 + b})
			}()
		}
		if r.P(1, 6) {
			// another program, or another version of it, has been here
			st.Env = append(st.Env, EnvOp{Op: "junk", A: rm.srv, B: rm.path, N: n})
			continue
		}
		if rm.srv == "" {
			if r.P(1, 4) {
				st.Sess[0].Faults = append(st.Sess[0].Faults, Fault{Kind: "eio", Op: "read", At: 1 + r.N(8)})
			} else {
				st.Env = append(st.Env, EnvOp{Op: "sharerot", A: rm.path, N: n})
			}
			continue
		}
		switch r.N(6) {
		case 5:
			st.Env = append(st.Env, EnvOp{Op: "srvrude", A: rm.srv, N: int64(pick(r, 0, 1+r.N(200), 1+r.N(200), 1000+r.N(200), 1000+r.N(200)))})
		case 0:
			st.Env = append(st.Env, EnvOp{Op: "srvnoread", A: rm.srv, N: int64(r.N(9))})
		case 1:
			st.Env = append(st.Env, EnvOp{Op: "srvbaddisk", A: rm.srv, N: int64(r.N(3))})
		case 2:
			st.Env = append(st.Env, EnvOp{Op: "heal"})
		default:
			st.Env = append(st.Env, EnvOp{Op: "srvrot", A: rm.srv, B: rm.path, N: n})
		}
	}
}

// questions checks that the user is not asked needlessly or for ever.
func (o *syncOracle) questions(p *Proc) {
	n := 0
	for _, e := range p.agent.hist {
		if strings.Contains(e.Prompt, "[R]estore") {
			n++
		}
	}
	if n == 0 {
		return
	}
	// every question is about an entry that was deleted and changed
	known := map[RTx]int{}
	for t := range o.union {
		known[t]++
	}
	for _, b := range o.rbefore {
		if v, err := o.pass(b); err == nil {
			for _, t := range v.Log {
				known[t]++
			}
		}
	}
	pairs, own := 0, 0
	for _, q := range o.run.procs[p.stepIdx] {
		for _, op := range q.sess.Ops {
			switch op.Do {
			case "set", "edit", "mv", "label", "rmlabel", "rmk", "rm":
				own++
			}
		}
	}
	for u := range known {
		if u.Kind != "del" {
			continue
		}
		for t := range known {
			if t.UUID == u.UUID && t.Kind != "del" && (!o.mono || t.Time >= u.Time) {
				pairs++
				break
			}
		}
	}
	if pairs == 0 && own == 0 && o.mono {
		o.fail("asked", "%s on %s asked about a deleted entry although none was changed after its deletion", p.story(), p.dev.name)
	}
	syncs := 2
	for _, op := range p.sess.Ops {
		if op.Do == "sync" {
			syncs++
		}
	}
	if max := (pairs + own) * syncs * len(o.run.plan.remotes()); n > max {
		o.fail("asked", "%s on %s asked %d times about %d conflicts", p.story(), p.dev.name, n, pairs)
	}
}

// answered checks the outcome of conflicts.
func (o *syncOracle) answered() {
	b, _ := o.run.w.devs[0].fs.read(vaultPath)
	v, err := o.pass(b)
	if err != nil || !o.mono {
		return
	}
	if len(v.remoteEntries()) < len(o.run.plan.remotes()) {
		return
	}
	eff, _ := v.effective()
	dels := map[string][]RTx{}
	for t := range o.union {
		if t.Kind == "del" {
			dels[t.UUID] = append(dels[t.UUID], t)
		}
	}
	for _, u := range sortedKeys(dels) {
		first, last := dels[u][0].Time, dels[u][0].Time
		for _, d := range dels[u] {
			if d.Time < first {
				first = d.Time
			}
			if d.Time > last {
				last = d.Time
			}
		}
		late, later := false, false
		for t := range o.union {
			if t.UUID == u && t.Kind != "del" {
				late = late || t.Time >= first
				later = later || t.Time > last
			}
		}
		switch {
		case !late && eff[u] != nil:
			o.fail("answered", "entry %.8s was deleted and not changed later, but exists in the end", u)
		case later && o.discR && !o.discD && eff[u] == nil:
			o.fail("answered", "entry %.8s was deleted and changed later, restoring it was asked for, but it does not exist in the end", u)
		case o.discD && !o.discR && eff[u] != nil:
			o.fail("answered", "entry %.8s was deleted, deleting it was confirmed, but it exists in the end", u)
		}
	}
}
