package verifsim

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
)

// Plan is one complete run: everything that happens follows from it and from
// the code under test.
type Plan struct {
	Prop  string            `json:"prop"`
	Scen  string            `json:"scen"`
	Seed  uint64            `json:"seed"`
	Stick int               `json:"stick,omitempty"`
	Devs  []DevPlan         `json:"devs"`
	Srvs  []SrvPlan         `json:"srvs,omitempty"`
	Share []FilePlan        `json:"share,omitempty"`
	Steps []Step            `json:"steps"`
	K     map[string]int64  `json:"k,omitempty"`
	S     map[string]string `json:"s,omitempty"`
}

// DevPlan configures a device.
type DevPlan struct {
	ClockOff int64             `json:"off,omitempty"`
	ClockRes int64             `json:"res,omitempty"`
	Env      map[string]string `json:"env,omitempty"`
	ClipErr  bool              `json:"cliperr,omitempty"`
	Programs []string          `json:"programs,omitempty"`
	Files    []FilePlan        `json:"files,omitempty"`
}

// FilePlan is a file that exists from the start.
type FilePlan struct {
	Path string `json:"path"`
	B64  string `json:"b64,omitempty"`
	Link string `json:"link,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
}

// SrvPlan configures an ssh host.
type SrvPlan struct {
	Addr    string            `json:"addr"`
	Seed    byte              `json:"seed"`
	Algo    string            `json:"algo,omitempty"`
	Users   map[string]string `json:"users,omitempty"`
	AnyKey  bool              `json:"anykey,omitempty"`
	MaxRead int               `json:"maxread,omitempty"` // >0: fragmented reads
}

// Step is a set of sessions that run concurrently, after some changes to the
// environment.
type Step struct {
	Env  []EnvOp   `json:"env,omitempty"`
	Sess []Session `json:"sess,omitempty"`
}

// EnvOp changes the environment between steps.
type EnvOp struct {
	Op  string `json:"op"`
	Dev int    `json:"dev,omitempty"`
	A   string `json:"a,omitempty"`
	B   string `json:"b,omitempty"`
	N   int64  `json:"n,omitempty"`
}

// Violation is one broken property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"` // stable kind of failure, used when minimising
	Key   string `json:"key"`   // fingerprint matched against known findings
	Msg   string `json:"msg"`
}

// Run is an execution of a plan.
type Run struct {
	plan  *Plan
	w     *World
	viol  []Violation
	procs [][]*Proc // by step
	step  int
	h     Hooks
	// non-trivial marks a run that exercised what its property is about
	nontrivial bool
	stash      []byte
}

// Hooks are a scenario's oracles.
type Hooks struct {
	before func(step int)
	after  func(step int)
	end    func()
}

// Scenario generates plans and judges their runs.
type Scenario struct {
	Name     string
	Gen      func(r *Rand, tier string) *Plan
	Setup    func(run *Run) Hooks
	Variants int
	Mutate   func(r *Rand, base *Plan, rec *Run, v int) *Plan
	Weight   int
}

// Property is a set of scenarios.
type Property struct {
	ID    string
	Rule  string
	Scens []*Scenario
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func (run *Run) fail(class, format string, a ...any) {
	run.failKey(class, class, format, a...)
}

func (run *Run) failKey(class, key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	run.viol = append(run.viol, Violation{Prop: run.plan.Prop, Class: class, Key: key, Msg: msg})
	run.w.note("VIOLATION %s: %s", class, msg)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }
func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		harness("bad base64 in plan: %v", err)
	}
	return b
}

func putFile(fs *FS, f FilePlan) {
	switch {
	case f.Dir:
		n := fs.mkdirAll(f.Path)
		if f.Mode != 0 {
			n.mode = n.mode&^0777 | f.Mode
		}
	case f.Link != "":
		fs.symlink(f.Path, f.Link)
	default:
		m := f.Mode
		if m == 0 {
			m = 0600
		}
		fs.put(f.Path, unb64(f.B64), m)
	}
}

var theProg func()

func findScenario(prop, name string) *Scenario {
	p := properties[prop]
	if p == nil {
		return nil
	}
	for _, s := range p.Scens {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// execute runs a plan.
func execute(pl *Plan, logOn bool) *Run {
	sc := findScenario(pl.Prop, pl.Scen)
	if sc == nil {
		harness("unknown scenario %s/%s", pl.Prop, pl.Scen)
	}
	w := newWorld(pl.Seed, theProg)
	w.logOn = logOn
	if pl.Stick > 0 {
		w.stick = pl.Stick
	}
	run := &Run{plan: pl, w: w}
	for i, dp := range pl.Devs {
		d := w.addDevice(fmt.Sprintf("dev%d", i))
		d.clockOff = dp.ClockOff
		if dp.ClockRes > 0 {
			d.clockRes = dp.ClockRes
		}
		for k, v := range dp.Env {
			d.env[k] = v
		}
		d.clipErr = dp.ClipErr
		for _, p := range dp.Programs {
			f := childPrograms[p]
			if f == nil {
				harness("unknown program %q", p)
			}
			d.install(p, f)
		}
		for _, f := range dp.Files {
			putFile(d.fs, f)
		}
	}
	for _, f := range pl.Share {
		putFile(w.share, f)
	}
	for _, sp := range pl.Srvs {
		s := w.addServer(sp.Addr, sp.Seed)
		if sp.Algo != "" {
			s.keyAlgo = sp.Algo
		}
		for u, p := range sp.Users {
			s.users[u] = p
		}
		s.anyKey = sp.AnyKey
		if sp.MaxRead > 0 {
			s.frag, s.maxRead = true, sp.MaxRead
		}
	}
	run.h = sc.Setup(run)
	start := w.now
	for i := range pl.Steps {
		st := &pl.Steps[i]
		run.step = i
		for _, e := range st.Env {
			run.env(e)
		}
		if run.h.before != nil {
			run.h.before(i)
		}
		var ps []*Proc
		for j := range st.Sess {
			s := &st.Sess[j]
			w.now += s.Gap
			d := w.devs[s.Dev]
			d.clockOff += s.Jump
			p := w.newProc(d, s.Args, s.Env)
			p.sess, p.stepIdx, p.sessIdx = s, i, j
			p.faults = append([]Fault(nil), s.Faults...)
			p.rndMode = s.Rnd
			p.agent = &Agent{p: p, s: s, op: -1, tabs: s.Tabs, endClip: -1, endPos: -1}
			ps = append(ps, p)
		}
		run.procs = append(run.procs, ps)
		w.run(ps...)
		if run.h.after != nil {
			run.h.after(i)
		}
	}
	if run.h.end != nil {
		run.h.end()
	}
	w.stats.SimTime = w.now - start
	w.note("done viol=%d", len(run.viol))
	return run
}

func (run *Run) env(e EnvOp) {
	w := run.w
	w.note("env %s %d %s %s %d", e.Op, e.Dev, e.A, e.B, e.N)
	dev := func() *Device { return w.devs[e.Dev] }
	srv := func() *Server {
		s := w.servers[e.A]
		if s == nil {
			harness("no server %q", e.A)
		}
		return s
	}
	switch e.Op {
	case "time":
		w.now += e.N
	case "jump":
		dev().clockOff += e.N
		w.stats.fault("clock-jump")
	case "down":
		srv().down = true
		w.stats.fault("host-down")
	case "up":
		srv().down = false
	case "mitm":
		srv().mitm = byte(e.N)
		w.stats.fault("impostor")
	case "nomitm":
		srv().mitm = 0
	case "srvfull":
		srv().full = e.N != 0
		w.stats.fault("remote-disk-full")
	case "srvro":
		srv().readOnly = e.N != 0
		w.stats.fault("remote-read-only")
	case "srvexit":
		srv().exitCode = int(e.N)
		w.stats.fault("remote-scp-failure")
	case "srvnoread":
		srv().noRead = int(e.N)
		w.stats.fault("remote-unreadable")
	case "srvbaddisk":
		srv().badDisk = e.N != 0
		w.stats.fault("remote-read-error")
	case "srvrude":
		srv().rude = int(e.N)
		w.stats.fault("remote-protocol-violation")
	case "rekeyhost":
		srv().keySeed = byte(e.N)
		w.stats.fault("host-key-changed")
	case "ip":
		srv().ip = e.B
	case "powerloss":
		w.note("power loss: %s", dev().fs.powerLoss(w.crash))
		w.stats.fault("power-after-exit")
	case "settle":
		dev().fs.settle()
	case "umount":
		d := dev()
		delete(d.fs.mounts, "/mnt/share")
		w.stats.fault("share-unmounted")
	case "mount":
		dev().fs.mounts["/mnt/share"] = w.share
	case "put":
		f := dev().fs
		if strings.HasPrefix(e.A, "/mnt/share/") {
			f = w.share
			putFile(f, FilePlan{Path: strings.TrimPrefix(e.A, "/mnt/share"), B64: e.B})
			return
		}
		putFile(f, FilePlan{Path: e.A, B64: e.B, Mode: uint32(e.N)})
	case "copy": // copy a file between devices, as a user would
		b, ok := dev().fs.read(e.A)
		if ok {
			w.devs[e.N].fs.put(e.B, b, 0600)
		}
	case "remove":
		dev().fs.remove(e.A)
	case "srvput":
		srv().fs.put("/home/srv/"+strings.SplitN(e.B, "=", 2)[0], unb64(strings.SplitN(e.B, "=", 2)[1]), 0600)
	case "srvremove":
		srv().fs.remove("/home/srv/" + e.B)
	case "bitrot": // stored bytes of a file change behind the program's back
		n := dev().fs.get(e.A)
		rot(run, n, e)
	case "sharerot":
		rot(run, w.share.get("/"+e.A), e)
	case "srvrot":
		n := srv().fs.get("/home/srv/" + e.B)
		rot(run, n, e)
	case "heal": // everything works again
		for _, k := range sortedKeys(w.servers) {
			s := w.servers[k]
			s.down, s.full, s.readOnly, s.exitCode, s.mitm = false, false, false, 0, 0
			s.noRead, s.badDisk, s.rude = 0, false, 0
		}
		for _, d := range w.devs {
			d.fs.mounts["/mnt/share"] = w.share
		}
	case "twin": // what is at one remote is also at another
		rs := run.plan.remotes()
		a, b := int(e.N/10), int(e.N%10)
		if a >= len(rs) || b >= len(rs) {
			return
		}
		if data, ok := run.remoteRead(rs[a]); ok {
			f, path := w.share, "/"+rs[b].path
			if rs[b].srv != "" {
				f, path = w.servers[rs[b].srv].fs, "/home/srv/"+rs[b].path
			}
			f.put(path, data, 0600)
			w.stats.fault("remote-copied")
		}
	case "healremotes": // someone removes remote files that no longer open
		for _, r := range run.plan.remotes() {
			b, ok := run.remoteRead(r)
			if !ok {
				continue
			}
			if _, err := openVault(b, run.plan.S["user"], run.plan.S["pass"]); err != nil {
				run.remoteRemove(r)
				w.probe("remote-removed")
			}
		}
	case "poison", "junk":
		run.poison(e)
	case "erofs":
		w.troubled = true
		d := dev()
		if n := d.fs.get(e.A); n != nil {
			n.mode = n.mode&^0777 | uint32(e.N)
		}
		w.stats.fault("permissions")
	case "rewrite": // of the property's hooks
	default:
		harness("unknown environment change %q", e.Op)
	}
}

// rot damages an inode: N selects the damage deterministically.
func rot(run *Run, n *Inode, e EnvOp) {
	if n == nil {
		return
	}
	d := append([]byte(nil), n.data...)
	d, what := damage(NewRand(uint64(e.N)), d)
	n.data, n.durable, n.pending = d, d, nil
	run.w.stats.fault("stored-" + what)
}

// damage applies one kind of corruption.
func damage(r *Rand, d []byte) ([]byte, string) {
	if len(d) == 0 {
		return []byte{0}, "garbage"
	}
	switch r.N(12) {
	case 9: // nothing but a header
		n := r.N(220)
		g := make([]byte, n)
		for i := range g {
			g[i] = byte(r.Next())
		}
		k := r.N(17)
		if r.P(1, 2) {
			k = 16
		}
		copy(g, d[:imin(k, len(d))])
		return g, "garbage"
	case 10: // emptied
		return nil, "emptied"
	case 11: // a block written twice
		a, n := r.N(len(d)), 8*(1+r.N(10))
		b := imin(a+n, len(d))
		return append(d[:b:b], d[a:]...), "duplicated-block"
	case 0: // truncation
		return d[:r.N(len(d))], "truncation"
	case 1: // truncation close to the header
		n := r.N(200)
		if n > len(d) {
			n = len(d)
		}
		return d[:n], "truncation"
	case 2:
		d[r.N(len(d))] ^= 1 << r.N(8)
		return d, "bitflip"
	case 3: // header bit
		n := 140
		if n > len(d) {
			n = len(d)
		}
		d[r.N(n)] ^= 1 << r.N(8)
		return d, "bitflip"
	case 4: // zeroed tail
		k := r.N(len(d))
		for i := k; i < len(d); i++ {
			d[i] = 0
		}
		return d, "zeroed-tail"
	case 5: // appended bytes
		for i, k := 0, 1+r.N(40); i < k; i++ {
			d = append(d, byte(r.Next()))
		}
		return d, "appended"
	case 6: // a lost block in the middle
		if len(d) > 8 {
			a := r.N(len(d) - 8)
			return append(d[:a:a], d[a+8:]...), "lost-block"
		}
		return nil, "truncation"
	case 7: // number field
		if len(d) >= 16 {
			d[8+r.N(8)] = byte('0' + r.N(10))
		}
		return d, "header"
	default:
		k := r.N(len(d))
		d[k] = byte(r.Next())
		return d, "bytechange"
	}
}

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		harness("%v", err)
	}
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		harness("%v", err)
	}
	return q
}

// ---- generation and minimisation

func derive(seed uint64, idx int, prop string) *Rand {
	return NewRand(hash2(hash2(seed, fnvs(prop)), uint64(idx)))
}

// gen builds plan idx of a property.
func gen(prop *Property, seed uint64, idx int, tier string) (*Plan, *Scenario, *Rand) {
	r := derive(seed, idx, prop.ID)
	total := 0
	for _, s := range prop.Scens {
		total += s.Weight
	}
	k := idx % total
	if idx >= total {
		k = r.N(total)
	}
	var sc *Scenario
	for _, s := range prop.Scens {
		if k < s.Weight {
			sc = s
			break
		}
		k -= s.Weight
	}
	pl := sc.Gen(r, tier)
	pl.Prop, pl.Scen = prop.ID, sc.Name
	if pl.Seed == 0 {
		pl.Seed = r.Next() | 1
	}
	return clonePlan(pl), sc, r
}

func hasClass(run *Run, class string) *Violation {
	for i := range run.viol {
		if run.viol[i].Class == class {
			return &run.viol[i]
		}
	}
	return nil
}

// shrink drops parts of the plan while the same class of violation remains.
func shrink(pl *Plan, class string, budget func() bool) (*Plan, int) {
	best := pl
	tries := 0
	try := func(q *Plan) bool {
		tries++
		run := execute(q, false)
		if tries%8 == 0 {
			runtime.GC()
		}
		if hasClass(run, class) != nil {
			best = q
			return true
		}
		return false
	}
	for changed := true; changed && budget(); {
		changed = false
		// drop whole steps, last first
		for i := len(best.Steps) - 1; i >= 0 && budget(); i-- {
			q := clonePlan(best)
			q.Steps = append(q.Steps[:i], q.Steps[i+1:]...)
			changed = try(q) || changed
		}
		for i := len(best.Steps) - 1; i >= 0 && budget(); i-- {
			for j := len(best.Steps[i].Sess) - 1; j >= 0 && budget(); j-- {
				if len(best.Steps[i].Sess) > 1 {
					q := clonePlan(best)
					q.Steps[i].Sess = append(q.Steps[i].Sess[:j], q.Steps[i].Sess[j+1:]...)
					if try(q) {
						changed = true
						continue
					}
				}
				for k := len(best.Steps[i].Sess[j].Faults) - 1; k >= 0 && budget(); k-- {
					q := clonePlan(best)
					s := &q.Steps[i].Sess[j]
					s.Faults = append(s.Faults[:k], s.Faults[k+1:]...)
					changed = try(q) || changed
				}
				for k := len(best.Steps[i].Sess[j].Start) - 1; k >= 0 && budget(); k-- {
					q := clonePlan(best)
					s := &q.Steps[i].Sess[j]
					s.Start = append(s.Start[:k], s.Start[k+1:]...)
					changed = try(q) || changed
				}
				for n := len(best.Steps[i].Sess[j].Ops); n > 1; n /= 2 {
					// halves first
					h := n / 2
					for k := len(best.Steps[i].Sess[j].Ops) - h; k >= 0 && budget(); k -= h {
						q := clonePlan(best)
						s := &q.Steps[i].Sess[j]
						if k+h > len(s.Ops) {
							continue
						}
						s.Ops = append(s.Ops[:k], s.Ops[k+h:]...)
						changed = try(q) || changed
					}
				}
				for k := len(best.Steps[i].Sess[j].Ops) - 1; k >= 0 && budget(); k-- {
					q := clonePlan(best)
					s := &q.Steps[i].Sess[j]
					s.Ops = append(s.Ops[:k], s.Ops[k+1:]...)
					if try(q) {
						changed = true
						continue
					}
					for a := len(best.Steps[i].Sess[j].Ops[k].Ans) - 1; a >= 0 && budget() && best.Steps[i].Sess[j].Ops[k].Do == ""; a-- {
						q := clonePlan(best)
						o := &q.Steps[i].Sess[j].Ops[k]
						o.Ans = append(o.Ans[:a], o.Ans[a+1:]...)
						changed = try(q) || changed
					}
				}
			}
			for k := len(best.Steps[i].Env) - 1; k >= 0 && budget(); k-- {
				q := clonePlan(best)
				s := &q.Steps[i]
				s.Env = append(s.Env[:k], s.Env[k+1:]...)
				changed = try(q) || changed
			}
		}
	}
	return best, tries
}

// Replay is the file written for a violation.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"verif_seed"`
	Index    int      `json:"index"`
	Variant  int      `json:"variant"`
	Class    string   `json:"class"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Hash     string   `json:"trace_hash"`
	Plan     *Plan    `json:"plan"`
	Original *Plan    `json:"unminimised_plan,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

func saveJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0644)
	}
	if err != nil {
		harness("cannot write %s: %v", path, err)
	}
}

func quietGC() { debug.SetGCPercent(-1) }

// pickSession picks one of the sessions of a step.
func (s *Step) pickSession(r *Rand) *Session { return &s.Sess[r.N(len(s.Sess))] }
