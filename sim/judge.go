package verifsim

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

const vaultPath = "/home/u/.bpass"

// judge follows the vaults of a run with reference models.
type judge struct {
	run    *Run
	models map[string]*Model
	logs   map[string][]RTx
	report string // violation classes this property reports, space separated
	broken bool
	// strictIdle: a session that exits with status 0 after a storage fault has saved
	strictIdle bool
	bytes      map[string][]byte
	// file tells which vault a session worked on
	// sub tells what a subcommand makes of the vault
	sub   func(p *Proc, start *Model) (*Model, int)
	extra func(p *Proc, before, after *Model, saved int, v *Vault)
}

func newJudge(run *Run, report string) *judge {
	j := &judge{run: run, models: map[string]*Model{}, bytes: map[string][]byte{}, logs: map[string][]RTx{}, report: " " + report + " "}
	run.w.hooks.answer = j.answer
	return j
}

func (j *judge) fail(class, format string, a ...any) {
	if strings.Contains(j.report, " "+class+" ") {
		j.run.fail(class, format, a...)
	}
}

func (p *Proc) arg(names ...string) string {
	for i, a := range p.args {
		for _, n := range names {
			if a == n && i+1 < len(p.args) {
				return p.args[i+1]
			}
			if strings.HasPrefix(a, n+"=") {
				return a[len(n)+1:]
			}
		}
	}
	return ""
}

// vaultFile is the file a session works on, by the documented rules.
func (p *Proc) vaultFile() string {
	f := p.arg("-f", "--file")
	if f == "" {
		f = p.env["BPASS"]
	}
	if f == "" {
		return vaultPath
	}
	return cleanPath(p.cwd, f)
}

func (j *judge) key(p *Proc) string { return p.dev.name + ":" + p.vaultFile() }

func (j *judge) model(p *Proc) *Model {
	k := j.key(p)
	if j.models[k] == nil {
		j.models[k] = newModel()
	}
	return j.models[k]
}

// answer fills in the credentials of sessions that use whatever is current.
func (j *judge) answer(p *Proc, pr string) (string, bool) {
	m := j.model(p)
	switch {
	case strings.HasSuffix(pr, " user: ") && p.sess.User == "$":
		us := sortedKeys(m.users)
		if len(us) == 0 {
			return "", false
		}
		return us[p.stepIdx%len(us)], true
	case strings.HasSuffix(pr, "passphrase: ") && p.sess.Pass == "$":
		if m.multi {
			u := ""
			for _, e := range p.agent.hist {
				if strings.HasSuffix(e.Prompt, " user: ") {
					u = e.Reply
				}
			}
			return m.users[u], true
		}
		return m.pass, true
	}
	return "", false
}

// effective is what the program will show: the stored snapshot brought up to
// date with the rest of the log.
func (v *Vault) effective() (map[string]REntry, error) {
	m := map[string]REntry{}
	for u, e := range v.Snapshot {
		x := REntry{}
		for k, s := range e {
			x[k] = s
		}
		m[u] = x
	}
	for i := int(v.Version); i < len(v.Log); i++ {
		t := v.Log[i]
		switch t.Kind {
		case "add":
			m[t.UUID] = REntry{}
		case "del":
			delete(m, t.UUID)
		case "setk":
			if m[t.UUID] != nil {
				m[t.UUID][t.Key] = t.Value
			}
		case "delk":
			delete(m[t.UUID], t.Key)
		}
	}
	return m, nil
}

// open decodes a stored file with the model's credentials.
func (m *Model) open(b []byte) (*Vault, error) {
	if !m.multi {
		return openVault(b, "", m.pass)
	}
	var err error
	for _, u := range sortedKeys(m.users) {
		var v *Vault
		if v, err = openVault(b, u, m.users[u]); err == nil {
			return v, nil
		}
	}
	if err == nil {
		err = errVaultPass
	}
	return nil, err
}

// crashedBadly reports endings no input may cause.
func (p *Proc) crashedBadly() string {
	if p.panicV != nil {
		return "panic: " + firstLines(sprint(p.panicV), 3)
	}
	if p.runaway != "" {
		return p.runaway
	}
	return ""
}

// created is the passphrase chosen for a new file, if that was completed.
func (a *Agent) created() (string, bool) {
	pass, n := "", 0
	for _, e := range a.hist {
		if e.Op >= 0 {
			break
		}
		if e.Prompt == "passphrase: " {
			pass, n = e.Reply, 1
		} else if e.Prompt == "verify passphrase: " && n == 1 && e.Reply == pass {
			n = 2
		}
	}
	return pass, n == 2 && (a.reachedMain() || a.p.subcommand() && pass != "")
}

// session judges one finished interactive session and follows it. It returns
// the decoded file.
func (j *judge) session(p *Proc) *Vault {
	if j.broken {
		return nil
	}
	a := p.agent
	m := j.model(p)
	if why := p.crashedBadly(); why != "" {
		j.fail("crash", "session %v died: %s (last command %q)", p.args[1:], why, a.lastLine())
	}
	j.access(p, m)
	before := m.clone()
	start := m.clone()
	if !m.exists {
		if pass, ok := a.created(); ok {
			start.exists = true
			start.pass = pass
		}
	}
	for _, e := range a.hist {
		if e.Op < 0 && strings.HasSuffix(e.Prompt, " user: ") {
			start.me = e.Reply
		}
	}
	after, saved := start.clone(), 0
	if a.reachedMain() {
		after, saved = start.play(p, func(format string, x ...any) { j.fail("shown", format, x...) })
		if saved == 0 {
			after = start
		}
	}
	if j.sub != nil && p.subcommand() {
		after, saved = j.sub(p, start)
	}
	should := saved
	if p.crashed != "" || p.fired > 0 || p.crashedBadly() != "" {
		saved = -1
	}
	j.status(p, saved)
	b, ok := p.dev.fs.read(p.vaultFile())
	var cands []*Model
	switch saved {
	case 1:
		cands = []*Model{after}
	case 0:
		cands = []*Model{before}
	default:
		cands = []*Model{after, before}
	}
	var msg string
	for i, c := range cands {
		if !c.exists {
			if !ok {
				if saved == -1 && i > 0 && should == 1 && p.crashed == "" && p.code == 0 && p.crashedBadly() == "" {
					j.fail("status", "exit status 0 although no file was saved: %s", p.story())
				}
				j.models[j.key(p)] = c
				return nil
			}
			msg = "a file exists although none was saved"
			continue
		}
		if !ok {
			msg = "the file is missing"
			continue
		}
		if saved == -1 && i > 0 && should == 1 && p.crashed == "" && p.code == 0 && p.crashedBadly() == "" {
			j.fail("status", "exit status 0 although the changes were not saved: %s", p.story())
		}
		v, err := c.open(b)
		if err != nil {
			msg = "the file cannot be opened: " + err.Error()
			continue
		}
		eff, _ := v.effective()
		if err := c.compare(eff); err != nil {
			msg = err.Error()
			continue
		}
		if err := checkVault(v); err != nil {
			j.fail("stale", "after %s: %v", p.story(), err)
		}
		if old := j.logs[j.key(p)]; !isPrefix(old, v.Log) {
			j.fail("rewritten", "after %s: history was rewritten: %d transactions before, %d after, the old ones are no longer a prefix", p.story(), len(old), len(v.Log))
		}
		if saved == 0 && !bytes.Equal(b, j.bytes[j.key(p)]) {
			j.fail("changed", "after %s: the file was written although the session must not save", p.story())
		}
		if saved == 1 {
			if n := c.untouched(j.logs[j.key(p)], v, eff); n != "" {
				j.fail("changed", "after %s: the history of entry %q grew although no command changed it", p.story(), n)
			}
			if n, why := undated(j.logs[j.key(p)], v, eff); n != "" {
				j.fail("dated", "after %s: entry %q was changed but %s", p.story(), n, why)
			}
		}
		j.logs[j.key(p)] = v.Log
		j.bytes[j.key(p)] = b
		c.me = ""
		c.upd = map[string]string{}
		for _, e := range eff {
			if e["updated"] != "" {
				c.upd[e["name"]] = e["updated"]
			}
		}
		j.models[j.key(p)] = c
		if j.extra != nil {
			j.extra(p, before, c, saved, v)
		}
		return v
	}
	j.broken = true
	class := "contents"
	if saved == -1 {
		class = "torn"
	}
	j.fail(class, "after %s (code %d): %s", p.story(), p.code, msg)
	return nil
}

// status checks the exit status of a session that met no fault.
func (j *judge) status(p *Proc, saved int) {
	switch {
	case p.crashed != "" || saved == -1:
	case saved == 1 && p.code != 0:
		j.fail("status", "exit status %d although everything was saved: %s", p.code, p.story())
	case saved == 0 && p.code == 0:
		j.fail("status", "exit status 0 although nothing was saved: %s", p.story())
	}
}

// story is a short account of a session for messages.
func (p *Proc) story() string {
	var b strings.Builder
	b.WriteString("session")
	for _, x := range p.args[1:] {
		b.WriteString(" " + x)
	}
	b.WriteString(" [")
	for i, o := range p.sess.Ops {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(o.Line)
	}
	b.WriteString("]")
	if p.crashed != "" {
		b.WriteString(" ended by " + p.crashed)
	}
	s := b.String()
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

func (a *Agent) lastLine() string {
	for i := len(a.hist) - 1; i >= 0; i-- {
		if a.hist[i].Main {
			return a.hist[i].Reply
		}
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// opener is the user name and passphrase a session offered for its file.
func (a *Agent) opener() (user, pass string, complete bool) {
	gotU := false
	for _, e := range a.hist {
		if e.Op >= 0 {
			break
		}
		switch {
		case !gotU && !e.Hidden && strings.HasSuffix(e.Prompt, " user: "):
			user, gotU = e.Reply, true
		case e.Hidden && strings.HasSuffix(e.Prompt, "passphrase: "):
			if gaveUp(e.Reply) || gaveUp(user) {
				return user, e.Reply, false
			}
			return user, e.Reply, true
		}
		if gaveUp(e.Reply) {
			return user, "", false
		}
	}
	return user, pass, false
}

// valid tells whether credentials open the vault.
func (m *Model) valid(user, pass string) bool {
	if m.multi {
		w, known := m.users[user]
		return known && w == pass
	}
	return pass == m.pass
}

// access checks that exactly valid credentials open an existing file.
func (j *judge) access(p *Proc, m *Model) {
	if p.crashed != "" || p.fired > 0 || p.crashedBadly() != "" {
		return
	}
	if !m.exists {
		// a new file can be made with any passphrase that was given twice
		var one, two string
		for _, e := range p.agent.hist {
			if e.Op >= 0 {
				break
			}
			if gaveUp(e.Reply) {
				return
			}
			switch e.Prompt {
			case "passphrase: ":
				one, two = e.Reply, e.Reply
			case "verify passphrase: ":
				two = e.Reply
			}
		}
		if one != "" && one == two && !p.agent.reachedMain() && !p.subcommand() {
			j.fail("denied", "no file can be made with passphrase %q: %s", one, p.out.String())
		}
		return
	}
	user, pass, ok := p.agent.opener()
	if !ok {
		return
	}
	valid := m.valid(user, pass)
	for _, e := range p.agent.hist {
		if e.Op < 0 && gaveUp(e.Reply) {
			return
		}
	}
	switch {
	case valid && !p.agent.reachedMain() && !p.subcommand():
		j.fail("denied", "user %q with passphrase %q is refused: %s", user, pass, p.out.String())
	case !valid && p.agent.reachedMain():
		j.fail("opened", "user %q with passphrase %q is let in", user, pass)
	}
}

func (p *Proc) subcommand() bool {
	for _, a := range p.args[1:] {
		switch a {
		case "export", "gen", "lpassimport", "version":
			return true
		}
	}
	return false
}

// untouched finds an entry with new transactions that no command of the last
// session changed.
func (m *Model) untouched(old []RTx, v *Vault, eff map[string]REntry) string {
	for _, t := range v.Log[imin(len(old), len(v.Log)):] {
		e := eff[t.UUID]
		if e == nil || m.touched[e["name"]] {
			continue
		}
		if n := e["name"]; e["salt"] == "" {
			return n
		}
	}
	return ""
}

// undated finds an entry changed in the last session whose time of last change
// does not say so.
func undated(old []RTx, v *Vault, eff map[string]REntry) (name, why string) {
	first, last := map[string]int64{}, map[string]int64{}
	for _, t := range v.Log[imin(len(old), len(v.Log)):] {
		if e := eff[t.UUID]; e == nil || e["salt"] != "" {
			continue
		}
		if x, ok := first[t.UUID]; !ok || t.Time < x {
			first[t.UUID] = t.Time
		}
		if x, ok := last[t.UUID]; !ok || t.Time > x {
			last[t.UUID] = t.Time
		}
	}
	for u := range first {
		ns, err := strconv.ParseInt(eff[u]["updated"], 10, 64)
		if err != nil || ns < first[u]-1e9 || ns > last[u]+1e9 {
			if name == "" || eff[u]["name"] < name {
				name, why = eff[u]["name"], fmt.Sprint("its time of last change is ", eff[u]["updated"], " instead of ", first[u], " to ", last[u])
			}
		}
	}
	return
}
