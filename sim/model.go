package verifsim

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// Model is a reference model of a vault as its user understands it: named
// entries with text values, and the credentials that open it. It knows nothing
// of logs, snapshots or encryption.
type Model struct {
	exists bool
	ents   map[string]REntry // by name, without name and updated
	multi  bool
	pass   string            // single-user passphrase
	users  map[string]string // multi-user: user -> passphrase
	// stray are entries that carry key material but are not called user/...
	stray    map[string]string
	ctx      string // entry entered with cd
	me       string
	readOnly bool
	// touched collects entries changed in this session
	touched map[string]bool
	touches int
	// upd has the stored time of the last change of entries
	upd map[string]string
}

func newModel() *Model { return &Model{ents: map[string]REntry{}, users: map[string]string{}} }

func (m *Model) clone() *Model {
	c := *m
	c.ents = map[string]REntry{}
	for n, e := range m.ents {
		x := REntry{}
		for k, v := range e {
			x[k] = v
		}
		c.ents[n] = x
	}
	c.users = map[string]string{}
	for u, p := range m.users {
		c.users[u] = p
	}
	c.stray = map[string]string{}
	for n, p := range m.stray {
		c.stray[n] = p
	}
	c.touched = map[string]bool{}
	for k := range m.touched {
		c.touched[k] = true
	}
	return &c
}

// refFuzzy: the characters of q occur in s in order; lower case letters match
// either case.
func refFuzzy(s, q string) bool {
	rs := []rune(s)
	i := 0
	for _, c := range q {
		for {
			if i >= len(rs) {
				return false
			}
			ok := rs[i] == c || unicode.ToLower(rs[i]) == c
			i++
			if ok {
				break
			}
		}
	}
	return true
}

func refMatch(name, q string) bool {
	if q == "" {
		return true
	}
	qf := strings.Split(q, "/")
	if len(qf) == 1 {
		return refFuzzy(name, q)
	}
	nf := strings.Split(name, "/")
	if len(nf) < len(qf) {
		return false
	}
	for i := range qf {
		if !refFuzzy(nf[i], qf[i]) {
			return false
		}
	}
	return true
}

func (m *Model) search(q string) []string {
	var out []string
	for _, n := range sortedKeys(m.ents) {
		if refMatch(n, q) {
			out = append(out, n)
		}
	}
	return out
}

func (m *Model) one(q string) string {
	hits := m.search(q)
	if len(hits) == 1 {
		return hits[0]
	}
	for _, h := range hits {
		if h == q {
			return h
		}
	}
	return ""
}

var modelProtected = []string{"totp", "name", "iv", "salt", "mkey", "updated"}

func protectedKey(k string) bool {
	for _, p := range modelProtected {
		if strings.EqualFold(k, p) {
			return true
		}
	}
	return false
}

// outcome of one operation
const (
	opOK      = iota
	opEnd     // the session ends here without saving
	opMaybe   // the program may treat it as a no-op or end the session unsaved
	opExit    // the session ends here normally
	opUnknown // not finished (crash)
)

// menuResult follows the password menu and returns the accepted password.
func menuResult(a *Agent, ex []Exchange) (pass string, end string) {
	return newMenu(a).walk(ex, nil)
}

// multiline follows a multi-line entry.
func multilineResult(ex []Exchange) (string, string) {
	var lines []string
	blank := false
	for _, e := range ex {
		if e.Prompt != "> " {
			continue
		}
		switch {
		case e.Reply == "^C" || e.Reply == "^E":
			return "", e.Reply
		case e.Reply == "^D" || e.Reply == ".":
			return strings.Join(lines, "\n"), "."
		case e.Reply == "":
			if blank {
				return strings.Join(lines, "\n"), "."
			}
			blank = true
		default:
			if blank {
				lines = append(lines, "")
				blank = false
			}
			lines = append(lines, e.Reply)
		}
	}
	return strings.Join(lines, "\n"), ""
}

func endKind(k string) int {
	if k == "^D" {
		return opMaybe
	}
	return opEnd
}

func reply(ex []Exchange, pr string) (string, bool) {
	for _, e := range ex {
		if e.Prompt == pr {
			return e.Reply, true
		}
	}
	return "", false
}

func (m *Model) touch(n string) {
	if m.touched == nil {
		m.touched = map[string]bool{}
	}
	m.touched[n] = true
	m.touches++
}

// target resolves the entry an operation works on and drops the query from
// the arguments.
func (m *Model) target(args []string) (string, []string) {
	if m.ctx != "" {
		return m.one(m.ctx), args
	}
	if len(args) == 0 {
		return "", nil
	}
	return m.one(args[0]), args[1:]
}

// parse splits a command line as documented. ok is false when arguments are
// missing.
func (m *Model) parse(op *Op) (A []string, ok bool) {
	line := strings.TrimSpace(op.Line)
	A = strings.Fields(line)
	if op.Do == "set" {
		A = strings.Split(line, " ")
	}
	if len(A) == 0 {
		return nil, true
	}
	A = A[1:]
	need := map[string]int{"add": 1, "addsync": 1, "mv": 2, "rm": 1, "adduser": 1, "labels": 1}[op.Do]
	if n := map[string]int{"set": 2, "edit": 2, "rmk": 2, "get": 2, "cp": 2, "rmlabel": 2, "label": 1, "show": 1, "dump": 1, "open": 1,
		"login": 1, "user": 1, "pass": 1, "email": 1, "totp": 1}[op.Do]; n > 0 {
		need = n
		if m.ctx != "" {
			need--
		}
	}
	if len(A) < need {
		return nil, false
	}
	if op.Do == "set" {
		if m.ctx == "" && (A[0] == "" || A[1] == "") || m.ctx != "" && A[0] == "" {
			return nil, false
		}
	}
	return A, true
}

// apply performs operation i of the agent's session on the model and returns
// how the session goes on. bad receives complaints about what was shown.
func (m *Model) apply(a *Agent, i int, bad func(string, ...any)) int {
	op := &a.s.Ops[i]
	ex := a.inOp(i)
	out := a.outOf(i)
	if f := strings.Fields(op.Line); op.Do == "noop" && m.ctx != "" && len(f) > 0 {
		// lacks nothing inside an entry
		if n, ok := map[string]int{"show": 1, "open": 1, "label": 1, "rmlabel": 2, "rmk": 2, "edit": 2}[f[0]]; ok && len(f) == n {
			o := *op
			o.Do = f[0]
			op = &o
		}
	}
	if m.readOnly && writeCommands[op.Do] {
		if strings.TrimSpace(out) == "" || len(ex) > 0 {
			bad("%q is not refused in read-only mode: %q", op.Line, out)
		}
		return opOK
	}
	A, ok := m.parse(op)
	if !ok {
		if !strings.Contains(out, "syntax: ") {
			bad("%q lacks arguments but is not refused: %q", op.Line, out)
		}
		return opOK
	}
	if !a.opDone(i) {
		// ended inside this operation
		for _, e := range ex {
			if e.Reply == "^C" || e.Reply == "^E" {
				return opEnd
			}
		}
	}
	for _, e := range ex {
		if e.Reply == "^C" || e.Reply == "^E" {
			if strings.HasPrefix(e.Prompt, "Save this host") {
				continue
			}
			return opEnd
		}
	}
	switch op.Do {
	case "", "noop", "help", "bad":
		return opOK
	case "exit":
		return opExit
	case "add":
		n := A[0]
		if m.ents[n] != nil {
			return opOK
		}
		e := REntry{}
		for _, x := range ex {
			if x.Reply == "^D" {
				return opOK // documented: aborts the command
			}
		}
		if v, _ := reply(ex, "email: "); v != "" {
			e["email"] = v
		}
		if v, _ := reply(ex, "user: "); v != "" {
			e["user"] = v
		}
		p, end := menuResult(a, ex)
		if end == "" {
			return opUnknown
		}
		if p != "" {
			e["pass"] = p
		}
		m.ents[n] = e
		m.touch(n)
	case "addsync": // a local path
		for _, x := range ex {
			if x.Reply == "^D" {
				return opOK
			}
		}
		if A[0] != "file" {
			return opUnknown
		}
		n := "sync/file"
		for m.ents[n] != nil {
			n += "1"
		}
		p := ""
		for _, x := range ex {
			if x.Prompt == "path: " && x.Reply != "" {
				p = x.Reply
			}
		}
		u := url.URL{Scheme: "file", Path: cleanPath(a.p.cwd, p)}
		m.ents[n] = REntry{"sync": "true", "url": u.String()}
		m.touch(n)
	case "mv":
		if m.ents[A[0]] == nil || m.ents[A[1]] != nil {
			return opOK
		}
		if !m.renameUser(A[0], A[1]) {
			return opOK
		}
		m.ents[A[1]] = m.ents[A[0]]
		delete(m.ents, A[0])
		m.touch(A[1])
		if m.ctx == A[0] {
			m.ctx = A[1]
		}
	case "rm":
		n := A[0]
		if m.ents[n] == nil {
			return opOK
		}
		if len(ex) == 0 || ex[0].Reply != n {
			return opOK
		}
		delete(m.ents, n)
		if u, p, ok := m.isUser(n); ok {
			delete(m.users, u)
			if len(m.users) == 0 {
				m.multi = false
				m.pass, m.me = p, ""
			}
		}
		delete(m.stray, n)
		if m.ctx == n {
			m.ctx = ""
		}
	case "set":
		n, rest := m.target(A)
		if n == "" {
			return opOK
		}
		k, v := rest[0], strings.Join(rest[1:], " ")
		switch {
		case k == "pass":
			if v == "" {
				p, end := menuResult(a, ex)
				if end == "^D" {
					return opMaybe
				}
				if end == "" {
					return opUnknown
				}
				v = p
			}
			m.ents[n]["pass"] = v
		case k == "totp":
			full := v
			if !strings.HasPrefix(v, "otpauth://") {
				full = "otpauth://totp/x?secret=" + url.QueryEscape(v)
				v = "secret=" + v
			}
			if _, ok := parseOTP(full); !ok {
				return opOK // nothing a code can be made of
			}
			m.ents[n]["totp"] = v
		case k == "url":
			u, err := url.Parse(v)
			if err != nil || u.Scheme == "" || u.Opaque != "" {
				return opOK
			}
			m.ents[n]["url"] = v
		default:
			if v == "" {
				t, end := multilineResult(ex)
				if end == "" {
					return opUnknown
				}
				v = t
			}
			if protectedKey(k) {
				return opOK
			}
			m.ents[n][k] = v
		}
		m.touch(n)
	case "edit":
		n, rest := m.target(A)
		if n == "" {
			return opOK
		}
		k := rest[0]
		e := op.Edit
		if e == nil || e.Code != 0 || e.Mode == "remove" {
			return opOK
		}
		if e.Mode != "none" && !utf8.ValidString(raw(e.Text)) {
			// the file cannot hold it
			if a.opDone(i) && onlyUsing(out) {
				bad("%q cannot store what the editor left but says nothing", op.Line)
			}
			return opOK
		}
		if !strings.Contains(out, "set ") && !strings.Contains(out, "erasing") {
			// the editor's result could not be used: nothing may change
			if a.p.hasEditor() && a.p.fired == 0 && !a.p.w.troubled && !strings.Contains(out, "may not be set") {
				bad("%q does not use what the editor left: %q", op.Line, out)
			}
			return opOK
		}
		v := raw(e.Text)
		if e.Mode == "none" {
			v = m.ents[n][k]
			if k == "name" || k == "updated" {
				v = "x"
			}
		}
		if v == "" {
			if _, _, isUser := m.isUser(n); k != "name" && k != "updated" && !(isUser && protectedKey(k) && k != "totp") {
				m.touch(n)
				delete(m.ents[n], k)
			}
			return opOK
		}
		if protectedKey(k) {
			return opOK
		}
		m.ents[n][k] = v
		m.touch(n)
	case "rmk":
		n, rest := m.target(A)
		if n == "" {
			return opOK
		}
		k := rest[0]
		if k == "name" || k == "updated" {
			return opOK
		}
		if _, _, isUser := m.isUser(n); k != "totp" && protectedKey(k) && isUser {
			return opOK
		}
		if strings.Contains(out, "may not") && a.opDone(i) {
			bad("%q is allowed but says %q", op.Line, out)
		}
		if _, ok := m.ents[n][k]; ok {
			delete(m.ents[n], k)
			m.touch(n)
		}
	case "label":
		n, _ := m.target(A)
		if n == "" {
			return opOK
		}
		var ls []string
		if l := m.ents[n]["labels"]; l != "" {
			ls = strings.Split(l, ",")
		}
		changed := false
		done := false
		for _, x := range ex {
			if x.Prompt != "> " {
				continue
			}
			if x.Reply == "" || x.Reply == "." || x.Reply == "^D" {
				done = true
				break
			}
			if !labelOK(ls, x.Reply) {
				continue
			}
			ls = append(ls, x.Reply)
			changed = true
		}
		if !done {
			return opUnknown
		}
		if changed {
			m.ents[n]["labels"] = strings.Join(ls, ",")
			m.touch(n)
		}
	case "rmlabel":
		n, rest := m.target(A)
		if n == "" {
			return opOK
		}
		l := m.ents[n]["labels"]
		if l == "" {
			return opOK
		}
		var keep []string
		hit := false
		for _, x := range strings.Split(l, ",") {
			if !hit && x == rest[0] {
				hit = true
				continue
			}
			keep = append(keep, x)
		}
		if hit {
			m.touch(n)
			if len(keep) == 0 {
				delete(m.ents[n], "labels")
			} else {
				m.ents[n]["labels"] = strings.Join(keep, ",")
			}
		}
	case "cd":
		if len(A) == 0 {
			m.ctx = ""
		} else if n := m.one(A[0]); n != "" {
			m.ctx = n
		}
	case "ls":
		q := ""
		if len(A) > 0 {
			q = A[0]
		}
		want := strings.Join(m.search(q), "\n")
		if want == "" {
			want = "No entries found"
		}
		if got := strings.TrimSuffix(out, "\n"); got != want {
			bad("listing for %q shows %q, expected %q", q, got, want)
		}
	case "labels":
		var hit []string
		for _, n := range sortedKeys(m.ents) {
			ok := true
			for _, w := range A {
				ok = ok && hasLabel(m.ents[n]["labels"], w)
			}
			if ok {
				hit = append(hit, n)
			}
		}
		want := strings.Join(hit, "\n")
		if want == "" {
			want = "No entries found"
		}
		if got := strings.TrimSuffix(out, "\n"); got != want {
			bad("entries labelled %q: shown %q, expected %q", A, got, want)
		}
	case "get", "cp":
		n, rest := m.target(A)
		if n == "" {
			return opOK
		}
		k := rest[0]
		if len(rest) > 1 {
			if _, err := strconv.Atoi(rest[1]); err != nil {
				if !strings.Contains(out, "integer") {
					bad("%q shows %q", op.Line, out)
				}
				return opOK
			}
		}
		v, has := m.ents[n][k]
		switch k {
		case "totp":
			codes, has := m.codes(a, i, n)
			switch {
			case !has && !strings.Contains(out, "not set"):
				bad("%q: there is no two-factor key but it shows %q", op.Line, out)
			case has && op.Do == "get" && !endsIn(out, codes):
				bad("%q shows %q, expected one of %q", op.Line, out, codes)
			case op.Do == "cp" && !a.noClip(i):
				m.codeClip(a, i, has, codes, bad)
			}
			return opOK
		case "updated":
			if u, ok := m.upd[n]; ok && !m.touched[n] && op.Do == "get" {
				if ns, err := strconv.ParseInt(u, 10, 64); err == nil && !endsIn(out, []string{time.Unix(0, ns).UTC().Format(time.RFC3339)}) {
					bad("%q shows %q, expected the time of the last change %s", op.Line, out, time.Unix(0, ns).UTC().Format(time.RFC3339))
				}
			}
			return opOK
		case "name":
			v, has = n, true
		}
		if !has {
			if !strings.Contains(out, "not set") {
				bad("%s of %q is not set but reading it shows %q", k, n, out)
			}
			return opOK
		}
		if op.Do == "get" {
			if !strings.HasSuffix(out, v+"\n") || len(out) > len(v)+len(n)+40 {
				bad("get %s %s shows %q, expected %q", n, k, out, v)
			}
		} else if !a.noClip(i) {
			if got := a.clipIn(i); len(got) != 1 || got[0] != v {
				bad("cp %s %s put %q on the clipboard, expected %q", n, k, got, v)
			}
		}
	case "user", "pass", "email", "totp":
		n, _ := m.target(A)
		if n == "" || a.noClip(i) {
			return opOK
		}
		if op.Do == "totp" {
			codes, has := m.codes(a, i, n)
			m.codeClip(a, i, has, codes, bad)
			return opOK
		}
		v, ok := m.ents[n][op.Do]
		got := a.clipIn(i)
		if ok && (len(got) != 1 || got[0] != v) || !ok && len(got) != 0 {
			bad("%s %s put %q on the clipboard, expected %q", op.Do, n, got, v)
		}
	case "login":
		n := m.ctx
		if len(A) > 0 {
			n = A[0]
		}
		n = m.one(n)
		if n == "" || a.noClip(i) {
			return opOK
		}
		var want []string
		for _, k := range []string{"user", "email", "pass"} {
			if v, ok := m.ents[n][k]; ok {
				want = append(want, v)
			}
		}
		_, otp := m.ents[n]["totp"]
		got := a.clipIn(i)
		for _, x := range ex {
			if x.Reply == "^D" {
				return opMaybe
			}
		}
		if otp && len(got) == len(want)+1 {
			if codes := m.clipCodes(a, i, n, len(want)); !oneOf(got[len(want)], codes) {
				bad("login %s put the code %q on the clipboard, expected one of %q", n, got[len(want)], codes)
			}
			got = got[:len(want)]
		} else if otp {
			bad("login %s put %q on the clipboard, without a two-factor code", n, got)
			return opOK
		}
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			bad("login %s put %q on the clipboard, expected %q", n, got, want)
		}
	case "show":
		n, rest := m.target(A)
		if n == "" || len(rest) > 0 {
			return opOK
		}
		m.checkShow(n, out, bad)
		if codes, has := m.codes(a, i, n); has {
			f := ""
			for _, l := range strings.Split(out, "\n") {
				if r, ok := strings.CutPrefix(strings.TrimSpace(l), "totp:"); ok {
					f = strings.TrimSpace(r)
				}
			}
			if !oneOf(f, codes) {
				bad("show %s shows the code %q, expected one of %q", n, f, codes)
			}
		} else if strings.Contains(out, "\n  totp:") {
			bad("show %s shows a code but there is no two-factor key: %q", n, out)
		}
	case "dump":
		n, _ := m.target(A)
		if n == "" {
			return opOK
		}
		for _, k := range sortedKeys(m.ents[n]) {
			if k == "totp" || k == "iv" || k == "salt" || k == "mkey" {
				continue
			}
			if !strings.Contains(out, fmt.Sprintf("%s: %#v\n", k, m.ents[n][k])) {
				bad("dump %s does not show %s=%q but %q", n, k, m.ents[n][k], out)
			}
		}
	case "open":
		n, _ := m.target(A)
		if n == "" {
			return opOK
		}
		v := m.ents[n]["url"]
		if _, err := url.Parse(v); err != nil {
			v = "" // cannot be opened
		}
		o := a.openedIn(i)
		if a.p.dev.programs["xdg-open"] != nil && (v == "" && len(o) > 0 || v != "" && (len(o) != 1 || o[0] != v)) {
			bad("open %s started the browser with %q, expected %q", n, o, v)
		} else if v != "" && len(o) == 1 && a.opDone(i) && a.p.fired == 0 && !onlyUsing(out) {
			bad("open %s started the browser but says %q", n, out)
		}
	case "adduser":
		u := A[0]
		n := "user/" + u
		if m.ents[n] != nil {
			return opOK
		}
		if !m.multi {
			m.multi = true
			m.users = map[string]string{u: m.pass}
			m.me = u
		} else {
			p, end := menuResult(a, ex)
			if end == "^D" {
				return opMaybe
			}
			if end == "" {
				return opUnknown
			}
			if p == "" {
				return opOK
			}
			m.users[u] = p
		}
		m.ents[n] = REntry{}
		m.touch(n)
	case "passwd":
		if m.multi && len(A) > 0 && len(ex) == 0 {
			if _, ok := m.users[A[0]]; !ok {
				return opOK
			}
		}
		p, end := menuResult(a, ex)
		if end == "^D" {
			return opMaybe
		}
		if end == "" {
			return opUnknown
		}
		if p == "" {
			return opOK
		}
		m.setPass(A, p)
	case "rekey":
		if len(A) == 0 || !m.multi || A[0] == m.me {
			return opOK
		}
		if _, ok := m.users[A[0]]; !ok && len(ex) == 0 {
			return opOK
		}
		p, end := menuResult(a, ex)
		if end == "^D" {
			return opMaybe
		}
		if end == "" {
			return opUnknown
		}
		if p == "" {
			return opOK
		}
		m.setPass(A, p)
	case "rekeyall":
		if !m.multi {
			return opOK
		}
		ok := false
		for _, x := range ex {
			if x.Reply == "^D" {
				return opMaybe
			}
			if strings.HasPrefix(x.Prompt, "are you sure") {
				switch x.Reply {
				case "y", "Y", "yes", "YES":
					ok = true
				}
			}
		}
		if !ok {
			return opOK
		}
		for _, u := range sortedKeys(m.users) {
			p := rekeyShown(out, u)
			if p == "" {
				bad("rekeyall does not show a new password for %q: %q", u, out)
			}
			m.users[u] = p
			m.touch("user/" + u)
		}
	default:
		harness("model: unknown operation %q", op.Do)
	}
	return opOK
}

func rekeyShown(out, user string) string {
	for _, l := range strings.Split(out, "\n") {
		if r, ok := strings.CutPrefix(strings.TrimLeft(l, " "), user+": "); ok {
			return r
		}
	}
	return ""
}

// isUser tells whether an entry is a user of a multi-user file.
func (m *Model) isUser(n string) (user, pass string, ok bool) {
	u, ok := strings.CutPrefix(n, "user/")
	if !ok || !m.multi {
		return "", "", false
	}
	pass, ok = m.users[u]
	return u, pass, ok
}

// renameUser follows a user through a rename. It reports whether the rename
// goes ahead.
func (m *Model) renameUser(from, to string) bool {
	if p, ok := m.stray[from]; ok {
		delete(m.stray, from)
		if u, ok := strings.CutPrefix(to, "user/"); ok && u != "" {
			m.users[u] = p
		} else {
			m.stray[to] = p
		}
		return true
	}
	u, p, ok := m.isUser(from)
	if !ok {
		return true
	}
	v, still := strings.CutPrefix(to, "user/")
	still = still && v != ""
	if !still && u == m.me && len(m.users) > 1 {
		return false
	}
	delete(m.users, u)
	switch {
	case still:
		m.users[v] = p
		if u == m.me {
			m.me = v
		}
	default:
		m.stray[to] = p
		if len(m.users) == 0 {
			m.multi, m.pass, m.me = false, p, ""
		}
	}
	return true
}

func (m *Model) setPass(A []string, p string) {
	switch {
	case !m.multi:
		m.pass = p
	case len(A) == 0:
		m.users[m.me] = p
		m.touch("user/" + m.me)
	default:
		if _, ok := m.users[A[0]]; ok {
			m.users[A[0]] = p
			m.touch("user/" + A[0])
		}
	}
}

func labelOK(have []string, l string) bool {
	for _, c := range l {
		if unicode.IsSpace(c) || unicode.IsUpper(c) {
			return false
		}
	}
	for _, h := range have {
		if h == l {
			return false
		}
	}
	return true
}

func hasLabel(val, l string) bool {
	if val == "" {
		return false
	}
	for _, x := range strings.Split(val, ",") {
		if x == l {
			return true
		}
	}
	return false
}

func (m *Model) checkShow(n, out string, bad func(string, ...any)) {
	e := m.ents[n]
	for _, k := range sortedKeys(e) {
		v := e[k]
		switch k {
		case "totp", "iv", "salt", "mkey", "updated":
			continue
		case "labels":
			v = strings.ReplaceAll(v, ",", ", ")
		}
		if !strings.Contains(out, k+":") {
			bad("show %s does not list %q", n, k)
			continue
		}
		if v == "" {
			continue
		}
		for _, l := range strings.Split(strings.TrimSpace(v), "\n") {
			if !strings.Contains(out, l) {
				bad("show %s does not show the value of %s: %q not in %q", n, k, l, out)
				break
			}
		}
	}
	for _, k := range []string{"user", "email", "pass", "labels", "url"} {
		if _, ok := e[k]; ok {
			continue
		}
		if n := strings.Count("\n"+out, "\n  "+k+":"); n != 0 {
			bad("show %s lists %q, which the entry does not have: %q", n, k, out)
		}
	}
	if !strings.Contains(out, n) {
		bad("show does not show the name %q", n)
	}
}

// clipIn returns what operation i put on the clipboard.
func (a *Agent) clipIn(i int) []string {
	if i >= len(a.opClip) {
		return nil
	}
	all := a.p.dev.clipSets
	end := len(all)
	if i+1 < len(a.opClip) {
		end = a.opClip[i+1]
	} else if a.endClip >= 0 {
		end = a.endClip
	}
	return all[a.opClip[i]:end]
}

// compare checks decoded contents against the model.
func (m *Model) compare(st map[string]REntry) error {
	got, err := byName(st)
	if err != nil {
		return err
	}
	for _, n := range sortedKeys(m.ents) {
		g := got[n]
		if g == nil {
			return fmt.Errorf("entry %q is missing", n)
		}
		w := m.ents[n]
		_, isUser := m.stray[n]
		if !isUser {
			_, _, isUser = m.isUser(n)
		}
		for _, k := range sortedKeys(w) {
			gv, ok := g[k]
			if !ok {
				return fmt.Errorf("entry %q lost key %q (%q)", n, k, w[k])
			}
			if k == "totp" && strings.HasPrefix(w[k], "secret=") {
				u, err := url.Parse(gv)
				if err != nil || u.Scheme != "otpauth" || u.Host != "totp" || u.Query().Get("secret") != w[k][7:] {
					return fmt.Errorf("entry %q holds two-factor value %q, expected one with %q", n, gv, w[k])
				}
				continue
			}
			if gv != w[k] {
				return fmt.Errorf("entry %q key %q is %q, expected %q", n, k, gv, w[k])
			}
		}
		for _, k := range sortedKeys(g) {
			if _, ok := w[k]; ok || k == "name" || k == "updated" || isUser && protectedKey(k) || k == "knownhosts" {
				continue
			}
			return fmt.Errorf("entry %q has unexpected key %q=%q", n, k, g[k])
		}
	}
	for _, n := range sortedKeys(got) {
		if m.ents[n] == nil {
			return fmt.Errorf("unexpected entry %q", n)
		}
	}
	return nil
}

// playSession runs the reference model over a session. The returned flag says
// whether the session must have saved (1), must not have (0), or either (-1);
// states holds the model before and after.
func (m *Model) play(p *Proc, bad func(string, ...any)) (after *Model, saved int) {
	a := p.agent
	after = m.clone()
	after.ctx = ""
	after.touched = nil
	saved = 1
	for i := range a.opOut {
		if i >= len(a.s.Ops) {
			break
		}
		if a.s.Ops[i].Line == "^C" || a.s.Ops[i].Line == "^E" {
			return m.clone(), 0
		}
		if a.s.Ops[i].Line == "^D" {
			return after, saved
		}
		ctx := promptEntry(a.prompts[i])
		if i > 0 && a.s.Ops[i-1].Do != "sync" && ctx != after.ctx {
			bad("after %q the prompt shows entry %q, expected %q", a.s.Ops[i-1].Line, ctx, after.ctx)
		}
		after.ctx = ctx
		if f := p.w.hooks.states; f != nil {
			f(p, i, after)
		}
		before := after.clone()
		res := after.apply(a, i, bad)
		if op := &a.s.Ops[i]; res == opOK && a.opDone(i) && speaks[op.Do] && after.touches == before.touches && len(a.inOp(i)) == 0 && strings.TrimSpace(a.outOf(i)) == "" {
			bad("%q changes nothing and does not say why", op.Line)
		}
		switch res {
		case opEnd:
			return m.clone(), 0
		case opMaybe:
			if !a.opDone(i) {
				return m.clone(), 0
			}
			after = before
		case opExit:
			return after, saved
		case opUnknown:
			return after, -1
		}
	}
	return after, saved
}

// hasEditor tells whether there is an editor that can be run.
func (p *Proc) hasEditor() bool {
	if e := p.env["EDITOR"]; e != "" {
		return p.dev.programs[e] != nil
	}
	for _, e := range []string{"vim", "code", "atom", "sublime", "emacs", "nano"} {
		if p.dev.programs[e] != nil {
			return true
		}
	}
	return false
}

// onlyUsing tells whether a command said nothing but which entry it is about.
func onlyUsing(out string) bool {
	for _, l := range strings.Split(out, "\n") {
		if l != "" && !strings.HasPrefix(l, "using: ") {
			return false
		}
	}
	return true
}

// speaks has the commands that never do nothing without a word.
var speaks = map[string]bool{"add": true, "addsync": true, "mv": true, "rm": true, "set": true, "edit": true, "rmk": true, "rmlabel": true, "label": true,
	"user": true, "pass": true, "email": true, "totp": true, "cp": true, "show": true}

// codes are the two-factor codes of an entry while operation i ran.
func (m *Model) codes(a *Agent, i int, n string) ([]string, bool) {
	return m.codesIn(a, n, a.opTime[i], a.opUntil(i))
}

// clipCodes are the codes that may be the k-th thing that operation i copied:
// those of the time since the answer it was copied at.
func (m *Model) clipCodes(a *Agent, i int, n string, k int) []string {
	k += a.opClip[i]
	from := a.opTime[i]
	for _, ex := range a.hist {
		if ex.Op == i && ex.Clip <= k && ex.At > from {
			from = ex.At
		}
	}
	codes, _ := m.codesIn(a, n, from, a.p.dev.clipTime[k])
	return codes
}

func (m *Model) codesIn(a *Agent, n string, from, to int64) ([]string, bool) {
	v, ok := m.ents[n]["totp"]
	if !ok {
		return nil, false
	}
	if s, plain := strings.CutPrefix(v, "secret="); plain {
		v = "otpauth://totp/x?secret=" + url.QueryEscape(s)
	}
	k, ok := parseOTP(v)
	if !ok {
		harness("model: unusable two-factor key %q", v)
	}
	a.p.w.probe("totp")
	return k.between(from, to), true
}

func (m *Model) codeClip(a *Agent, i int, has bool, codes []string, bad func(string, ...any)) {
	got := a.clipIn(i)
	if !has && len(got) != 0 || has && (len(got) != 1 || !oneOf(got[0], codes)) {
		bad("%q put %q on the clipboard, expected one of %q", a.s.Ops[i].Line, got, codes)
	}
}

func oneOf(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// endsIn: the last line of out is one of l.
func endsIn(out string, l []string) bool {
	o := strings.TrimSuffix(out, "\n")
	return oneOf(o[strings.LastIndexByte(o, '\n')+1:], l)
}
