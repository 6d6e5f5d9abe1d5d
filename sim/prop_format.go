package verifsim

import (
	"bytes"
	"encoding/json"
	"strings"
)

// C25: files keep their format.

// rewrite writes a vault again the way another version of the program, or
// another program, could have: the same history in the same format.
func rewrite(r *Rand, v *Vault, pass string) (out []byte, what string) {
	w := &Vault{Log: v.Log}
	switch r.N(4) {
	case 0:
		what = "no-snapshot"
	case 1:
		what = "current"
		w.Version, w.Snapshot = v.Version, v.Snapshot
	default:
		what = "old-snapshot"
		k := r.N(len(v.Log) + 1)
		m, err := refReplay(v.Log[:k])
		if err != nil {
			return nil, ""
		}
		w.Version, w.Snapshot = uint(k), m
	}
	plain := vaultJSON(w)
	var any map[string]json.RawMessage
	switch r.N(6) {
	case 0:
		what += "+indented"
		var b bytes.Buffer
		if json.Indent(&b, plain, "", r.pick([]string{" ", "\t", ""})) == nil {
			plain = append(b.Bytes(), '\n')
		}
	case 1:
		what += "+ascii"
		var b bytes.Buffer
		for _, c := range string(plain) {
			switch {
			case c > 0xffff:
				c -= 0x10000
				b.WriteString(`\u` + hex4(0xd800+c>>10) + `\u` + hex4(0xdc00+c&0x3ff))
			case c > 126:
				b.WriteString(`\u` + hex4(c))
			default:
				b.WriteRune(c)
			}
		}
		plain = b.Bytes()
	case 2:
		what += "+more-fields"
		if json.Unmarshal(plain, &any) == nil {
			any["app"] = json.RawMessage(`{"name":"other","log":[1,2]}`)
			any["zz"] = json.RawMessage(`null`)
			plain, _ = json.Marshal(any)
			plain = bytes.ReplaceAll(plain, []byte(`{"time":`), []byte(`{"note":["x"],"time":`))
		}
	case 3:
		what += "+explicit"
		// every field, also the empty ones, in another order
		var b strings.Builder
		b.WriteString(`{"log":[`)
		for i, t := range w.Log {
			if i > 0 {
				b.WriteString(",")
			}
			q := func(s string) string { x, _ := json.Marshal(s); return string(x) }
			b.WriteString(`{"value":` + q(t.Value) + `,"key":` + q(t.Key) + `,"uuid":` + q(t.UUID) + `,"kind":` + q(t.Kind) + `,"time":` + sprint(t.Time) + `}`)
		}
		snap := "null"
		if w.Snapshot != nil {
			x, _ := json.Marshal(w.Snapshot)
			snap = string(x)
		}
		b.WriteString(`],"snapshot":` + snap + `,"version":` + sprint(w.Version) + `}`)
		plain = []byte(b.String())
	}
	iv := randBytes(r, 40)
	if len(v.users) > 0 {
		us := v.users
		if r.P(1, 2) {
			us = append(append([]vaultUser(nil), us[1:]...), us[0])
			what += "+users-turned"
		}
		hdr := multiHeader(us, iv)
		return sealVault(hdr, v.master, iv, plain), what
	}
	salt := v.salt
	if r.P(1, 2) {
		salt = randBytes(r, 32)
		what += "+salt"
	}
	hdr := append([]byte("blobpass00010000"), salt...)
	hdr = append(hdr, iv...)
	return sealVault(hdr, refKDF(pass, salt), iv, plain), what
}

func hex4(c rune) string {
	const d = "0123456789abcdef"
	return string([]byte{d[c>>12&15], d[c>>8&15], d[c>>4&15], d[c&15]})
}

func init() {
	register(&Property{ID: "C25", Rule: "one run is a history of sessions of one or several users on a file that, between sessions, is written again in the documented format by an independent writer; non-trivial when that was done at least once to a file with contents",
		Scens: []*Scenario{{Name: "rewritten", Weight: 1,
			Gen: func(r *Rand, tier string) *Plan {
				pl, g := soloGen(r, tier, 4, 6, 40)
				if r.P(1, 2) {
					st := Step{Sess: []Session{{Pass: "$", User: "$", Ops: g.addUsers(1 + r.N(3))}}}
					pl.Steps = append(pl.Steps[:1:1], append([]Step{st}, pl.Steps[1:]...)...)
				}
				fileArgs(r, pl)
				readBack(pl)
				for i := 1; i < len(pl.Steps); i++ {
					if r.P(2, 3) {
						pl.Steps[i].Env = append(pl.Steps[i].Env, EnvOp{Op: "rewrite", N: int64(r.Next() >> 1)})
					}
				}
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, j := soloHooks(run, "shown contents torn stale rewritten crash denied opened dated")
				solo := h.before
				n := 0
				h.before = func(step int) {
					solo(step)
					for _, e := range run.plan.Steps[step].Env {
						if e.Op != "rewrite" || j.broken {
							continue
						}
						d := run.w.devs[0]
						for _, k := range sortedKeys(j.models) {
							_, path, _ := strings.Cut(k, ":")
							b, ok := d.fs.read(path)
							m := j.models[k]
							if !ok || !m.exists {
								continue
							}
							v, err := m.open(b)
							if err != nil || len(v.Log) == 0 {
								continue
							}
							out, what := rewrite(NewRand(uint64(e.N)), v, m.pass)
							if out == nil {
								continue
							}
							node := d.fs.get(path)
							node.data, node.durable, node.pending = out, out, nil
							for _, s := range strings.Split(what, "+") {
								run.w.stats.fault("written-" + s)
							}
							n++
						}
					}
				}
				end := h.end
				h.end = func() {
					if end != nil {
						end()
					}
					run.nontrivial = n > 0
				}
				return h
			}},
			{Name: "remotes", Weight: 1,
				Gen: func(r *Rand, tier string) *Plan {
					pl, _ := syncGen(r, tier, syncOpts{conc: true, users: r.P(1, 3)})
					rs := pl.remotes()
					for i := 1; i < len(pl.Steps); i++ {
						if r.P(1, 2) {
							rm := rs[r.N(len(rs))]
							pl.Steps[i].Env = append(pl.Steps[i].Env, EnvOp{Op: "rewrite", A: rm.srv, B: rm.path, N: int64(r.Next() >> 1)})
						}
					}
					return pl
				},
				Setup: func(run *Run) Hooks {
					h, o := syncHooks(run, "crash diverged lost overwritten stale")
					before, end := h.before, h.end
					n := 0
					h.before = func(step int) {
						for _, e := range run.plan.Steps[step].Env {
							if e.Op != "rewrite" {
								continue
							}
							node := run.remoteNode(remotePlan{srv: e.A, path: e.B})
							if node == nil {
								continue
							}
							v, err := o.pass(node.data)
							if err != nil || len(v.Log) == 0 {
								continue
							}
							r := NewRand(uint64(e.N))
							out, what := rewrite(r, v, run.plan.S["pass"])
							if out == nil {
								continue
							}
							node.data, node.durable, node.pending = out, out, nil
							for _, s := range strings.Split(what, "+") {
								run.w.stats.fault("written-" + s)
							}
							n++
						}
						before(step)
					}
					h.end = func() {
						end()
						run.nontrivial = n > 0
					}
					return h
				}}}})
}
