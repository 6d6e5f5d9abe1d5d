package verifsim

// C18: two-factor codes are those of RFC 6238 at the device's time.

func init() {
	register(&Property{ID: "C18", Rule: "one run is a history of sessions that store two-factor keys and read codes at various times; non-trivial when a code was shown or copied",
		Scens: []*Scenario{{Name: "codes", Weight: 1,
			Gen: func(r *Rand, tier string) *Plan {
				pl, g := soloGen(r, tier, 3, 6, 20)
				d := &pl.Devs[0]
				d.ClockOff = r.pick64(0, 0, -45*365*86400e9, 12*365*86400e9, int64(r.N(1e6))*1e9)
				d.ClockRes = r.pick64(1, 1e6, 1e9)
				for i := range pl.Steps {
					s := &pl.Steps[i].Sess[0]
					if i == 0 || r.P(1, 2) {
						s.Ops = append([]Op{g.add(), g.set()}, s.Ops...)
					}
					s.Jump = r.pick64(0, 0, 0, -int64(r.N(1e5))*1e9, int64(r.N(1e5))*1e9)
					// before the session ends
					end := len(s.Ops)
					if end > 0 && (s.Ops[end-1].Do == "exit" || s.Ops[end-1].Line == "^C") {
						end--
					}
					tail := append([]Op(nil), s.Ops[end:]...)
					s.Ops = append(s.Ops[:end:end], Op{Line: "cd", Do: "cd"})
					g.ctx = ""
					for k, n := 0, 2+r.N(8); k < n; k++ {
						o := g.otpOp()
						if r.P(1, 2) {
							o.Wait = int64(r.N(200)) * 1e9
						}
						if r.P(1, 2) {
							o.Slow = int64(r.N(100)) * 1e9
						}
						s.Ops = append(s.Ops, o)
					}
					s.Ops = append(s.Ops, tail...)
					for r.P(1, 3) {
						s.Faults = append(s.Faults, Fault{Kind: "pause", Op: "now", At: 1 + r.N(40), N: int(r.pick64(400, 5000, 31000, 60000))})
					}
				}
				readBack(pl)
				return pl
			},
			Setup: func(run *Run) Hooks {
				h, _ := soloHooks(run, "shown crash contents")
				end := h.end
				h.end = func() {
					if end != nil {
						end()
					}
					run.nontrivial = run.w.stats.Probes["totp"] > 0
				}
				return h
			}}}})
}

func (r *Rand) pick64(s ...int64) int64 { return s[r.N(len(s))] }

// otpOp sets or uses a two-factor key.
func (g *GState) otpOp() Op {
	n := g.some()
	l, a := g.qa(n)
	switch g.r.N(8) {
	case 0, 1:
		v := g.totpInput()
		l, a := g.qa(n, "totp")
		return Op{Line: "set " + l + " " + v, Do: "set", A: append(a, v)}
	case 2:
		return Op{Line: "show " + l, Do: "show", A: a}
	case 3:
		l, a := g.qa(n, "totp")
		return Op{Line: "get " + l, Do: "get", A: a}
	case 4:
		l, a := g.qa(n, "totp")
		return Op{Line: "cp " + l, Do: "cp", A: a}
	case 5:
		return Op{Line: "login " + l, Do: "login", A: a}
	case 6:
		if g.r.P(1, 3) {
			return Op{Line: "rmk " + l + " totp", Do: "rmk"}
		}
		fallthrough
	default:
		return Op{Line: "totp " + l, Do: "totp", A: a}
	}
}
