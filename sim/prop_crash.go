package verifsim

// C01: saving is atomic and durable.

func init() {
	sc := func(name string, gen func(r *Rand, tier string) *Plan, weight int) *Scenario {
		return &Scenario{Name: name, Weight: weight, Variants: 12, Gen: gen,
			Setup: func(run *Run) Hooks {
				h, j := soloHooks(run, "torn contents denied")
				j.strictIdle = true
				return h
			},
			Mutate: crashMutate}
	}
	register(&Property{ID: "C01", Rule: "one run is a history of sessions in which one is killed, loses power or meets failing storage at a seeded point, followed by a session that reads everything back; non-trivial when something had been saved",
		Scens: []*Scenario{sc("crash", func(r *Rand, tier string) *Plan {
			pl, _ := soloGen(r, tier, 3, 7, 10)
			fileArgs(r, pl)
			pl.K["victim"] = int64(r.N(len(pl.Steps)))
			readBack(pl)
			return pl
		}, 1)}})
}

var storageFaults = []string{"eio", "enospc", "erofs", "eacces", "short", "eintr"}
var storageOps = map[string][]string{
	"eio":    {"write", "fsync", "close", "rename", "open", "unlink", "truncate", ""},
	"enospc": {"write", "create", "fsync", "rename", ""},
	"erofs":  {"create", "openw", "write", "rename", "unlink", ""},
	"eacces": {"create", "openw", "rename", "open", ""},
	"short":  {"write", ""},
	"eintr":  {"write", "open", "fsync", "close", ""},
}

// crashMutate puts faults into the victim session of a fault-free run.
func crashMutate(r *Rand, pl *Plan, base *Run, v int) *Plan {
	vi := int(pl.K["victim"])
	if vi >= len(base.procs) || len(base.procs[vi]) == 0 {
		return nil
	}
	p := base.procs[vi][0]
	s := &pl.Steps[vi].Sess[0]
	last := p.events
	switch k := r.N(10); {
	case k < 7:
		at := 1 + r.N(last)
		if r.P(3, 4) {
			w := 18
			if w > last {
				w = last
			}
			at = last - r.N(w)
		}
		kind := "kill"
		if r.P(1, 2) {
			kind = "power"
		}
		s.Faults = append(s.Faults, Fault{At: at, Kind: kind})
		if r.P(1, 5) {
			f := storageFault(r, last)
			if f.Kind == "eacces" {
				// without permission to create files a save can only be
				// done in place
				f.Kind = "enospc"
			}
			s.Faults = append(s.Faults, f)
		}
	case k < 9:
		s.Faults = append(s.Faults, storageFault(r, last))
		if r.P(1, 3) && s.Faults[len(s.Faults)-1].Kind != "eacces" {
			f := storageFault(r, last)
			if f.Kind == "eacces" {
				f.Kind = "eio"
			}
			s.Faults = append(s.Faults, f)
		}
	default:
		pl.Steps[vi+1].Env = append(pl.Steps[vi+1].Env, EnvOp{Op: "powerloss"})
	}
	// power can also fail long before, with everything else settled
	if vi > 0 && r.P(1, 2) {
		pl.Steps[vi].Env = append(pl.Steps[vi].Env, EnvOp{Op: "settle"})
	}
	return pl
}

func storageFault(r *Rand, last int) Fault {
	kind := storageFaults[r.N(len(storageFaults))]
	ops := storageOps[kind]
	op := ops[r.N(len(ops))]
	f := Fault{Kind: kind, Op: op, At: 1 + r.N(3), N: r.N(1000), Stay: r.P(1, 3) && kind != "eintr"}
	if op == "" {
		w := 16
		if w > last {
			w = last
		}
		f.At = last - r.N(w)
	}
	return f
}
