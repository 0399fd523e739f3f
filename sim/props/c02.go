package props

import (
	"simv/simos"
)

func init() {
	register(&Prop{
		ID: "C02", Runs: 300000, Body: c02,
		Rule: "Each run generates a document and a way to write it, performs it once without faults while counting every write and file operation, then again with one to three faults placed on operations or byte positions drawn from that count (create, write with partial transfer, disk full, close); a run is non-trivial when an injected fault was actually delivered to the library.",
	})
}

func c02(e *Env) {
	j := e.DrawJob()
	dry := j.DryRun()
	if dry == nil {
		e.S.Probe("job fails without faults")
		return
	}
	if m := j.buffersStored(dry.Files); m != "" {
		e.S.Fail("not-written", "%v reported success but %s", j, m)
	}
	for i, n := 0, 1+e.G.N(3); i < n; i++ {
		if i > 0 && e.G.N(3) == 0 { // the document changes
			e.S.Event("tweak", e.tweak(j.Doc))
			if dry = j.DryRun(); dry == nil {
				e.S.Fail("spurious-error", "%v failed without any fault once the document had changed", j)
			}
		}
		e.Newdisk()
		j.Clutter()
		w := e.NewWriter()
		fired := ""
		faults := 1
		if e.F.Chance(1, 5) {
			faults = 2
		}
		at := map[int]simos.Action{}
		kinds := map[int]string{}
		full := -1
		for k := 0; k < faults; k++ {
			onMain := dry.Calls > 0 && (len(dry.Disk) == 0 || e.F.N(3) == 0)
			switch {
			case onMain && e.F.N(2) == 0:
				w.FailOp, w.Partial, w.FailErr, w.Once = e.F.N(dry.Calls), e.F.N(64), DrawErr(e.F), e.F.N(2) == 1
			case onMain:
				w.FailAt, w.FailErr, w.Once = e.F.N(dry.Bytes), DrawErr(e.F), e.F.N(2) == 1
			case len(dry.Disk) > 0 && e.F.N(5) == 4:
				total := 0
				for _, op := range dry.Disk {
					if op.Kind == "write" {
						total += op.N
					}
				}
				if total > 0 {
					full = e.F.N(total)
				}
			case len(dry.Disk) > 0:
				op := dry.Disk[e.F.N(len(dry.Disk))]
				a := simos.Action{Err: DrawErr(e.F)}
				if op.Kind == "create" || op.Kind == "open" {
					a.Err = openErrs[e.F.N(len(openErrs))]
				}
				if op.Kind == "write" && op.N > 0 {
					a.Partial = e.F.N(op.N)
				}
				at[op.Seq] = a
				kinds[op.Seq] = op.Kind
			}
		}
		written := 0
		e.Disk.Hook = func(op simos.Op) simos.Action {
			if a, ok := at[op.Seq]; ok && failable(op) {
				fired = op.Kind + " " + op.Path
				e.S.Fault("file "+op.Kind+" error", op.Path, a.Partial, a.Err.Error())
				return a
			}
			if op.Kind == "write" && full >= 0 {
				if written+op.N > full {
					fired = "disk full " + op.Path
					a := simos.Action{Err: openErrs[3], Partial: full - written}
					written = full
					e.S.Fault("disk full", op.Path, a.Partial)
					return a
				}
				written += op.N
			}
			return simos.Action{}
		}
		main, err := j.Run(w)
		if w.Hit {
			fired = "main stream"
		}
		e.S.Event("written", j.String(), fired, errText(err))
		if fired != "" {
			e.Nontrivial()
			if err == nil {
				e.S.Fail("error-swallowed", "%v: %s failed, but success was reported", j, fired)
			}
			continue
		}
		if err != nil {
			e.S.Fail("spurious-error", "%v failed although no operation failed: %v", j, err)
		}
		files := e.Disk.Snapshot()
		if m := j.buffersStored(files); m != "" {
			e.S.Fail("not-written", "%v reported success but %s", j, m)
		}
		if string(main) != string(dry.Main) {
			e.S.Fail("not-written", "%v reported success but the main stream differs: %d and %d bytes", j, len(main), len(dry.Main))
		}
	}
}

// failable are operations whose failure matters to the one who writes.
func failable(op simos.Op) bool {
	switch op.Kind {
	case "create", "openw", "write", "sync", "rename":
		return true
	case "close":
		return op.N == 0
	}
	return false
}
