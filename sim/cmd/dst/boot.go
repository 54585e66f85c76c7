package main

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
)

// C11: what the library computed when the process started must not show either. Package variables are
// initialised once per process, so a part of the plans runs in a second process too, whose clock stood
// at another instant when it started.

// boots: unix nanoseconds
var boots = []int64{946684799_900_000_000, 1709164800_000_000_000, 2240611199_500_000_000}

type peer struct {
	cmd *osexec.Cmd
	in  io.WriteCloser
	enc *gob.Encoder
	dec *gob.Decoder
}

type peerLog struct {
	Failed bool
	Order  [][]int
	Logs   []map[int]string
}

var peers = map[string]*peer{}

func peerOf(zone string, boot int) *peer {
	k := fmt.Sprint(zone, boot)
	if q := peers[k]; q != nil {
		return q
	}
	exe, err := os.Executable()
	if err != nil {
		panic(harnessError(err.Error()))
	}
	c := osexec.Command(exe, "peer")
	if zone == "" {
		zone = os.Getenv("TZ")
	}
	c.Env = append(workerEnv(zone), fmt.Sprint("DST_BOOT=", boots[(boot-1)%len(boots)]))
	c.Stderr = os.Stderr
	in, err := c.StdinPipe()
	if err != nil {
		panic(harnessError(err.Error()))
	}
	out, err := c.StdoutPipe()
	if err != nil {
		panic(harnessError(err.Error()))
	}
	if err := c.Start(); err != nil {
		panic(harnessError(err.Error()))
	}
	q := &peer{c, in, gob.NewEncoder(in), gob.NewDecoder(bufio.NewReader(out))}
	peers[k] = q
	return q
}

// compareBoot: a process that was started at another time sees the same.
func compareBoot(p *Plan, a *result) *Violation {
	q := peerOf(p.Zone, p.Boot)
	var l peerLog
	err := q.enc.Encode(planJSON(p))
	if err == nil {
		err = q.dec.Decode(&l)
	}
	if err != nil { // it died or was ended: that is not this property's business
		q.in.Close()
		q.cmd.Process.Kill()
		q.cmd.Wait()
		delete(peers, fmt.Sprint(p.Zone, p.Boot))
		tl.Counts["probe:boot-lost"]++
		return nil
	}
	tl.Counts["fault:other-start-time"]++
	if l.Failed {
		return &Violation{"start-dependence", -1, -1, "in a process that was started at another time the run fails"}
	}
	for i := range p.Tasks {
		b := &exec{order: l.Order[i], log: l.Logs[i]}
		if v := compareLogs(p, i, b, a.x[i], "start-dependence", "in a process that was started at another time it sees something else", nil); v != nil {
			return v
		}
	}
	return nil
}

func cmdPeer() {
	dec, out := gob.NewDecoder(bufio.NewReader(os.Stdin)), bufio.NewWriter(os.Stdout)
	enc := gob.NewEncoder(out)
	for {
		var b []byte
		if dec.Decode(&b) != nil {
			return
		}
		var p Plan
		if json.Unmarshal(b, &p) != nil {
			return
		}
		tl = newTally()
		r := runWorld(&p, runOpt{only: -1, seq: true})
		l := peerLog{Failed: r.fail != nil}
		for _, x := range r.x {
			if x == nil {
				x = &exec{}
			}
			l.Order, l.Logs = append(l.Order, x.order), append(l.Logs, x.log)
		}
		if enc.Encode(&l) != nil || out.Flush() != nil {
			return
		}
	}
}
