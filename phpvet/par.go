package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// The analysis is spread over processes. Each loads the program, analyses codec construction, and
// then its share of the codecs; after each round they exchange what they had to assume less about.

// weak is what one process learned that the others may not assume any longer.
type weak struct {
	Dec, Scan bool
	Pool      []string
	Cache     map[string]string
	Mut       []string
}

type obJ struct {
	Prop, Rule, Fn, Pos, Detail string
	N, Bad                      int
}

type hopJ struct {
	Fn, Pos, Why        string
	From, To            Set
	Guarded, Cross, Val bool
}

type result struct {
	Obs         []obJ
	Hops        []hopJ
	SharedInput [][2]string
	Aliasing    []string
	Access      []access
	Undec       []string
	Roots       []string
	Round, FM   int
	Fail        string
}

type roundMsg struct {
	Claim   string
	Changed bool
	Weak    weak
	Result  *result
}

// abortRun makes the analysis of the current root stop.
var abortRun atomic.Bool

// shard is one of several processes that share the work.
type shard struct {
	i, n  int
	in    *bufio.Reader
	out   *json.Encoder
	abort atomic.Bool
	lines chan string
}

func (an *Analysis) weakness() weak {
	w := weak{Dec: an.weakDec, Scan: an.weakScan, Cache: an.cacheRel}
	for k := range an.poolBad {
		w.Pool = append(w.Pool, k)
	}
	sort.Strings(w.Pool)
	for k := range an.sharedMut {
		w.Mut = append(w.Mut, k)
	}
	sort.Strings(w.Mut)
	return w
}

func (an *Analysis) weaken(w weak) {
	an.weakDec = an.weakDec || w.Dec
	an.weakScan = an.weakScan || w.Scan
	for _, k := range w.Pool {
		an.poolBad[k] = true
	}
	for _, k := range w.Mut {
		an.sharedMut[k] = true
	}
	for k, v := range w.Cache {
		if an.cacheRel[k] == "" {
			an.cacheRel[k] = v
		}
	}
}

// worker serves one shard; messages go over standard input and file descriptor 3.
func worker(dir string, sides, i, n int) {
	out := os.NewFile(3, "results")
	s := &shard{i: i, n: n, out: json.NewEncoder(out), lines: make(chan string)}
	an, err := load(dir)
	if err != nil {
		s.out.Encode(roundMsg{Result: &result{Fail: err.Error()}})
		os.Exit(2)
	}
	an.sides = sides
	an.shard = s
	go func() {
		r := bufio.NewReader(os.Stdin)
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				os.Exit(3) // the parent is gone
			}
			if l == "abort\n" {
				s.abort.Store(true)
				abortRun.Store(true)
				continue
			}
			s.lines <- l
		}
	}()
	an.run()
	s.out.Encode(roundMsg{Result: an.result()})
	out.Close()
}

// sync ends a round: it reports what was learned and says whether there is another round.
func (s *shard) sync(an *Analysis, changed bool) bool {
	s.out.Encode(roundMsg{Changed: changed, Weak: an.weakness()})
	var m roundMsg
	json.Unmarshal([]byte(<-s.lines), &m)
	s.abort.Store(false)
	abortRun.Store(false)
	an.weaken(m.Weak)
	return m.Changed
}

// claim asks the parent whether this process is the one to analyse the root.
func (s *shard) claim(key string) bool {
	s.out.Encode(roundMsg{Claim: key})
	return <-s.lines == "yes\n"
}

func (an *Analysis) result() *result {
	r := &result{SharedInput: an.sharedInput, Aliasing: an.aliasing, Undec: an.undec, Round: an.round, FM: statFM}
	var ks []string
	for k := range an.j.obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := an.j.obs[k]
		r.Obs = append(r.Obs, obJ{o.prop, o.rule, o.fn, o.pos, o.detail, o.n, o.bad})
	}
	for _, h := range an.hops {
		r.Hops = append(r.Hops, hopJ{Fn: h.fn, Pos: h.pos, From: h.from, To: h.to, Guarded: h.guarded, Why: h.why})
	}
	for _, h := range an.vhops {
		r.Hops = append(r.Hops, hopJ{Fn: h.fn, Pos: h.pos, From: h.from, To: h.to, Guarded: h.guard, Cross: h.cross, Why: h.why, Val: true})
	}
	for _, a := range an.accesses {
		r.Access = append(r.Access, a)
	}
	for _, d := range an.done {
		r.Roots = append(r.Roots, fmt.Sprintf("%s: %d exits, %d abstract steps", d.name, d.exits, d.elapsed))
	}
	return r
}

// absorb adds the findings of one shard.
func (an *Analysis) absorb(r *result, seen map[string]bool) {
	for _, o := range r.Obs {
		e := &Ob{prop: o.Prop, rule: o.Rule, fn: o.Fn, pos: o.Pos}
		if x, ok := an.j.obs[e.key()]; ok {
			e = x
		} else {
			an.j.obs[e.key()] = e
		}
		e.n += o.N
		e.bad += o.Bad
		if e.detail == "" {
			e.detail = o.Detail
		}
	}
	once := func(kind, k string) bool {
		if seen[kind+k] {
			return false
		}
		seen[kind+k] = true
		return true
	}
	for _, h := range r.Hops {
		if !once("hop", fmt.Sprint(h)) {
			continue
		}
		if h.Val {
			an.vhops = append(an.vhops, vhop{fn: h.Fn, pos: h.Pos, from: h.From, to: h.To, cross: h.Cross, guard: h.Guarded, why: h.Why})
		} else {
			an.hops = append(an.hops, hop{fn: h.Fn, pos: h.Pos, from: h.From, to: h.To, guarded: h.Guarded, why: h.Why})
		}
	}
	for _, a := range r.Access {
		an.accesses[a.key()] = a
	}
	for _, s := range r.SharedInput {
		if once("in", s[0]+s[1]) {
			an.sharedInput = append(an.sharedInput, s)
		}
	}
	for _, s := range r.Aliasing {
		if once("al", s) {
			an.aliasing = append(an.aliasing, s)
		}
	}
	for _, s := range r.Undec {
		if once("un", s) {
			an.undec = append(an.undec, s)
		}
	}
	for _, s := range r.Roots {
		if once("root", s) {
			an.rootLines = append(an.rootLines, s)
		}
	}
	statFM += r.FM
	if r.Round > an.round {
		an.round = r.Round
	}
}

// runSharded analyses with n processes.
func runSharded(dir string, sides, n int) (*Analysis, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	type proc struct {
		cmd *exec.Cmd
		in  io.WriteCloser
		dec *json.Decoder
	}
	type msg struct {
		i   int
		m   roundMsg
		err error
	}
	ps := make([]*proc, n)
	ch := make(chan msg)
	for i := range ps {
		cmd := exec.Command(exe, "-dir", dir, "-worker", fmt.Sprintf("%d/%d", i, n), "-sides", fmt.Sprint(sides))
		r, w, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		cmd.ExtraFiles = []*os.File{w}
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			return nil, err
		}
		cmd.Env = append(os.Environ(), "GOMAXPROCS=3")
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		w.Close()
		p := &proc{cmd, in, json.NewDecoder(r)}
		ps[i] = p
		go func(i int) {
			for {
				var m roundMsg
				err := p.dec.Decode(&m)
				ch <- msg{i, m, err}
				if err != nil || m.Result != nil {
					return
				}
			}
		}(i)
	}
	stop := func() {
		for _, p := range ps {
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}
	an := &Analysis{dir: dir, poolBad: map[string]bool{}, cacheRel: map[string]string{}, sharedMut: map[string]bool{}, accesses: map[string]access{}}
	an.j = newJournal()
	results := make([]*result, n)
	for {
		changed, done := false, 0
		replied := make([]bool, n)
		claimed := map[string]bool{}
		for k := 0; k < n; k++ {
			m := <-ch
			if m.err == nil && m.m.Claim != "" {
				k--
				a := "yes\n"
				if changed || claimed[m.m.Claim] {
					a = "no\n"
				}
				claimed[m.m.Claim] = true
				io.WriteString(ps[m.i].in, a)
				continue
			}
			if m.err != nil {
				stop()
				return nil, fmt.Errorf("an analysis process ended early: %v", m.err)
			}
			if m.m.Result != nil {
				if m.m.Result.Fail != "" {
					stop()
					return nil, fmt.Errorf("%s", m.m.Result.Fail)
				}
				results[m.i] = m.m.Result
				done++
				continue
			}
			replied[m.i] = true
			an.weaken(m.m.Weak)
			if m.m.Changed && !changed {
				changed = true
				for i, p := range ps {
					if !replied[i] {
						io.WriteString(p.in, "abort\n")
					}
				}
			}
		}
		if done == n {
			break
		}
		if done > 0 {
			stop()
			return nil, fmt.Errorf("analysis processes disagree")
		}
		b, _ := json.Marshal(roundMsg{Changed: changed, Weak: an.weakness()})
		for _, p := range ps {
			io.WriteString(p.in, string(b)+"\n")
		}
	}
	stop()
	seen := map[string]bool{}
	for _, r := range results {
		an.absorb(r, seen)
	}
	an.checkHops()
	an.checkValueHops()
	an.checkAccesses()
	an.checkSharing()
	return an, nil
}

func shards() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if v := os.Getenv("PV_SHARDS"); v != "" {
		fmt.Sscan(v, &n)
	}
	return n
}

func parseShard(s string) (i, n int) {
	fmt.Sscanf(strings.TrimSpace(s), "%d/%d", &i, &n)
	return
}

var started = time.Now()

func (an *Analysis) shardName() string {
	if an.shard == nil || os.Getenv("PV_SHARDNAME") == "" {
		return ""
	}
	return fmt.Sprintf("[%d %.1f] ", an.shard.i, time.Since(started).Seconds())
}
