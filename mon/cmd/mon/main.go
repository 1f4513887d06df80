// Command mon runs the monitors. The parent process supervises worker processes that execute the cases and
// journal the one they are on, so that a fatal crash, an exhausted stack or a runaway is attributed to its case.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/mon/gen"
	"verif/mon/props"
)

var (
	propID    = flag.String("prop", "", "property")
	tier      = flag.String("tier", "quick", "quick or thorough")
	seed      = flag.Int64("seed", 1, "seed")
	oneCase   = flag.Int("case", -1, "run this case only")
	worker    = flag.Int("worker", -1, "")
	workers   = flag.Int("workers", 8, "")
	start     = flag.Int("start", 0, "")
	work      = flag.String("work", "", "")
	verif     = flag.String("verif", "/verif", "root of the framework")
	deadline  = flag.Int64("deadline", 0, "")
	timeparse = flag.String("timeparse", "", "")
	timeopts  = flag.String("timeopts", "", "")
	coldstart = flag.Int64("coldstart", -1, "")
	kind      = flag.Int("kind", 0, "")
	selftest  = flag.Bool("selftest", false, "check the oracles against each other, without the library")
)

func main() {
	flag.Parse()
	log.SetOutput(io.Discard)
	props.Root = *verif
	gen.LoadDict("/repo")
	if *selftest {
		os.Exit(props.SelfTest(*seed))
	}
	if *coldstart >= 0 {
		if s := props.ColdStart(*coldstart, *kind); s != "" {
			fmt.Println(s)
			os.Exit(1)
		}
		return
	}
	if *timeparse != "" {
		props.TimeParse(*timeparse, *timeopts)
		return
	}
	p := props.All[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *propID)
		os.Exit(2)
	}
	if *worker >= 0 {
		runWorker(p)
		return
	}
	if *oneCase >= 0 {
		st := props.NewStats()
		c := props.NewCtx(p.ID, *tier, *seed, *oneCase, st)
		if v := props.RunCase(p, c); v != nil {
			fmt.Println(printable(v.Detail))
			fmt.Printf("VIOLATION property=%s case=%d\n", p.ID, *oneCase)
			os.Exit(1)
		}
		fmt.Println("held", st.Events)
		return
	}
	os.Exit(parent(p))
}

// report is what a worker hands over.
type report struct {
	Stats      *props.Stats
	Violations map[int]*props.Violation
	Known      []string
	Next       int
	Truncated  bool
}

func runWorker(p *props.Prop) {
	debug.SetGCPercent(200)
	j, err := os.OpenFile(filepath.Join(*work, fmt.Sprintf("journal.%d", *worker)), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rep := &report{Stats: props.NewStats(), Violations: map[int]*props.Violation{}}
	known := readKnown(p.ID)
	n := p.Total(*tier)
	i := *start
	last := time.Now()
	save := func() {
		tmp := filepath.Join(*work, fmt.Sprintf("tmp.%d", *worker))
		f, err := os.Create(tmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w := bufio.NewWriter(f)
		if err := gob.NewEncoder(w).Encode(rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.Flush()
		f.Close()
		os.Rename(tmp, filepath.Join(*work, fmt.Sprintf("report.%d", *worker)))
	}
	for ; i < n; i += *workers {
		if *deadline > 0 && time.Now().Unix() > *deadline {
			rep.Truncated = true
			break
		}
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(i+1))
		j.WriteAt(b[:], 0)
		c := props.NewCtx(p.ID, *tier, *seed, i, rep.Stats)
		v := props.RunCase(p, c)
		if v != nil {
			if k, ok := known[v.Sig]; ok {
				rep.Known = append(rep.Known, k)
				continue
			}
			rep.Violations[i] = v
			break
		}
		rep.Next = i + *workers
		if time.Since(last) > 5*time.Second {
			save()
			last = time.Now()
		}
	}
	save()
}

// readKnown reads the known findings of a property: lines "known: property=<id> sig=<quoted input> <text>".
func readKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" sig=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		out[q] = strings.TrimSpace(rest[len(q):])
	}
	return out
}

const (
	cpuLimit  = 60.0 // seconds of CPU time of one case before it is run again alone
	soloLimit = 90.0
	wallLimit = 300.0
	rssLimit  = 6 << 30
)

type child struct {
	id, start int
	cmd       *exec.Cmd
	done      chan error
	cur       int64
	cpu0      float64
	t0        time.Time
	why       string
}

func cpuOf(pid int) (cpu float64, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 21 {
			u, _ := strconv.ParseFloat(f[11], 64)
			k, _ := strconv.ParseFloat(f[12], 64)
			r, _ := strconv.ParseInt(f[21], 10, 64)
			return (u + k) / 100, r * int64(os.Getpagesize())
		}
	}
	return 0, 0
}

func spawn(args ...string) *exec.Cmd {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	return cmd
}

func kill(cmd *exec.Cmd) { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }

func common() []string {
	return []string{"-prop", *propID, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-verif", *verif}
}

// solo runs one case alone and tells whether and how it fails.
func solo(p *props.Prop, i int, dir string) (failed bool, how, output string) {
	out, _ := os.Create(filepath.Join(dir, fmt.Sprintf("solo.%d", i)))
	cmd := spawn(append(common(), "-case", fmt.Sprint(i))...)
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		return false, err.Error(), ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := time.Now()
	for {
		select {
		case err := <-done:
			out.Close()
			b, _ := os.ReadFile(out.Name())
			if len(b) > 20000 {
				b = append(append(b[:10000:10000], "\n...\n"...), b[len(b)-10000:]...)
			}
			if err == nil || cmd.ProcessState.ExitCode() == props.TroubleExit {
				return false, "", ""
			}
			return true, err.Error(), string(b)
		case <-time.After(200 * time.Millisecond):
			cpu, rss := cpuOf(cmd.Process.Pid)
			switch {
			case cpu > soloLimit:
				kill(cmd)
				<-done
				return true, fmt.Sprintf("no end after %.0f s of CPU time", cpu), ""
			case rss > rssLimit:
				kill(cmd)
				<-done
				return true, fmt.Sprintf("more than %d MB of memory", rssLimit>>20), ""
			case time.Since(t0).Seconds() > wallLimit:
				kill(cmd)
				<-done
				return true, "no end: blocked", ""
			}
		}
	}
}

func parent(p *props.Prop) int {
	t0 := time.Now()
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(*verif, "replay"), 0o755)
	os.MkdirAll(filepath.Join(*verif, "build"), 0o755)
	dir, err := os.MkdirTemp(filepath.Join(*verif, "build"), "run-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	nw := 8
	if p.Workers > 0 {
		nw = p.Workers
	}
	dl := t0.Add(500 * time.Second).Unix()
	if *tier == "thorough" {
		dl = t0.Add(780 * time.Second).Unix()
	}

	total := &report{Stats: props.NewStats(), Violations: map[int]*props.Violation{}}
	merge := func(id int) int {
		f, err := os.Open(filepath.Join(dir, fmt.Sprintf("report.%d", id)))
		if err != nil {
			return -1
		}
		defer f.Close()
		defer os.Remove(f.Name())
		var r report
		if err := gob.NewDecoder(bufio.NewReader(f)).Decode(&r); err != nil {
			fmt.Fprintln(os.Stderr, "report:", err)
			return -1
		}
		total.Stats.Add(r.Stats)
		for k, v := range r.Violations {
			total.Violations[k] = v
		}
		total.Known = append(total.Known, r.Known...)
		total.Truncated = total.Truncated || r.Truncated
		return r.Next
	}

	var running []*child
	launch := func(id, from int) {
		ch := &child{id: id, start: from, done: make(chan error, 1), cur: -1, t0: time.Now()}
		args := append(common(), "-worker", fmt.Sprint(id), "-workers", fmt.Sprint(nw), "-start", fmt.Sprint(from), "-work", dir, "-deadline", fmt.Sprint(dl))
		ch.cmd = spawn(args...)
		errf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr.%d", id)))
		ch.cmd.Stderr = errf
		os.Remove(filepath.Join(dir, fmt.Sprintf("journal.%d", id)))
		if err := ch.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		errf.Close()
		go func() { ch.done <- ch.cmd.Wait() }()
		running = append(running, ch)
	}
	for i := 0; i < nw && i < p.Total(*tier); i++ {
		launch(i, i)
	}
	stop := func() {
		for _, ch := range running {
			kill(ch.cmd)
		}
		for _, ch := range running {
			<-ch.done
		}
		running = nil
	}
	unconfirmed := 0
	for len(running) > 0 && len(total.Violations) == 0 {
		time.Sleep(100 * time.Millisecond)
		var next []*child
		type dead struct {
			ch  *child
			err error
		}
		var died []dead
		for _, ch := range running {
			select {
			case err := <-ch.done:
				died = append(died, dead{ch, err})
				continue
			default:
			}
			next = append(next, ch)
			cpu, rss := cpuOf(ch.cmd.Process.Pid)
			if cur := journal(dir, ch.id); cur != ch.cur {
				ch.cur, ch.cpu0, ch.t0 = cur, cpu, time.Now()
			}
			switch {
			case cpu-ch.cpu0 > cpuLimit:
				ch.why = fmt.Sprintf("%.0f s of CPU time in one case", cpu-ch.cpu0)
			case rss > rssLimit:
				ch.why = "memory limit"
			case time.Since(ch.t0).Seconds() > wallLimit:
				ch.why = "blocked"
			default:
				continue
			}
			kill(ch.cmd)
		}
		running = next
		for _, d := range died {
			reached := merge(d.ch.id)
			if d.err == nil && d.ch.why == "" {
				continue
			}
			cur := int(journal(dir, d.ch.id))
			why := d.ch.why
			eb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stderr.%d", d.ch.id)))
			text := string(eb)
			if len(text) > 12000 {
				text = text[:6000] + "\n...\n" + text[len(text)-6000:]
			}
			if why == "" {
				why = d.err.Error()
			}
			if strings.Contains(text, "DATA RACE") || strings.Contains(text, "concurrent map") {
				total.Violations[cur] = &props.Violation{Detail: why + "\n" + text}
				break
			}
			if cur < 0 || d.ch.cmd.ProcessState.ExitCode() == props.TroubleExit {
				fmt.Fprintf(os.Stderr, "worker %d: %s\n%s\n", d.ch.id, why, text)
				stop()
				return 2
			}
			failed, how, out := solo(p, cur, dir)
			if failed {
				total.Violations[cur] = &props.Violation{Detail: fmt.Sprintf("worker: %s; alone: %s\n%s\n%s", why, how, out, text)}
				break
			}
			unconfirmed++
			total.Stats.Events["worker failures that did not recur"]++
			fmt.Fprintf(os.Stderr, "worker %d, case %d: %s; not reproduced\n%s\n", d.ch.id, cur, why, text)
			if unconfirmed > 5 {
				stop()
				return 2
			}
			from := cur + nw
			if reached > cur {
				from = reached
			}
			launch(d.ch.id, from)
		}
	}
	stop()
	for i := 0; i < nw; i++ {
		merge(i)
	}
	return finish(p, total, t0)
}

func journal(dir string, id int) int64 {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", id)))
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b)) - 1
}

func finish(p *props.Prop, r *report, t0 time.Time) int {
	st := r.Stats
	n := len(st.Hashes)
	cov := map[string]any{
		"evaluations":         st.Evals,
		"distinct_nontrivial": n,
		"rule":                p.Rule,
		"samples":             st.Samples,
		"events":              st.Events,
		"events_required":     p.MinEvents,
		"nontrivial_required": p.MinNontrivial,
		"cases":               p.Total(*tier),
		"truncated":           r.Truncated,
	}
	if len(st.Edges) > 0 {
		cov["library_edges_reached_in_guided_sessions"] = st.EdgeSummary()
	}
	if p.Guided {
		cov["rule"] = p.Rule + "; besides, sessions that draw mutants of sources which reached a new edge, edge count or comparison of the instrumented library"
	}
	if p.Exhaustive != "" {
		cov["exhaustive_part"] = p.Exhaustive
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{"held on the executions listed here, not verified for all inputs"}, p.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(r.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sort.Strings(r.Known)
	for i, k := range r.Known {
		if i == 0 || r.Known[i-1] != k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
		}
	}
	if len(r.Violations) > 0 {
		var idx []int
		for i := range r.Violations {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		for _, i := range idx {
			path := filepath.Join(*verif, "replay", fmt.Sprintf("%s-%d-%d.txt", p.ID, *seed, i))
			text := fmt.Sprintf("property %s, case %d, seed %d, tier %s\nreplay: %s %s\n\n%s\n", p.ID, i, *seed, *tier,
				filepath.Join(*verif, "check.sh"), fmt.Sprintf("%s case %d", p.ID, i), printable(r.Violations[i].Detail))
			os.WriteFile(path, []byte(text), 0o644)
			fmt.Fprintln(os.Stderr, clip(text, 6000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	fmt.Printf("%s %s: held on %d evaluations (%d distinct non-trivial) in %.1f s\n", p.ID, *tier, st.Evals, n, time.Since(t0).Seconds())
	bad := false
	if n < p.MinNontrivial {
		fmt.Printf("inconclusive: only %d distinct non-trivial evaluations, %d needed\n", n, p.MinNontrivial)
		bad = true
	}
	for k, min := range p.MinEvents {
		if st.Events[k] < min {
			fmt.Printf("inconclusive: event %q seen %d times, %d needed\n", k, st.Events[k], min)
			bad = true
		}
	}
	if bad {
		return 2
	}
	return 0
}

// printable shows control characters and broken UTF-8 by escapes.
func printable(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\n' || r != utf8.RuneError && unicode.IsPrint(r) {
			b.WriteRune(r)
		} else {
			b.WriteString(strings.Trim(strconv.QuoteRuneToASCII(r), "'"))
		}
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
