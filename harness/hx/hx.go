// Package hx is the support code shared by all property checks: it runs rapid
// properties and enumerations, counts and classifies cases, and writes one
// result file per process for the driver (/verif/check) to merge.
package hx

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is what one process reports.
type Result struct {
	Property    string         `json:"property"`
	Evaluations int            `json:"evaluations"`
	Classes     map[string]int `json:"classes"`
	Subs        map[string]int `json:"subs"`
	Samples     []string       `json:"samples"`
	Rule        string         `json:"rule"`
	Failed      []string       `json:"failed"`
	Exhaustive  map[string]int `json:"exhaustive,omitempty"`
	Findings    map[string]int `json:"findings"`
	Done        bool           `json:"done"`
}

// H drives one property.
type H struct {
	t      *testing.T
	mu     sync.Mutex
	res    Result
	keys   map[uint64]bool
	perSub map[string]int // samples kept per sub

	running string // the sub whose case is running
	ticks   int
}

var (
	outDir = os.Getenv("VERIF_OUT")
	shard  = envInt("VERIF_SHARD", 0)
	Tier   = envStr("VERIF_TIER", "quick")
	only   = os.Getenv("VERIF_ONLY") // replay: run this sub only
	factor = envInt("VERIF_FACTOR", 1)
)

func envStr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Start begins the check of property id. rule says what a non-trivial case is.
func Start(t *testing.T, id, rule string) *H {
	if collecting != nil {
		return &H{}
	}
	log.SetOutput(io.Discard)
	h := &H{t: t, keys: map[uint64]bool{}, perSub: map[string]int{}}
	h.res = Result{Property: id, Classes: map[string]int{}, Subs: map[string]int{}, Rule: rule, Exhaustive: map[string]int{}, Findings: map[string]int{}}
	t.Cleanup(h.finish)
	go h.watch()
	return h
}

// hangTicks is how many seconds of running one case may take; they take
// milliseconds.
const hangTicks = 90

func (h *H) begin(sub string) { h.mu.Lock(); h.running, h.ticks = sub, 0; h.mu.Unlock() }
func (h *H) end()             { h.mu.Lock(); h.running = ""; h.mu.Unlock() }

// watch ends the process with status 4 when a case does not come to an end.
// It counts its own wake-ups, so that a suspended machine does not count.
func (h *H) watch() {
	for {
		time.Sleep(time.Second)
		h.mu.Lock()
		if h.running != "" {
			h.ticks++
		}
		sub, stuck := h.running, h.ticks > hangTicks
		h.mu.Unlock()
		if stuck {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG sub=%s: a case has not ended after %d s\n%s\n", sub, hangTicks, buf)
			os.Exit(4)
		}
	}
}

func (h *H) finish() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.res.Done = true
	if outDir == "" {
		b, _ := json.MarshalIndent(h.res, "", " ")
		h.t.Logf("%s\ndistinct_nontrivial=%d", b, len(h.keys))
		return
	}
	base := filepath.Join(outDir, fmt.Sprintf("shard-%d", shard))
	kb := make([]byte, 0, 8*len(h.keys))
	for k := range h.keys {
		kb = binary.LittleEndian.AppendUint64(kb, k)
	}
	Must(os.WriteFile(base+".keys", kb, 0o644))
	b, _ := json.Marshal(h.res)
	Must(os.WriteFile(base+".json", b, 0o644))
}

// C is one generated case.
type C struct {
	key        string
	nontrivial bool
	classes    []string
}

// Key adds the case's identity (what makes it distinct).
func (c *C) Key(format string, args ...any) { c.key += fmt.Sprintf(format, args...) + ";" }

// Nontrivial marks the case as non-trivial if cond holds.
func (c *C) Nontrivial(cond bool) { c.nontrivial = c.nontrivial || cond }

// Class counts the case in a class if cond holds.
func (c *C) Class(name string, cond bool) {
	if cond {
		c.classes = append(c.classes, name)
	}
}

func (h *H) record(sub string, c *C) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.res.Evaluations++
	h.res.Subs[sub]++
	for _, cl := range c.classes {
		h.res.Classes[sub+"/"+cl]++
	}
	if c.nontrivial {
		f := fnv.New64a()
		io.WriteString(f, sub+"|"+c.key)
		h.keys[f.Sum64()] = true
		h.perSub[sub]++
		if n := h.perSub[sub]; n == 3 || n == 40 {
			s := c.key
			if len(s) > 700 {
				s = s[:700] + "..."
			}
			h.res.Samples = append(h.res.Samples, sub+": "+s)
		}
	}
}

// Known says whether the finding is listed as open in known-findings.txt.
func (h *H) Known(id string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == id {
			return true
		}
	}
	return false
}

// Found counts a case that shows a known finding.
func (h *H) Found(id string) { h.mu.Lock(); h.res.Findings[id]++; h.mu.Unlock() }

// Check runs a rapid property with n cases (times the tier factor).
func (h *H) Check(sub string, n int, prop func(t *rapid.T, c *C)) {
	h.check(sub, n*factor, prop)
}

// CheckN is Check without the tier factor beyond the given maximum.
func (h *H) CheckN(sub string, n, max int, prop func(t *rapid.T, c *C)) {
	m := n * factor
	if m > max {
		m = max
	}
	h.check(sub, m, prop)
}

func (h *H) check(sub string, n int, prop func(t *rapid.T, c *C)) {
	if collecting != nil {
		if n >= cheap {
			*collecting = append(*collecting, target{prop: prop})
		}
		return
	}
	if only != "" && only != sub || only == "" && len(h.res.Failed) > 0 {
		return // one violation is enough
	}
	ok := h.t.Run(sub, func(t *testing.T) {
		flag.Set("rapid.checks", strconv.Itoa(n))
		var first time.Time // the first failure
		rapid.Check(t, func(rt *rapid.T) {
			// rapid looks at the clock rarely while it shrinks; where failing cases
			// are slow, this makes it come to an end
			if d := time.Since(first); !first.IsZero() && d > maxShrink && d < maxShrink+2*time.Second {
				return
			}
			defer func() {
				if rt.Failed() && first.IsZero() {
					first = time.Now()
				}
			}()
			c := &C{}
			h.begin(sub)
			defer h.end()
			prop(rt, c)
			if !rt.Failed() {
				h.record(sub, c)
			}
		})
	})
	if !ok {
		h.res.Failed = append(h.res.Failed, sub)
	}
}

// maxShrink bounds the time spent on making a failure smaller.
const maxShrink = 60 * time.Second

// Each runs a deterministic enumeration; body calls rec per case and returns
// an error for the first violation. complete says the finite space was covered.
func (h *H) Each(sub string, complete bool, body func(rec func(c *C)) error) {
	if collecting != nil {
		return
	}
	if only != "" && only != sub || only == "" && (shard != 0 || len(h.res.Failed) > 0) {
		return // one process enumerates; one violation is enough
	}
	ok := h.t.Run(sub, func(t *testing.T) {
		h.begin(sub)
		defer h.end()
		defer func() {
			if r := recover(); r != nil {
				t.Errorf("[enumeration] panic: %v\n%s", r, debug.Stack())
			}
		}()
		n := 0
		if err := body(func(c *C) { n++; h.record(sub, c); h.begin(sub) }); err != nil {
			t.Errorf("[enumeration] failed: %v", err)
			return
		}
		if complete {
			h.res.Exhaustive[sub] = n
		}
	})
	if !ok {
		h.res.Failed = append(h.res.Failed, sub)
	}
}

// Try calls f and returns the recovered panic as an error.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return nil
}

// Must ends the process with status 3 (no verdict) if the harness itself
// cannot work, for example when the disk is full.
func Must(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: %v\n%s", err, debug.Stack())
		os.Exit(3)
	}
}
