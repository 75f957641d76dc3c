package pool

// Replays random histories of the reader pool against a model of it. Only the
// exported interface is used.

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bodgit/sevenzip/internal/util"
)

type gvRd struct {
	id     int
	off    int64
	fail   bool
	closed atomic.Int32
	held   atomic.Int32
}

var errGVClose = errors.New("gv close")

func (r *gvRd) Read([]byte) (int, error)       { return 0, io.EOF }
func (r *gvRd) Seek(int64, int) (int64, error) { return r.off, nil }
func (r *gvRd) Size() int64                    { return 1 << 62 }
func (r *gvRd) Close() error {
	r.closed.Add(1)
	if r.fail {
		return errGVClose
	}
	return nil
}

func gvViolate(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-VIOLATION %s\n", strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " | "))
	t.FailNow()
}

func TestGV_Pool(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	d := 10 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 60 * time.Second
	}
	rnd := rand.New(rand.NewPCG(uint64(seed)+1, 91))
	end := time.Now().Add(d)
	cases := 0
	defer func() { fmt.Printf("REPLAY-CASES %d\n", cases) }()
	for cases < 6000 && time.Now().Before(end) {
		cases++
		gvHistory(t, rnd)
		if cases%50 == 0 {
			gvParallel(t, rnd.Uint64())
		}
	}
}

// gvHistory is one random history of one pool.
func gvHistory(t *testing.T, rnd *rand.Rand) {
	noop := rnd.IntN(10) == 0
	capacity := runtime.NumCPU()
	mk := NewPool
	if noop {
		mk, capacity = NewNoopPool, 0
	}
	p, err := mk()
	if err != nil {
		gvViolate(t, "constructor: %v", err)
	}
	var (
		model []*gvRd // oldest first
		all   []*gvRd
		trace []string
		free  []*gvRd // handed out by the pool
	)
	span := int64(1 + rnd.IntN(40))
	at := func() int64 {
		switch rnd.IntN(20) {
		case 0:
			return 1<<63 - 1 - rnd.Int64N(2)
		case 1:
			return 0
		}
		return rnd.Int64N(span)
	}
	check := func() {
		in := map[*gvRd]bool{}
		for _, r := range model {
			in[r] = true
		}
		for _, r := range all {
			if in[r] && r.closed.Load() != 0 {
				gvViolate(t, "after %s: reader %d at %d is in the pool and was closed", strings.Join(trace, " "), r.id, r.off)
			}
		}
	}
	for op := 0; op < 60; op++ {
		if rnd.IntN(5) < 3 {
			var r *gvRd
			if len(free) > 0 && rnd.IntN(3) == 0 {
				r = free[len(free)-1]
				free = free[:len(free)-1]
				r.off = at()
			} else {
				r = &gvRd{id: len(all), off: at(), fail: rnd.IntN(6) == 0}
				all = append(all, r)
			}
			trace = append(trace, fmt.Sprintf("put(%d:%d)", r.id, r.off))
			dup := false
			for _, m := range model {
				dup = dup || m.off == r.off
			}
			ev, err := p.Put(r.off, r)
			what := strings.Join(trace, " ")
			switch {
			case noop || dup:
				if ev || r.closed.Load() != 1 || (err != nil) != r.fail {
					gvViolate(t, "after %s: a reader that is not accepted: evicted %v, closed %d times, error %v", what, ev, r.closed.Load(), err)
				}
			default:
				model = append(model, r)
				var out *gvRd
				if len(model) > capacity {
					out = model[0]
					model = model[1:]
				}
				if ev != (out != nil) {
					gvViolate(t, "after %s: evicted %v, want %v", what, ev, out != nil)
				}
				if out == nil && err != nil || out != nil && (err != nil) != out.fail {
					gvViolate(t, "after %s: error %v", what, err)
				}
				if out != nil && out.closed.Load() != 1 {
					gvViolate(t, "after %s: the oldest reader %d was closed %d times", what, out.id, out.closed.Load())
				}
			}
		} else {
			o := at()
			trace = append(trace, fmt.Sprintf("get(%d)", o))
			best := -1
			for i, m := range model {
				if m.off <= o && (best < 0 || m.off > model[best].off) {
					best = i
				}
			}
			g, ok := p.Get(o)
			what := strings.Join(trace, " ")
			if ok != (best >= 0) || (g != nil) != ok {
				gvViolate(t, "after %s: got %v %v, want a reader: %v", what, g, ok, best >= 0)
			}
			if ok {
				r := g.(*gvRd)
				if r != model[best] {
					gvViolate(t, "after %s: got reader %d at %d, want %d at %d", what, r.id, r.off, model[best].id, model[best].off)
				}
				model = append(model[:best:best], model[best+1:]...)
				free = append(free, r)
			}
		}
		check()
	}
	// Whatever is left comes out once, from the greatest offset down
	for len(model) > 0 {
		best := 0
		for i, m := range model {
			if m.off > model[best].off {
				best = i
			}
		}
		g, ok := p.Get(1<<63 - 1)
		if !ok || g.(*gvRd) != model[best] {
			gvViolate(t, "after %s: draining got %v %v, want reader %d", strings.Join(trace, " "), g, ok, model[best].id)
		}
		model = append(model[:best:best], model[best+1:]...)
	}
	if g, ok := p.Get(1<<63 - 1); ok || g != nil {
		gvViolate(t, "after %s: a reader was handed out twice", strings.Join(trace, " "))
	}
}

// gvParallel uses one pool from several goroutines.
func gvParallel(t *testing.T, seed uint64) {
	p, err := NewPool()
	if err != nil {
		gvViolate(t, "constructor: %v", err)
	}
	var (
		wg  sync.WaitGroup
		bad atomic.Pointer[string]
	)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					s := fmt.Sprintf("concurrent use: panic: %v", e)
					bad.Store(&s)
				}
			}()
			rnd := rand.New(rand.NewPCG(seed, uint64(w)))
			for i := 0; i < 200 && bad.Load() == nil; i++ {
				o := rnd.Int64N(12)
				var r *gvRd
				if g, ok := p.Get(o); ok {
					r = g.(*gvRd)
					if r.off > o || r.closed.Load() != 0 {
						s := fmt.Sprintf("concurrent use: offset %d got a reader at %d, closed %d times", o, r.off, r.closed.Load())
						bad.Store(&s)
					}
				} else {
					r = &gvRd{off: o}
				}
				if r.held.Add(1) != 1 {
					s := "concurrent use: a reader was handed out to two callers"
					bad.Store(&s)
				}
				if rnd.IntN(4) == 0 {
					runtime.Gosched()
				}
				r.off = o
				r.held.Add(-1)
				_, _ = p.Put(o, r)
			}
		}()
	}
	wg.Wait()
	if s := bad.Load(); s != nil {
		gvViolate(t, "%s", *s)
	}
	last := int64(1<<63 - 1)
	n := 0
	var got util.SizeReadSeekCloser
	ok := true
	for ok {
		if got, ok = p.Get(last); ok {
			n++
			r := got.(*gvRd)
			if r.closed.Load() != 0 {
				gvViolate(t, "concurrent use: a closed reader is in the pool")
			}
			last = r.off
		}
	}
	if n > runtime.NumCPU() {
		gvViolate(t, "concurrent use: %d readers pooled, capacity %d", n, runtime.NumCPU())
	}
}
