//verif:race
package flake_test

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb/pkg/flake"
)

// clock is a scripted clock: each reading takes the next step of the script, then stands still.
type clock struct {
	mu    sync.Mutex
	at    time.Time
	steps []time.Duration
}

func (c *clock) now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.steps) > 0 {
		c.at = c.at.Add(c.steps[0])
		c.steps = c.steps[1:]
	}
	return c.at
}

func (c *clock) move(d time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.at = c.at.Add(d)
}

func within(d time.Duration, f func() string) (s string) {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- fmt.Sprintf("unexpected panic: %v", r)
			}
		}()
		ch <- f()
	}()
	select {
	case s = <-ch:
		return s
	case <-time.After(d):
		return "no answer"
	}
}

func machine(n uint16) func() (uint16, error) {
	return func() (uint16, error) { return n, nil }
}

func TestVerifC01(t *testing.T) {
	v := vnew(t)
	defer func(f func() time.Time) { flake.NowFunc = f }(flake.NowFunc)
	base := time.Date(2024, 5, 6, 7, 8, 9, 123456789, time.UTC)
	ms := time.Millisecond
	// one goroutine, clock that stalls, goes forward and goes back
	for k := 0; k < 40*v.deep; k++ {
		c := &clock{at: base}
		flake.NowFunc = c.now
		g := flake.NewIDGenerator(flake.Settings{StartTime: base.Add(-time.Duration(k) * time.Hour), MachineID: machine([]uint16{0, 1, 65535, uint16(k * 977)}[k%4])})
		var script []int
		for i := 0; i < 12; i++ {
			script = append(script, v.r.Intn(7)-3)
		}
		big := k%3 == 0
		v.try("strictly increasing", fmt.Sprint(k, script, big), func() string {
			last := flake.FirstID(g)
			issued := 0
			ask := func(n int) string {
				for i := 0; i < n; i++ {
					id := g.NextID()
					issued++
					if id <= last {
						return fmt.Sprintf("ID number %d is %d after %d", issued, id, last)
					}
					if id>>63 != 0 {
						return fmt.Sprintf("ID %d has its top bit set", id)
					}
					if flake.LastID(g) != id {
						return fmt.Sprintf("LastID %d after %d", flake.LastID(g), id)
					}
					last = id
				}
				return ""
			}
			return within(60*time.Second, func() string {
				for _, d := range script {
					c.move(time.Duration(d) * ms)
					if s := ask(1 + v.r.Intn(70)); s != "" {
						return s
					}
				}
				if big {
					// a fresh millisecond, then a clock one year back: fewer IDs than one millisecond holds
					c.move(20 * ms)
					if s := ask(3); s != "" {
						return s
					}
					c.move(-365 * 24 * time.Hour)
					if s := ask(40); s != "" {
						return s
					}
					c.move(366 * 24 * time.Hour)
					return ask(40)
				}
				return ""
			})
		})
	}
	// a clock before the start time of the generator
	{
		c := &clock{at: base}
		flake.NowFunc = c.now
		g := flake.NewIDGenerator(flake.Settings{StartTime: base.Add(-5 * ms), MachineID: machine(9)})
		v.try("clock before the start time", base, func() string {
			return within(60*time.Second, func() string {
				last := flake.LastID(g)
				c.move(-8 * ms)
				for i := 0; i < 150; i++ {
					id := g.NextID()
					if id <= last {
						return fmt.Sprintf("ID %d after %d", id, last)
					}
					last = id
				}
				return ""
			})
		})
	}
	// many goroutines, real clock and a stalled clock
	for k := 0; k < 4*v.deep; k++ {
		flake.NowFunc = time.Now
		if k%2 == 1 {
			c := &clock{at: time.Now()}
			flake.NowFunc = c.now
		}
		g := flake.NewIDGenerator(flake.Settings{StartTime: base.Add(-time.Hour), MachineID: machine(7)})
		const workers, each = 8, 200
		v.try("unique over goroutines", k, func() string {
			return within(100*time.Second, func() string {
				out := make([][]uint64, workers)
				var wg sync.WaitGroup
				for w := 0; w < workers; w++ {
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						for i := 0; i < each; i++ {
							out[w] = append(out[w], g.NextID())
							flake.LastID(g)
						}
					}(w)
				}
				wg.Wait()
				seen := map[uint64]bool{flake.FirstID(g): true}
				for w := range out {
					for i, id := range out[w] {
						if seen[id] {
							return fmt.Sprintf("ID %d handed out twice", id)
						}
						seen[id] = true
						if i > 0 && out[w][i-1] >= id {
							return fmt.Sprintf("goroutine got %d after %d", id, out[w][i-1])
						}
					}
				}
				return ""
			})
		})
	}
	// the time field runs out
	for k := 0; k < 4; k++ {
		end := base.Add((1<<41 - 1) * ms)
		c := &clock{at: end.Add(-time.Duration(k) * ms)}
		flake.NowFunc = c.now
		v.try("exhaustion panics", k, func() string {
			return within(60*time.Second, func() string {
				g := flake.NewIDGenerator(flake.Settings{StartTime: base, MachineID: machine(uint16(k))})
				last := flake.FirstID(g)
				panicked := 0
				next := func() (id uint64, p bool) {
					defer func() { p = recover() != nil }()
					return g.NextID(), false
				}
				for i := 0; i < 70*(k+1)+140; i++ {
					if i == 70*(k+1) {
						c.move(time.Duration(k+1) * ms)
					}
					id, p := next()
					if p {
						panicked++
						continue
					}
					if panicked > 0 {
						return fmt.Sprintf("ID %d handed out after the time field was exhausted", id)
					}
					if id <= last || id>>63 != 0 {
						return fmt.Sprintf("ID %d after %d", id, last)
					}
					last = id
				}
				if panicked == 0 {
					return "no panic although the time field is exhausted"
				}
				return ""
			})
		})
	}
}
