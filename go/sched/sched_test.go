package sched

import (
	"fmt"
	"strings"
	"testing"
	"time"
)

func all(t *testing.T, bound int, body func(), judge func(*Outcome) string) (Stats, *Violation) {
	t.Helper()
	return Explore(Config{Horizon: 5 * time.Second}, bound, time.Now().Add(30*time.Second), body, judge, nil)
}

func none(o *Outcome) string { return o.Fail }

func TestOutcomes(t *testing.T) {
	// two unbuffered senders, one receiver: both orders
	got := map[string]int{}
	var res string
	st, v := all(t, -1, func() {
		res = ""
		c := Made(make(chan int))
		for i := 1; i <= 3; i++ {
			Go(func() { SendTo[int](c)(i) })
		}
		for i := 0; i < 3; i++ {
			res += fmt.Sprint(Recv[int](c))
		}
		got[res]++
	}, none)
	t.Log(st, got)
	if v != nil || len(got) != 6 || !st.Complete {
		t.Fatal(v, got, st)
	}
}

func TestDeadlock(t *testing.T) {
	n := 0
	st, v := all(t, -1, func() {
		var a, b Mutex
		d := Made(make(chan int, 2))
		Go(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); SendTo[int](d)(1) })
		Go(func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); SendTo[int](d)(1) })
		Recv[int](d)
		Recv[int](d)
		n++
	}, none)
	t.Log(st, v)
	if v == nil {
		t.Fatal("no deadlock found")
	}
}

func TestLostUpdate(t *testing.T) {
	for bound := 0; bound < 3; bound++ {
		got := map[int]int{}
		st, v := all(t, bound, func() {
			x := 0
			var wg WaitGroup
			wg.Add(2)
			for i := 0; i < 2; i++ {
				Go(func() {
					Point(nil2, false, "read")
					y := x
					Point(nil2, true, "write")
					x = y + 1
					wg.Done()
				})
			}
			wg.Wait()
			got[x]++
		}, none)
		t.Log(bound, st, got)
		if v != nil {
			t.Fatal(v)
		}
		if bound == 2 && (got[1] == 0 || got[2] == 0) {
			t.Fatal(got)
		}
	}
}

func TestSelectDefault(t *testing.T) {
	got := map[string]int{}
	st, v := all(t, -1, func() {
		c := Made(make(chan int))
		Go(func() { SendTo[int](c)(1) })
		i, r := Select(true, CaseRecv[int](c))
		got[fmt.Sprint(i, Val[int](c, r))]++
	}, none)
	t.Log(st, got)
	if v != nil || len(got) != 2 {
		t.Fatal(got)
	}
}

func TestTicker(t *testing.T) {
	got := map[string]int{}
	st, v := all(t, -1, func() {
		k := NewTicker(time.Second)
		c := Made(make(chan int))
		Go(func() {
			for i := 0; i < 3; i++ {
				Sleep(700 * time.Millisecond)
				SendTo[int](c)(i)
			}
		})
		s := ""
		for n := 0; n < 4; n++ {
			i, r := Select(false, CaseRecv(k.C), CaseRecv[int](c))
			if i == 0 {
				s += fmt.Sprintf("T%v ", Val(k.C, r).UnixNano()-epoch)
			} else {
				s += fmt.Sprintf("%d ", Val[int](c, r))
			}
		}
		got[s]++
	}, none)
	t.Log(st, got)
	if v != nil && !strings.HasPrefix(v.What, "deadlock") {
		t.Fatal(v)
	}
}

func TestRW(t *testing.T) {
	got := map[string]int{}
	st, v := all(t, -1, func() {
		var m RWMutex
		var wg WaitGroup
		s, in, maxIn := "", 0, 0
		wg.Add(3)
		for i := 0; i < 2; i++ {
			Go(func() {
				m.RLock()
				if in++; in > maxIn {
					maxIn = in
				}
				Point(nil2, false, "inside")
				in--
				m.RUnlock()
				wg.Done()
			})
		}
		Go(func() { m.Lock(); s += fmt.Sprint("w", in); m.Unlock(); wg.Done() })
		wg.Wait()
		got[fmt.Sprint(s, maxIn)]++
	}, none)
	t.Log(st, got)
	if v != nil || got["w02"] == 0 || got["w01"] == 0 || len(got) != 2 {
		t.Fatal(v, got)
	}
}

func TestIdle(t *testing.T) {
	got := map[string]int{}
	st, v := all(t, -1, func() {
		x := 0
		c := Made(make(chan int))
		Go(func() { SendTo[int](c)(1); x = 1 })
		Go(func() { Recv[int](c); Sleep(time.Second); x += 10 })
		Go(func() { Recv[int](Made(make(chan int))) })
		WaitIdle()
		got[fmt.Sprint(x, len(Blocked()))]++
	}, none)
	t.Log(st, got)
	if v != nil || len(got) != 1 || got["11 1"] == 0 {
		t.Fatal(v, got)
	}
}

func TestPanic(t *testing.T) {
	_, v := all(t, -1, func() {
		c := Made(make(chan int))
		Go(func() { defer func() { Recv[int](c) }(); Close[int](c) })
		Go(func() { Close[int](c) })
		WaitIdle()
	}, none)
	if v == nil {
		t.Fatal("not found")
	}
	t.Log(v.What[:40], v.Schedule)
}

// the cache of states must not lose outcomes
func TestCache(t *testing.T) {
	run := func(bound int) (map[string]int, Stats) {
		got := map[string]int{}
		st, v := Explore(Config{Horizon: 2 * time.Second}, bound, time.Now().Add(200*time.Second), func() {
			var m Mutex
			s := ""
			c := Made(make(chan int, 1))
			d := Made(make(chan int))
			k := NewTicker(time.Second)
			Go(func() {
				for i := 0; i < 2; i++ {
					SendTo[int](c)(i)
				}
			})
			Go(func() {
				for i := 0; i < 2; i++ {
					i, r := Select(false, CaseRecv[int](c), CaseRecv(k.C))
					v := 10 + i
					if i == 0 {
						v = Val[int](c, r)
					}
					m.Lock()
					s += fmt.Sprint("s", v)
					m.Unlock()
				}
				SendTo[int](d)(1)
			})
			Go(func() {
				m.Lock()
				s += "m"
				m.Unlock()
				Sleep(700 * time.Millisecond)
				m.Lock()
				s += "n"
				m.Unlock()
			})
			Recv[int](d)
			m.Lock()
			s += "e"
			got[s]++
			m.Unlock()
		}, func(o *Outcome) string { return "" }, nil)
		if v != nil {
			t.Fatal(v)
		}
		return got, st
	}
	for bound := 0; bound < 4; bound++ {
		a, sa := run(bound)
		NoCache = true
		b, sb := run(bound)
		NoCache = false
		t.Log(bound, len(a), sa, len(b), sb)
		for k := range b {
			if a[k] == 0 {
				t.Error("lost", bound, k)
			}
		}
	}
}

func TestMany(t *testing.T) {
	// more goroutines, timers and channels than are kept at once
	n := 0
	st, v := all(t, 0, func() {
		n = 0
		tick := NewTimer(time.Hour)
		for i := 0; i < 1000; i++ {
			c := Made(make(chan int))
			Go(func() { SendTo[int](c)(i) })
			n += Recv[int](c)
			After(time.Hour)
		}
		open := Made(make(chan int))
		for i := 0; i < 300; i++ {
			Go(func() { Recv[int](open) })
		}
		if len(Blocked()) < 300 {
			Fail("%d blocked", len(Blocked()))
		}
		tick.Reset(time.Second)
		Recv(tick.C)
	}, none)
	t.Log(st, n)
	if v != nil || n != 499500 {
		t.Fatal(v, n)
	}
}
