package notifier

//verif:race

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/lib/pq"
)

type connProvider struct {
	xdb.Provider
	cs string
}

func (p connProvider) ConnectionString() string { return p.cs }

func payloads(v *vrun) []string {
	ps := []string{"", "{}", "[]", " {} ", "null", "{\"a\":1}", "{\"a\":1", "[1,2]", "{\"a\":{\"b\":[1,null,\"x\"]}}", "plain text", "\"s\"", "12", "true",
		"{\"a\":1}{\"b\":2}", "{\"a\":1} x", "{\"a\":1,\"a\":2}", "{\"ü\":\"ñ\\u0000\"}", "{\"a\":1e999}", "{\"n\":12345678901234567890}", "{'a':1}", "{\"a\":\"\\ud800\"}", "\xff{\"a\":1}", "{\"\":\"\"}", "{ }", "[ ]", "{}\n", "{\"A\":1,\"a\":2}"}
	for i := 0; i < 100*v.deep; i++ {
		m := map[string]any{}
		for j := v.r.Intn(4); j > 0; j-- {
			m[fmt.Sprint("k", v.r.Intn(5))] = []any{1.5, "x", nil, true, map[string]any{"y": 2.0}, []any{}}[v.r.Intn(6)]
		}
		b, _ := json.Marshal(m)
		s := string(b)
		if v.r.Intn(4) == 0 {
			s = s[:v.r.Intn(len(s)+1)]
		}
		ps = append(ps, s)
	}
	return ps
}

func payloadProblem(n *Notification, channel, raw string) string {
	if n == nil {
		return "no notification"
	}
	if n.Channel != channel || n.RawPayload != raw {
		return fmt.Sprintf("channel %q payload %q", n.Channel, n.RawPayload)
	}
	var want map[string]any
	if json.Unmarshal([]byte(raw), &want) == nil && len(want) > 0 {
		if !reflect.DeepEqual(map[string]any(n.Payload), want) {
			return fmt.Sprintf("parsed as %v, want %v", n.Payload, want)
		}
	} else if json.Valid([]byte(raw)) && len(n.Payload) > 0 && want == nil {
		var x any
		if json.Unmarshal([]byte(raw), &x) == nil {
			return fmt.Sprintf("not an object, parsed as %v", n.Payload)
		}
	} else if !json.Valid([]byte(raw)) && len(n.Payload) > 0 {
		return fmt.Sprintf("malformed, parsed as %v", n.Payload)
	}
	return ""
}

func TestVerifC27(t *testing.T) {
	v := vnew(t)
	ps := payloads(v)
	for _, s := range ps {
		for _, ch := range []string{"topic", "", "Ünï \"x\""} {
			v.try("payload", fmt.Sprintf("%q %q", ch, s), func() string {
				in := &pq.Notification{BePid: 1, Channel: ch, Extra: s}
				what := payloadProblem(parsePayload(in), ch, s)
				if in.Channel != ch || in.Extra != s {
					what = "the received notification is changed"
				}
				return what
			})
		}
	}

	srv, err := newPGServer()
	if err != nil {
		t.Skip("no loopback network: ", err)
	}
	defer srv.close()
	for round := 0; round < 4*v.deep; round++ {
		topics := []string{"one", "Two words", "three\"q", "four"}[:1+v.r.Intn(4)]
		n := 10 + v.r.Intn(30)
		seed := v.r.Int63()
		v.try("delivery", fmt.Sprintf("%d topics, %d notifications, %d", len(topics), n, seed), func() string {
			l := NewListener(connProvider{cs: "postgres://u:p@" + srv.addr() + "/d?sslmode=disable"}, time.Millisecond, time.Second)
			defer l.Close()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var mu sync.Mutex
			got := map[string][]*Notification{}
			for _, tp := range topics {
				tp := tp
				if err := l.Listen(ctx, tp, func(n *Notification) {
					mu.Lock()
					defer mu.Unlock()
					got[tp] = append(got[tp], n)
				}); err != nil {
					return "listen: " + err.Error()
				}
			}
			if err := l.Listen(ctx, topics[0], func(*Notification) {
				mu.Lock()
				defer mu.Unlock()
				got["again"] = append(got["again"], nil)
			}); err == nil {
				return "a second listener of a topic is accepted"
			}
			want := map[string][]string{}
			total := 0
			for i := 0; i < n; i++ {
				tp := topics[v.r.Intn(len(topics))]
				s := ps[v.r.Intn(len(ps))]
				if s == "" || s[0] == 0xff {
					s = "x"
				}
				if srv.notify(tp, s) == 1 {
					want[tp] = append(want[tp], s)
					total++
				}
			}
			if total != n {
				return fmt.Sprintf("listening to %d of %d", total, n)
			}
			for k := 0; k < 500; k++ {
				mu.Lock()
				c := 0
				for _, g := range got {
					c += len(g)
				}
				mu.Unlock()
				if c >= total {
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			mu.Lock()
			defer mu.Unlock()
			if len(got["again"]) > 0 {
				return "delivered to the callback that was refused"
			}
			for _, tp := range topics {
				if len(got[tp]) != len(want[tp]) {
					return fmt.Sprintf("topic %q: %d notifications delivered to its callback, %d sent", tp, len(got[tp]), len(want[tp]))
				}
				// two goroutines may hand over the notifications of one topic; each arrives once
				left := map[string]int{}
				for _, s := range want[tp] {
					left[s]++
				}
				for _, g := range got[tp] {
					if what := payloadProblem(g, tp, g.RawPayload); what != "" {
						return what
					}
					if left[g.RawPayload]--; left[g.RawPayload] < 0 {
						return fmt.Sprintf("topic %q: %q delivered and not sent", tp, g.RawPayload)
					}
				}
			}
			return ""
		})
	}
}
