package notifier

import (
	"github.com/effective-security/x/values"
	"github.com/effective-security/xlog"
	"github.com/lib/pq"
)

// ---- notifications (C27) ----

// the text is a JSON object (or null, which has no entries), and its entries

//govc:abstract
func isObject(s string) bool { return false }

//govc:abstract
func objHas(s, k string) bool { return false }

//govc:abstract
func objVal(s, k string) any { return nil }

// facts about JSON texts
//
//govc:axiom
func axJSON() bool {
	return isObject("{}") && !isObject("") && !isObject("[]") && gvAll(func(k string) bool { return !objHas("{}", k) })
}

//govc:extern encoding/json.Unmarshal
func extUnmarshal(data []byte, v any, err error) {
	if p, ok := v.(*values.MapAny); ok {
		gvMod(p)
		gvEns("", gvIff(err == nil, isObject(string(data))))
		gvEns("", gvImp(err == nil && gvOld(func() bool { return *p == nil }), holds(*p, string(data))))
	}
}

func holds(m values.MapAny, s string) bool {
	return gvAll(func(k string) bool {
		x, ok := m[k]
		return ok == objHas(s, k) && gvImp(ok, x == objVal(s, k))
	})
}

//govc:iface (error).Error
func ifError(err error, r string) {}

//govc:extern (*github.com/effective-security/xlog.PackageLogger).KV
func extKV(l *xlog.PackageLogger, level xlog.LogLevel, kv []any) {}

//govc:contract parsePayload
//govc:prop C27
func spParsePayload(in *pq.Notification, n *Notification) {
	gvReq(in != nil)
	gvEns("never lost", n != nil && gvFresh(n))
	gvEns("its channel and payload unchanged", n.Channel == in.Channel && n.RawPayload == in.Extra)
	gvEns("an object is parsed", gvImp(isObject(in.Extra), holds(n.Payload, in.Extra)))
}
