package flake

import (
	"hash"
	"net"
	"os"
	"time"

	"github.com/effective-security/xlog"
)

// ---- the clock, known only as arbitrary instants ----

// nanoseconds since 1970 of a time, and whether its location is UTC

//govc:abstract
func tNano(t time.Time) int64 { return 0 }

//govc:abstract
func tIsUTC(t time.Time) bool { return false }

//govc:abstract
func tZero(t time.Time) bool { return false }

// Go's UnixNano is exact for times between the years 1678 and 2262
//
//govc:extern (time.Time).UnixNano
//govc:pure
func extUnixNano(t time.Time, r int64) { gvEns("", r == tNano(t)) }

//govc:extern time.Unix
//govc:pure
func extUnix(sec int64, nsec int64, r time.Time) {
	gvReq(sec == 0)
	gvEns("", tNano(r) == nsec)
}

//govc:extern (time.Time).UTC
//govc:pure
func extUTC(t time.Time, r time.Time) { gvEns("", tNano(r) == tNano(t) && tIsUTC(r)) }

//govc:extern time.UnixMilli
//govc:pure
func extUnixMilli(ms int64, r time.Time) {
	gvEns("", gvImp(ms >= -9223372036854 && ms <= 9223372036854, tNano(r) == ms*1000000))
}

//govc:extern (time.Time).IsZero
//govc:pure
func extIsZero(t time.Time, r bool) { gvEns("", r == tZero(t)) }

//govc:extern (time.Time).After
//govc:pure
func extAfter(t, u time.Time, r bool) {}

//govc:extern (time.Time).Format
//govc:pure
func extFormat(t time.Time, l string, r string) {}

//govc:extern time.Sleep
func extSleep(d time.Duration) {}

//govc:funcval github.com/effective-security/xdb/pkg/flake.NowFunc
func fvNow(r time.Time) {}

//govc:iface (github.com/effective-security/xlog.KeyValueLogger).Panic
func ifPanic(l xlog.KeyValueLogger, args []any) { gvPanics(true) }

//govc:extern (*github.com/effective-security/xlog.PackageLogger).Panic
func extPanic(l *xlog.PackageLogger, args []any) { gvPanics(true) }

//govc:extern (*github.com/effective-security/xlog.PackageLogger).Panicf
func extPanicf(l *xlog.PackageLogger, f string, args []any) { gvPanics(true) }

//govc:extern (*github.com/effective-security/xlog.PackageLogger).KV
func extKV(l *xlog.PackageLogger, lv xlog.LogLevel, args []any) {}

// ---- uniqueness and order (C01) ----

//govc:monitor Flake mutex elapsedTime sequence maxSequence lastID
func flakeInv(sf *Flake) bool {
	return sf.elapsedTime >= 0 && gvAssume("fewer than 2^62 IDs are asked of one generator", sf.elapsedTime < 1<<62) && sf.sequence <= 63 &&
		(sf.elapsedTime >= 1<<41 || gvInt(sf.lastID) <= gvInt(sf.elapsedTime)*4194304+gvInt(sf.sequence)*65536+gvInt(sf.machineID))
}

//govc:monitorstep Flake
func flakeStep(sf *Flake) bool {
	return sf.lastID >= gvOld(func() uint64 { return sf.lastID })
}

func startOK(sf *Flake) bool {
	return sf.startTime >= -9300000000000 && sf.startTime <= 9300000000000
}

//govc:contract (*Flake).toID
//govc:prop C01 C02
//govc:mode bv
func spToID(sf *Flake, r uint64) {
	gvReq(sf != nil && gvHolds(sf))
	gvReq(sf.elapsedTime >= 0 && sf.sequence <= 63)
	gvPanics(sf.elapsedTime >= 1<<41)
	gvEns("time, sequence and machine in their own bits", r == uint64(sf.elapsedTime)*4194304+uint64(sf.sequence)*65536+uint64(sf.machineID))
	gvEns("top bit clear", r < 1<<63)
}

//govc:contract (*Flake).NextID
//govc:prop C01
func spNextID(sf *Flake, r uint64) {
	gvReq(sf != nil && flakeInv(sf) && startOK(sf) && NowFunc != nil)
	gvMod(sf)
	gvMayPanic()
	gvEns("greater than every ID before", r > gvAtLock(func() uint64 { return sf.lastID }))
	gvEns("remembered as the most recent ID", sf.lastID == r)
	gvEns("top bit clear", r < 1<<63)
	gvEns("the generator stays usable", flakeInv(sf))
	gvEns("start, machine and first ID stay", sf.startTime == gvOld(func() int64 { return sf.startTime }) && sf.machineID == gvOld(func() uint16 { return sf.machineID }) && sf.firstID == gvOld(func() uint64 { return sf.firstID }))
}

// ---- fields, times, first and last ID (C02) ----

//govc:contract Decompose
//govc:prop C02
//govc:mode bv
func spDecompose(id uint64, r map[string]uint64) {
	gvEns("the ID itself", r["id"] == id)
	gvEns("machine number", r["machine_id"] == id%65536)
	gvEns("sequence number", r["sequence"] == id/65536%64)
	gvEns("millisecond count", r["time"] == id/4194304)
	gvEns("top bit", r["msb"] == id/9223372036854775808)
	_, a := r["id"]
	_, b := r["machine_id"]
	_, c := r["sequence"]
	_, d := r["time"]
	_, e := r["msb"]
	gvEns("all fields are present", a && b && c && d && e)
}

// what toID builds is what Decompose takes apart
//
//govc:lemma fieldsRoundTrip
//govc:prop C02
//govc:mode bv
func lmFields(time uint64, seq uint64, machine uint64) {
	gvReq(time < 1<<41 && seq < 64 && machine < 65536)
	id := time*4194304 + seq*65536 + machine
	gvEns("machine", id%65536 == machine)
	gvEns("sequence", id/65536%64 == seq)
	gvEns("time", id/4194304 == time)
	gvEns("top bit", id < 1<<63)
}

func startOf(g IDGenerator) int64 {
	if fl, ok := g.(*Flake); ok {
		return fl.startTime
	}
	return 0
}

//govc:contract IDTime
//govc:prop C02
func spIDTime(g IDGenerator, id uint64, r time.Time) {
	fl, ok := g.(*Flake)
	gvReq(!ok || fl != nil)
	start := startOf(g)
	at := start + int64(id/4194304)
	fits := id < 1<<63 && start >= -9223372036854 && start <= 9223372036854 && at >= -9223372036854 && at <= 9223372036854
	gvEns("the start time plus the millisecond count", gvImp(fits, tNano(r) == at*1000000))
	gvEns("in UTC", tIsUTC(r))
}

//govc:contract FirstID
//govc:prop C02
func spFirstID(g IDGenerator, r uint64) {
	fl, ok := g.(*Flake)
	gvReq(!ok || fl != nil)
	gvEns("the first ID", gvImp(ok, r == fl.firstID))
}

//govc:contract LastID
//govc:prop C01 C02
func spLastID(g IDGenerator, r uint64) {
	fl, ok := g.(*Flake)
	gvReq(!ok || fl != nil)
	gvReq(!ok || flakeInv(fl))
	gvEns("the most recent ID", gvImp(ok, r == gvAtLock(func() uint64 { return fl.lastID })))
}

//govc:funcval (github.com/effective-security/xdb/pkg/flake.Settings).MachineID
func fvMachine(id uint16, err error) { gvMayPanic() }

//govc:funcval (github.com/effective-security/xdb/pkg/flake.Settings).CheckMachineID
func fvCheck(id uint16, ok bool) { gvMayPanic() }

// ---- the default machine number: some number ----

//govc:extern hash/fnv.New32a
func extNew32a(r hash.Hash32) { gvEns("", r != nil) }

//govc:iface (io.Writer).Write
func ifWrite(w hash.Hash32, p []byte, n int, err error) {}

//govc:iface (hash.Hash32).Sum32
func ifSum32(w hash.Hash32, n uint32) {}

// every address the system reports is a non-nil one
//
//govc:extern net.InterfaceAddrs
func extAddrs(r []net.Addr, err error) {
	gvEns("", gvAll(func(i int) bool {
		return gvImp(i >= 0 && i < len(r), addrOK(r[i]))
	}))
}

func addrOK(a net.Addr) bool {
	n, ok := a.(*net.IPNet)
	return !ok || n != nil
}

//govc:extern (net.IP).IsLoopback
func extLoop(ip net.IP, r bool) {}

//govc:extern (net.IP).To16
func extTo16(ip net.IP, r net.IP) { gvEns("", len(r) == 16) }

// the interface a program name is read through
//
//govc:contract machineIDFromProgram
//govc:prop C01 C02
func spProg(r uint16) { gvReq(len(os.Args) > 0) }

//govc:contract IsTestRun
//govc:prop C01 C02
func spIsTest(r bool) { gvReq(len(os.Args) > 0) }

//govc:contract defaultMachineID
//govc:prop C01 C02
func spDefault(id uint16, err error) { gvReq(len(os.Args) > 0) }

//govc:contract NewIDGenerator
//govc:prop C01 C02
func spNew(st Settings, r IDGenerator) {
	gvReq(NowFunc != nil && len(os.Args) > 0)
	gvMayPanic()
	fl, ok := r.(*Flake)
	gvEns("a generator of this package", ok && fl != nil)
	gvEns("a new one", gvFresh(fl))
	gvEns("with the invariant of the monitor", flakeInv(fl) && startOK(fl))
	gvEns("its first ID is its last ID", fl.firstID == fl.lastID)
	gvEns("its start time", fl.startTime == gvIte(tZero(st.StartTime), tNano(DefaultStartTime)/1000000, tNano(st.StartTime)/1000000))
}
