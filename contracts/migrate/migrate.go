package migrate

import (
	"database/sql"
	"os"

	"github.com/effective-security/xlog"
	"github.com/golang-migrate/migrate/v4"
	"github.com/golang-migrate/migrate/v4/database"
	"github.com/golang-migrate/migrate/v4/database/postgres"
	"github.com/golang-migrate/migrate/v4/database/sqlserver"
)

// ---- migrations (C23) ----

// what a driver and a migrator were opened for
//
//govc:abstract
func dbOf(d database.Driver) *sql.DB { return nil }

//govc:abstract
func kindOf(d database.Driver) string { return "" }

//govc:abstract
func migDB(m *migrate.Migrate) *sql.DB { return nil }

//govc:abstract
func srcOf(m *migrate.Migrate) string { return "" }

// the steps asked of a database so far, as a history

//govc:ghost
func GVSteps(db *sql.DB) int { return 0 }

//govc:abstract
func opened(h int, kind, src string) int { return 0 }

//govc:abstract
func forced(h, v int) int { return 0 }

//govc:abstract
func migratedTo(h int, v uint) int { return 0 }

//govc:abstract
func upAll(h int) int { return 0 }

// whether one of the steps asked of it failed
//
//govc:ghost
func GVFailedStep(db *sql.DB) bool { return false }

// whether its version was last read as "none yet"
//
//govc:ghost
func GVNoVersion(db *sql.DB) bool { return false }

//govc:abstract
func exists(dir string) bool { return false }

//govc:extern os.Stat
func extStat(name string, fi os.FileInfo, err error) {
	gvEns("", gvIff(err == nil, exists(name)))
}

//govc:extern github.com/golang-migrate/migrate/v4/database/postgres.WithInstance
func extPgWith(db *sql.DB, cfg *postgres.Config, d database.Driver, err error) {
	gvReq(!GVFailedStep(db))
	gvModGhost("GVFailedStep", db)
	gvEns("", GVFailedStep(db) == (err != nil))
	gvEns("", gvImp(err == nil, d != nil && dbOf(d) == db && kindOf(d) == "postgres"))
}

//govc:extern github.com/golang-migrate/migrate/v4/database/sqlserver.WithInstance
func extMsWith(db *sql.DB, cfg *sqlserver.Config, d database.Driver, err error) {
	gvReq(!GVFailedStep(db))
	gvModGhost("GVFailedStep", db)
	gvEns("", GVFailedStep(db) == (err != nil))
	gvEns("", gvImp(err == nil, d != nil && dbOf(d) == db && kindOf(d) == "sqlserver"))
}

//govc:extern github.com/golang-migrate/migrate/v4.NewWithDatabaseInstance
func extNewMigrate(source, name string, d database.Driver, m *migrate.Migrate, err error) {
	gvReq(d != nil && !GVFailedStep(dbOf(d)))
	gvModGhost("GVFailedStep", dbOf(d))
	gvModGhost("GVSteps", dbOf(d))
	gvEns("", GVFailedStep(dbOf(d)) == (err != nil))
	gvEns("", GVSteps(dbOf(d)) == opened(gvOld(func() int { return GVSteps(dbOf(d)) }), kindOf(d), source))
	gvEns("", gvImp(err == nil, m != nil && gvFresh(m) && migDB(m) == dbOf(d)))
}

//govc:extern (*github.com/golang-migrate/migrate/v4.Migrate).Version
func extVersion(m *migrate.Migrate, version uint, dirty bool, err error) {
	gvReq(!GVFailedStep(migDB(m)))
	gvModGhost("GVFailedStep", migDB(m))
	gvModGhost("GVNoVersion", migDB(m))
	gvEns("", GVNoVersion(migDB(m)) == (err == migrate.ErrNilVersion))
	gvEns("", GVFailedStep(migDB(m)) == (err != nil && err != migrate.ErrNilVersion))
}

//govc:extern (*github.com/golang-migrate/migrate/v4.Migrate).Force
func extForce(m *migrate.Migrate, version int, err error) {
	gvReq(!GVFailedStep(migDB(m)))
	gvModGhost("GVFailedStep", migDB(m))
	gvModGhost("GVSteps", migDB(m))
	gvEns("", GVFailedStep(migDB(m)) == (err != nil))
	gvEns("", GVSteps(migDB(m)) == forced(gvOld(func() int { return GVSteps(migDB(m)) }), version))
}

//govc:extern (*github.com/golang-migrate/migrate/v4.Migrate).Migrate
func extMigrate(m *migrate.Migrate, version uint, err error) {
	gvReq(!GVFailedStep(migDB(m)))
	gvModGhost("GVFailedStep", migDB(m))
	gvModGhost("GVSteps", migDB(m))
	gvEns("", GVFailedStep(migDB(m)) == (err != nil && err != migrate.ErrNoChange))
	gvEns("", GVSteps(migDB(m)) == migratedTo(gvOld(func() int { return GVSteps(migDB(m)) }), version))
}

//govc:extern (*github.com/golang-migrate/migrate/v4.Migrate).Up
func extUp(m *migrate.Migrate, err error) {
	gvReq(!GVFailedStep(migDB(m)))
	gvModGhost("GVFailedStep", migDB(m))
	gvModGhost("GVSteps", migDB(m))
	gvEns("", GVFailedStep(migDB(m)) == (err != nil && err != migrate.ErrNoChange))
	gvEns("", GVSteps(migDB(m)) == upAll(gvOld(func() int { return GVSteps(migDB(m)) })))
}

//govc:extern (*github.com/effective-security/xlog.PackageLogger).KV
func extKV(l *xlog.PackageLogger, level xlog.LogLevel, kv []any) {}

// errors.Is finds its target also inside combined errors, so it says less
// than the error being the target
//
//govc:abstract
func errIs(err, target error) bool { return false }

//govc:extern github.com/cockroachdb/errors.Is
func extErrorsIs(err, target error, r bool) {
	gvEns("", r == errIs(err, target) && gvImp(err == target, r) && gvImp(err == nil && target != nil, !r))
}

//govc:extern github.com/cockroachdb/errors.WithStack
func extWithStack(err error, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:extern github.com/cockroachdb/errors.WithMessagef
func extWithMessagef(err error, format string, args []any, r error) {
	gvEns("", gvIff(r == nil, err == nil))
}

//govc:extern github.com/cockroachdb/errors.WithMessage
func extWithMessage(err error, msg string, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:extern github.com/cockroachdb/errors.Wrap
func extWrap(err error, msg string, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:extern github.com/cockroachdb/errors.Wrapf
func extWrapf(err error, format string, args []any, r error) { gvEns("", gvIff(r == nil, err == nil)) }

//govc:extern github.com/cockroachdb/errors.Errorf
func extErrorf(format string, args []any, err error) { gvEns("", err != nil) }

//govc:extern github.com/cockroachdb/errors.New
func extNew(msg string, err error) { gvEns("", err != nil) }

func providerKind(provider string) string {
	if provider == "sqlserver" {
		return "sqlserver"
	}
	return "postgres"
}

func forceStep(h, force int) int {
	if force > 0 {
		return forced(h, force)
	}
	return h
}

func migrateStep(h, to int) int {
	if to > 0 {
		return migratedTo(h, uint(to))
	}
	return upAll(h)
}

//govc:contract Migrate
//govc:prop C23
func spMigrate(provider, dbName, migrationsDir string, forceVersion, migrateVersion int, db *sql.DB, err error) {
	gvReq(db != nil && !GVFailedStep(db))
	gvModGhost("GVFailedStep", db)
	gvModGhost("GVNoVersion", db)
	gvModGhost("GVSteps", db)
	known := provider == "postgres" || provider == "pgsql" || provider == "sqlserver"
	h0 := gvOld(func() int { return GVSteps(db) })
	h1 := opened(h0, providerKind(provider), "file://"+migrationsDir)
	h2 := forceStep(h1, forceVersion)
	h3 := migrateStep(h2, migrateVersion)
	h := GVSteps(db)
	gvEns("no directory, nothing to do", gvImp(migrationsDir == "", err == nil && h == h0))
	gvEns("a failed step is an error", gvImp(GVFailedStep(db), err != nil))
	gvEns("an unsupported provider or a missing directory is an error", gvImp(migrationsDir != "" && (!known || !exists(migrationsDir)), err != nil && h == h0))
	gvEns("success means every requested step was made", gvImp(err == nil && migrationsDir != "", h == h3))
	gvEns("nothing else is made", h == h0 || h == h1 || h == h2 || h == h3)
	gvEns("no failed step, no error", gvImp(err != nil && known && exists(migrationsDir), GVFailedStep(db) || GVNoVersion(db)))
}
