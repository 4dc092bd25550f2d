// Package sqlx is a stand-in for github.com/jmoiron/sqlx that hands every
// statement to the harness. It has what moco uses, and a little more.
package sqlx

import (
	"context"
	"database/sql"
	"errors"
	"time"
)

// Handler is the database server.
type Handler interface {
	Open(dsn string) error
	Exec(q string, args []any) error
	Named(q string, arg any) error
	Get(dest any, q string, args []any) error
	Select(dest any, q string, args []any) error
	Ping() error
	Close() error
}

// H handles everything.
var H Handler

// DB is a database handle.
type DB struct{ closed bool }

type result struct{}

func (result) LastInsertId() (int64, error) { return 0, errors.New("no id") }
func (result) RowsAffected() (int64, error) { return 0, nil }

var errClosed = errors.New("sql: database is closed")

func Open(driver, dsn string) (*DB, error) {
	if err := H.Open(dsn); err != nil {
		return nil, err
	}
	return &DB{}, nil
}

func Connect(driver, dsn string) (*DB, error) {
	db, err := Open(driver, dsn)
	if err != nil {
		return nil, err
	}
	return db, db.Ping()
}

func (db *DB) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) {
	if err := db.ok(ctx); err != nil {
		return nil, err
	}
	if err := H.Exec(q, args); err != nil {
		return nil, err
	}
	return result{}, nil
}

func (db *DB) ok(ctx context.Context) error {
	if db.closed {
		return errClosed
	}
	return ctx.Err()
}

func (db *DB) Exec(q string, args ...any) (sql.Result, error) {
	return db.ExecContext(context.Background(), q, args...)
}

func (db *DB) MustExec(q string, args ...any) sql.Result {
	r, err := db.Exec(q, args...)
	if err != nil {
		panic(err)
	}
	return r
}

func (db *DB) MustExecContext(ctx context.Context, q string, args ...any) sql.Result {
	r, err := db.ExecContext(ctx, q, args...)
	if err != nil {
		panic(err)
	}
	return r
}

func (db *DB) NamedExecContext(ctx context.Context, q string, arg any) (sql.Result, error) {
	if err := db.ok(ctx); err != nil {
		return nil, err
	}
	if err := H.Named(q, arg); err != nil {
		return nil, err
	}
	return result{}, nil
}

func (db *DB) NamedExec(q string, arg any) (sql.Result, error) {
	return db.NamedExecContext(context.Background(), q, arg)
}

func (db *DB) GetContext(ctx context.Context, dest any, q string, args ...any) error {
	if err := db.ok(ctx); err != nil {
		return err
	}
	return H.Get(dest, q, args)
}

func (db *DB) Get(dest any, q string, args ...any) error {
	return db.GetContext(context.Background(), dest, q, args...)
}

func (db *DB) SelectContext(ctx context.Context, dest any, q string, args ...any) error {
	if err := db.ok(ctx); err != nil {
		return err
	}
	return H.Select(dest, q, args)
}

func (db *DB) Select(dest any, q string, args ...any) error {
	return db.SelectContext(context.Background(), dest, q, args...)
}

func (db *DB) PingContext(ctx context.Context) error {
	if err := db.ok(ctx); err != nil {
		return err
	}
	return H.Ping()
}

func (db *DB) Ping() error { return db.PingContext(context.Background()) }

func (db *DB) Close() error {
	db.closed = true
	return H.Close()
}

func (db *DB) SetMaxIdleConns(n int)              {}
func (db *DB) SetMaxOpenConns(n int)              {}
func (db *DB) SetConnMaxIdleTime(d time.Duration) {}
func (db *DB) SetConnMaxLifetime(d time.Duration) {}
