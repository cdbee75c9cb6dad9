// Package pq stands in for the PostgreSQL driver: it registers "postgres" with
// database/sql and answers queries from simulated databases, whose faults and
// concurrent clients are decided by the simulator.
package pq

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
)

// Error is an error reported by the server.
type Error struct {
	Code    string
	Message string
}

func (e *Error) Error() string { return "pq: " + e.Message }

// Table is a table of the database.
type Table struct {
	Columns []string
	Rows    [][]Datum
}

// Datum is a value: nil, int64, string, bool, time.Time or *big.Rat.
type Datum interface{}

// State is the committed state of a database.
type State map[string]*Table

// Database is a simulated database.
type Database struct {
	State State // replaced, never modified, by those who commit
	// On is called before every step of a connection: connect, ping, begin,
	// query, row, exec, commit, rollback. It may commit for other clients, and it may fail.
	On func(op, detail string) error
	// Order chooses an order for n rows that the query leaves unordered.
	Order func(n int) []int

	mu      sync.Mutex
	open    int // connections
	opened  int
	rows    int // result sets not closed
	txs     int
	Unknown string // a query that the simulation does not understand
}

// Dial finds the database of a data source name.
var Dial func(dsn string) (*Database, error)

// Open tells how many connections, result sets and transactions are open.
func (d *Database) Open() (conns, rows, txs int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.open, d.rows, d.txs
}

// Opened tells how many connections were ever made.
func (d *Database) Opened() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.opened
}

func (d *Database) add(p *int, n int) {
	d.mu.Lock()
	*p += n
	d.mu.Unlock()
}

func (d *Database) on(op, detail string) error {
	if d.On == nil {
		return nil
	}
	return d.On(op, detail)
}

// Driver is the driver.
type Driver struct{}

func init() { sql.Register("postgres", &Driver{}) }

// Open connects.
func (*Driver) Open(name string) (driver.Conn, error) {
	if Dial == nil {
		return nil, errors.New("dial tcp: connection refused")
	}
	d, err := Dial(name)
	if err != nil {
		return nil, err
	}
	if err := d.on("connect", ""); err != nil {
		return nil, err
	}
	d.add(&d.open, 1)
	d.add(&d.opened, 1)
	return &conn{d: d}, nil
}

type conn struct {
	d      *Database
	closed bool
	bad    bool
	tx     bool
	snap   bool // transactions read from one snapshot
	state  State
}

func (c *conn) check() error {
	if c.closed || c.bad {
		return driver.ErrBadConn
	}
	return nil
}

// fail notes errors after which the connection is useless.
func (c *conn) fail(err error) error {
	if err == nil {
		return nil
	}
	if _, ok := err.(*Error); !ok {
		c.bad = true
	}
	return err
}

func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		c.d.add(&c.d.open, -1)
		if c.tx {
			c.tx = false
			c.d.add(&c.d.txs, -1)
		}
	}
	return nil
}

func (c *conn) Ping(ctx context.Context) error {
	if err := c.check(); err != nil {
		return err
	}
	return c.fail(c.d.on("ping", ""))
}

func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.check(); err != nil {
		return nil, err
	}
	switch sql.IsolationLevel(o.Isolation) {
	case sql.LevelDefault, sql.LevelReadUncommitted, sql.LevelReadCommitted:
		c.snap = false
	case sql.LevelRepeatableRead, sql.LevelSerializable:
		c.snap = true
	default:
		return nil, fmt.Errorf("pq: isolation level not supported: %d", o.Isolation)
	}
	if err := c.fail(c.d.on("begin", "")); err != nil {
		return nil, err
	}
	c.begin()
	return &tx{c}, nil
}

func (c *conn) begin() {
	if !c.tx {
		c.tx = true
		c.d.add(&c.d.txs, 1)
	}
	c.state = nil
}

func (c *conn) end() {
	if c.tx {
		c.tx = false
		c.d.add(&c.d.txs, -1)
	}
	c.state = nil
}

type tx struct{ c *conn }

func (t *tx) Commit() error {
	t.c.end()
	if err := t.c.check(); err != nil {
		return err
	}
	return t.c.fail(t.c.d.on("commit", ""))
}

func (t *tx) Rollback() error {
	t.c.end()
	return nil
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	if err := c.check(); err != nil {
		return nil, err
	}
	return &stmt{c, q}, nil
}

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.exec(s.q)
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) { return s.c.query(s.q, a) }

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	return c.exec(q)
}

func (c *conn) exec(q string) (driver.Result, error) {
	if err := c.check(); err != nil {
		return nil, err
	}
	if err := c.fail(c.d.on("exec", q)); err != nil {
		return nil, err
	}
	u := strings.ToUpper(strings.Join(strings.Fields(strings.TrimRight(strings.TrimSpace(q), ";")), " "))
	switch {
	case strings.HasPrefix(u, "BEGIN"), strings.HasPrefix(u, "START TRANSACTION"):
		c.begin()
		c.snap = strings.Contains(u, "REPEATABLE READ") || strings.Contains(u, "SERIALIZABLE")
	case strings.HasPrefix(u, "SET TRANSACTION"), strings.HasPrefix(u, "SET SESSION CHARACTERISTICS"):
		if strings.Contains(u, "REPEATABLE READ") || strings.Contains(u, "SERIALIZABLE") {
			c.snap = true
		}
	case strings.HasPrefix(u, "COMMIT"), strings.HasPrefix(u, "ROLLBACK"), u == "END":
		c.end()
	case strings.HasPrefix(u, "SET "):
	default:
		c.d.Unknown = q
		return nil, &Error{"0A000", "statement not simulated: " + q}
	}
	return driver.RowsAffected(0), nil
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	var v []driver.Value
	for _, x := range a {
		v = append(v, x.Value)
	}
	return c.query(q, v)
}

func (c *conn) query(q string, args []driver.Value) (driver.Rows, error) {
	if err := c.check(); err != nil {
		return nil, err
	}
	if err := c.fail(c.d.on("query", strings.Join(strings.Fields(q), " "))); err != nil {
		return nil, err
	}
	st := c.d.State
	if c.tx && c.snap {
		if c.state == nil {
			c.state = c.d.State
		}
		st = c.state
	}
	cols, data, err := runSQL(st, q, args, c.d.Order)
	if err != nil {
		if _, ok := err.(*Error); !ok {
			c.d.Unknown = q + ": " + err.Error()
			err = &Error{"0A000", err.Error()}
		}
		return nil, err
	}
	c.d.add(&c.d.rows, 1)
	return &rows{c: c, cols: cols, data: data}, nil
}

type rows struct {
	c      *conn
	cols   []string
	data   [][]Datum
	at     int
	closed bool
}

func (r *rows) Columns() []string { return r.cols }

func (r *rows) Close() error {
	if !r.closed {
		r.closed = true
		r.c.d.add(&r.c.d.rows, -1)
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) error {
	if r.c.closed {
		return driver.ErrBadConn
	}
	if err := r.c.fail(r.c.d.on("row", fmt.Sprint(r.at))); err != nil {
		return err
	}
	if r.at >= len(r.data) {
		return io.EOF
	}
	for i, v := range r.data[r.at] {
		if e, ok := v.(*Error); ok { // evaluating this row failed on the server
			return e
		}
		dest[i] = out(v)
	}
	r.at++
	return nil
}
