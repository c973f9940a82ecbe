// Package zzgron stands in for github.com/fakeyanss/gron: the same job table
// (append on Add, first match removed on Cancel) without the real-time timer
// goroutine. Harnesses decide when jobs fire. The real Cron funnels Add and
// Cancel through unbuffered channels to its one run goroutine, so each takes
// effect at one point; here a mutex does that.
package zzgron

import (
	"sync"
	"time"

	v "github.com/fakeyanss/jt808-server-go/internal/zzvrt"
)

type Schedule interface {
	Next(from time.Time) time.Time
}

type AtSchedule interface {
	At(t string) Schedule
	Schedule
}

type periodic struct{ period time.Duration }

func (ps periodic) Next(t time.Time) time.Time { return t.Truncate(time.Second).Add(ps.period) }
func (ps periodic) At(t string) Schedule       { return ps }

func Every(p time.Duration) AtSchedule {
	if p < time.Second {
		p = time.Second
	}
	return periodic{p}
}

type Job interface{ Run() }

type JobWithCancel interface {
	Job
	JobID() string
}

type Entry struct {
	Schedule Schedule
	Job      Job
	Next     time.Time
	Prev     time.Time
}

type baseJob struct {
	id string
	f  func()
}

func (j *baseJob) JobID() string { return j.id }
func (j *baseJob) Run()          { j.f() }

type JobFunc func()

func (j JobFunc) Run() { j() }

type Cron struct {
	mu      sync.Mutex
	entries []*Entry
	running bool
}

func New() *Cron                                                 { return &Cron{} }
func (c *Cron) Stop()                                            { c.running = false }
func (c *Cron) AddCancelingJob(s Schedule, j JobWithCancel)      { c.Add(s, j) }
func (c *Cron) AddFunc(s Schedule, j func())                     { c.Add(s, JobFunc(j)) }
func (c *Cron) AddFuncWithJobID(s Schedule, id string, j func()) { c.Add(s, &baseJob{id, j}) }

func (c *Cron) Start() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.running = true
	for _, e := range c.entries {
		e.Next = e.Schedule.Next(v.Now())
	}
}

func (c *Cron) Add(s Schedule, j Job) {
	e := &Entry{Schedule: s, Job: j}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.running { // as in the original, the next run is known once the scheduler runs
		e.Next = s.Next(v.Now())
	}
	c.entries = append(append([]*Entry(nil), c.entries...), e)
}

func (c *Cron) Entries() []*Entry {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.entries
}

func (c *Cron) Cancel(id string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	idx := -1
	for i, e := range c.entries {
		if j, ok := e.Job.(JobWithCancel); ok && j.JobID() == id {
			idx = i
			break
		}
	}
	if idx != -1 {
		c.entries = append(append([]*Entry(nil), c.entries[:idx]...), c.entries[idx+1:]...)
	}
}

// Period exposes the interval of a schedule made by Every.
func Period(s Schedule) time.Duration {
	if p, ok := s.(periodic); ok {
		return p.period
	}
	return -1
}
