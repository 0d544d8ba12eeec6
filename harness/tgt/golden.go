package tgt

import (
	"sync"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
	"verif/harness/ref"
)

var (
	goldenOnce sync.Once
	libTest    *Lib
	libRaft    *Lib
)

func golden() {
	goldenOnce.Do(func() {
		var err error
		libTest, err = NewLib(ref.Test(), Registry{
			"TestMessage": func() interface{} { return new(testzeropb.TestMessage) }})
		if err != nil {
			panic(err)
		}
		libRaft, err = NewLib(ref.Raft(), Registry{
			"Message":          func() interface{} { return new(raftzeropb.Message) },
			"Entry":            func() interface{} { return new(raftzeropb.Entry) },
			"Snapshot":         func() interface{} { return new(raftzeropb.Snapshot) },
			"SnapshotMetadata": func() interface{} { return new(raftzeropb.SnapshotMetadata) },
			"ConfState":        func() interface{} { return new(raftzeropb.ConfState) },
			"HardState":        func() interface{} { return new(raftzeropb.HardState) },
			"ConfChange":       func() interface{} { return new(raftzeropb.ConfChange) }})
		if err != nil {
			panic(err)
		}
	})
}

// Fresh are the types generated from the fresh schemas, by the schemas' names; it
// has none if they could not be generated or compiled.
var Fresh map[string]map[string]func() interface{}

var (
	freshMu   sync.Mutex
	freshLibs = map[string]*Lib{}
)

// freshLib binds the types generated from a fresh schema; nil if there are none
// or they don't have the accessors. Whether they must is for C17 and C18 to say.
func freshLib(name string) *Lib {
	freshMu.Lock()
	defer freshMu.Unlock()
	l, ok := freshLibs[name]
	if !ok {
		if reg := Fresh[name]; reg != nil {
			if m, err := NewLib((&ref.Schema{Name: name}).Resolve(), reg); err == nil {
				l = m
			}
		}
		freshLibs[name] = l
	}
	return l
}

// Override, if set, makes messages of the schema named "gen" (used by the driver
// of compiled generated code).
var Override *Lib

// New makes a fresh message: of the generated golden types for a named schema,
// through the runtime's functions otherwise.
func New(s *ref.Schema, mi int) Target {
	golden()
	switch s.Name {
	case "test":
		return libTest.New(mi)
	case "raft":
		return libRaft.New(mi)
	case "gen":
		return Override.New(mi)
	case "":
		return NewRT(s, mi)
	}
	if l := freshLib(s.Name); l != nil {
		return l.New(mi)
	}
	return NewRT(s, mi)
}
