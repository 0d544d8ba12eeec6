// Package fresh has the types generated from ref.Fresh when a check is built:
// cmd/freshgen writes them, and an overlay puts them in the place of this file,
// which is what is compiled if that fails.
package fresh

// Types are the message types, by the schema's name and their own.
var Types map[string]map[string]func() interface{}

// Direct are the calls of the message types.
var Direct map[string]map[string]Calls
