package fresh

// Calls are calls of all the methods of a message type, without reflection.
type Calls struct {
	// Read calls every accessor and iterates; false if one reports an error.
	Read func(p interface{}) bool
	// Write calls every setter with a value, and every setter and append of a
	// message field with an empty message, and with one of Some if u&2 != 0.
	Write func(p interface{}, u uint64, s string, b []byte)
	Base  func(p interface{}) Base
}

// Some is the encoding of a message with one field, that no schema declares.
const Some = "\xf8\xff\x7f\x01"

// Base are the methods every message has.
type Base interface {
	Decode([]byte) error
	Encode() []byte
	Reset([]byte)
}

// Sink keeps what is read alive.
var Sink struct {
	U uint64
	F float64
	S string
	B []byte
	T bool
}
