package main

// Tape is the token tape of the parser analyses.
type Tape struct{}

func (t *Tape) clone() *Tape    { return t }
func (t *Tape) writeKey(*keyer) {}
