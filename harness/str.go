package main

import (
	"encoding/json"
	"fmt"
	"strconv"
)

// Str is a string written to JSON in Go syntax, so that any bytes survive.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToGraphic(string(s)))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	*s = Str(u)
	return err
}

func strs(ss []Str) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = string(s)
	}
	return out
}

var errf = fmt.Errorf
