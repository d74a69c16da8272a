package main

import (
	"bytes"
	"encoding/json"

	"github.com/greymass/go-eosio/pkg/chain"
)

// recorded defects: each probe runs the recorded input and tells whether it still fails
var probes = map[string]func() bool{
	// the extension {A, B} is cut off after A: the rest of the input is dropped without an error
	"generic-extension-cut": func() bool {
		type pair struct{ A, B uint8 }
		type outer struct {
			X uint8
			E pair `eosio:"extension"`
		}
		var v outer
		err := chain.NewDecoder(bytes.NewReader([]byte{1, 2})).Decode(&v)
		return err == nil
	},
	"abi-extension-cut": func() bool {
		var a chain.Abi
		err := json.Unmarshal([]byte(`{"version":"eosio::abi/1.1","structs":[{"name":"pair","base":"","fields":[{"name":"a","type":"uint8"},{"name":"b","type":"uint8"}]},
			{"name":"outer","base":"","fields":[{"name":"x","type":"uint8"},{"name":"e","type":"pair$"}]}]}`), &a)
		if err != nil {
			return false
		}
		_, err = a.Decode(bytes.NewReader([]byte{1, 2}), "outer")
		return err == nil
	},
}
