module verif/replay

go 1.17

require github.com/greymass/go-eosio v0.0.0

replace github.com/greymass/go-eosio => /repo
