module github.com/skycoin/skycoin

go 1.23
