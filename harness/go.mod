module verif

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/skycoin/cxo v0.0.0
	github.com/skycoin/skycoin v0.0.0
	github.com/skycoin/net v0.0.0
	github.com/DiSiqueira/GoTree v0.0.0
	github.com/peterh/liner v0.0.0
	github.com/boltdb/bolt v1.3.1
)

replace (
	github.com/skycoin/cxo => /repo
	github.com/skycoin/skycoin => ../shims/skycoin
	github.com/skycoin/net => ../shims/net
	github.com/DiSiqueira/GoTree => ../shims/gotree
	github.com/peterh/liner => ../shims/liner
)
