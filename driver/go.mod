module verifdriver

go 1.22.3

require (
	github.com/32bitkid/bitreader v1.0.1
	github.com/32bitkid/mpeg v0.0.0
)

require (
	github.com/32bitkid/clog v0.0.0-20180710165031-6446106e4bb6 // indirect
	github.com/32bitkid/huffman v0.0.0-20180710165318-84139c04a627 // indirect
)

replace github.com/32bitkid/mpeg => /repo
