module verif

go 1.26

replace github.com/ti-mo/comfo => /repo

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/ti-mo/comfo v0.0.0-00010101000000-000000000000
	github.com/twitchtv/twirp v8.1.3+incompatible
)

require google.golang.org/protobuf v1.34.1 // indirect
