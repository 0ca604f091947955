module github.com/fivebinaries/go-cardano-serialization/verif

go 1.23

require (
	github.com/btcsuite/btcutil v1.0.2
	github.com/fivebinaries/go-cardano-serialization v0.0.0
	github.com/tyler-smith/go-bip39 v1.1.0
	golang.org/x/crypto v0.0.0-20220210151621-f4118a5b28e2
	pgregory.net/rapid v1.3.0
)

require (
	github.com/blockfrost/blockfrost-go v0.1.0 // indirect
	github.com/fxamacker/cbor/v2 v2.4.0 // indirect
	github.com/hashicorp/go-cleanhttp v0.5.2 // indirect
	github.com/hashicorp/go-retryablehttp v0.7.0 // indirect
	github.com/x448/float16 v0.8.4 // indirect
	golang.org/x/sys v0.0.0-20211205182925-97ca703d548d // indirect
)

replace github.com/fivebinaries/go-cardano-serialization => /repo
