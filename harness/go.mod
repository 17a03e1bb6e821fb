module verif/harness

go 1.16

require (
	github.com/gagliardetto/binary v0.0.0
	github.com/shopspring/decimal v1.3.1 // indirect
	github.com/streamingfast/logging v0.0.0-20230608130331-f22c91403091 // indirect
	go.uber.org/zap v1.21.0 // indirect
)

replace github.com/gagliardetto/binary => /repo
