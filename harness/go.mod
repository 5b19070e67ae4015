module flu.verif/harness

go 1.21

require github.com/flu-network/client v0.0.0

replace github.com/flu-network/client => /repo
