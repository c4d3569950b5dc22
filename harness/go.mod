module verif.local/harness

go 1.25.0
