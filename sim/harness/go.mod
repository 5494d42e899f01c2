module harness

go 1.22
