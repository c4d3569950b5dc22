module github.com/mercari/go-circuitbreaker

go 1.20
