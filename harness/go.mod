module harness

go 1.19

require (
	github.com/jackc/pgx/v5 v5.1.1
	github.com/ulule/loukoum/v3 v3.0.0-00010101000000-000000000000
)

require github.com/pkg/errors v0.9.1

replace github.com/ulule/loukoum/v3 => /repo
