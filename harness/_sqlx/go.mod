module github.com/jmoiron/sqlx

go 1.21
