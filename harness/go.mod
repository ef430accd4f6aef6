module verif/harness

go 1.23.0

require (
	github.com/klauspost/compress v1.18.0
	github.com/swaggest/assertjson v1.9.0
	github.com/vearutop/flatjsonl v0.0.0
	modernc.org/sqlite v1.35.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/Masterminds/squirrel v1.5.4 // indirect
	github.com/bool64/ctxd v1.2.1 // indirect
	github.com/bool64/dev v0.2.39 // indirect
	github.com/bool64/progress v0.3.7 // indirect
	github.com/bool64/shared v0.1.5 // indirect
	github.com/bool64/sqluct v0.2.4 // indirect
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/dustin/go-humanize v1.0.1 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/iancoleman/orderedmap v0.3.0 // indirect
	github.com/jmoiron/sqlx v1.4.0 // indirect
	github.com/klauspost/pgzip v1.2.6 // indirect
	github.com/lann/builder v0.0.0-20180802200727-47ae307949d0 // indirect
	github.com/lann/ps v0.0.0-20150810152359-62de8c46ede0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/puzpuzpuz/xsync/v3 v3.5.1 // indirect
	github.com/remyoudompheng/bigfft v0.0.0-20230129092748-24d4a6f8daec // indirect
	github.com/sergi/go-diff v1.3.1 // indirect
	github.com/stretchr/testify v1.9.0 // indirect
	github.com/vearutop/fastjson v1.0.0 // indirect
	github.com/yosuke-furukawa/json5 v0.1.2-0.20201207051438-cf7bb3f354ff // indirect
	github.com/yudai/gojsondiff v1.0.0 // indirect
	github.com/yudai/golcs v0.0.0-20170316035057-ecda9a501e82 // indirect
	golang.org/x/exp v0.0.0-20250218142911-aa4b98e5adaa // indirect
	golang.org/x/sys v0.30.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
	modernc.org/libc v1.61.13 // indirect
	modernc.org/mathutil v1.7.1 // indirect
	modernc.org/memory v1.8.2 // indirect
)

replace github.com/vearutop/flatjsonl => /repo
