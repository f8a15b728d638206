module verif/harness

go 1.25.0

require (
	github.com/alecthomas/kingpin/v2 v2.4.0
	github.com/davecgh/go-spew v1.1.1
	github.com/jarcoal/httpmock v1.4.1
	github.com/mitchellh/go-homedir v1.1.0
	golang.org/x/crypto v0.53.0
)

require (
	github.com/alecthomas/units v0.0.0-20240927000941-0f3dac36c52b // indirect
	github.com/xhit/go-str2duration/v2 v2.1.0 // indirect
)

require github.com/openrdap/rdap v0.0.0

replace github.com/openrdap/rdap => /repo
