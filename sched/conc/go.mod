module verif/conc

go 1.23.0

require (
	github.com/snivilised/agenor v0.0.0
	github.com/snivilised/li18ngo v0.1.9
	github.com/snivilised/nefilim v0.1.10
	github.com/snivilised/pants v0.1.4
	verif/vs v0.0.0
)

require (
	github.com/nicksnyder/go-i18n/v2 v2.4.1 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/exp v0.0.0-20241009180824-f66d83c29e7c // indirect
	golang.org/x/text v0.19.0 // indirect
)

replace (
	github.com/snivilised/agenor => ../agenor
	github.com/snivilised/pants => ../pants
	verif/vs => ../vs
)
