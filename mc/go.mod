module verif/mc

go 1.22

require (
	github.com/ghodss/yaml v1.0.0
	gopkg.in/yaml.v2 v2.4.0
	yunion.io/x/jsonutils v0.0.0
	yunion.io/x/log v1.0.1-0.20230411060016-feb3f46ab361
	yunion.io/x/pkg v1.0.1-0.20230613081559-f38e2cb344b4
)

require (
	github.com/konsorten/go-windows-terminal-sequences v1.0.3 // indirect
	github.com/mattn/go-colorable v0.1.9 // indirect
	github.com/mattn/go-isatty v0.0.14 // indirect
	github.com/mgutz/ansi v0.0.0-20170206155736-9520e82c474b // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/sirupsen/logrus v1.6.0 // indirect
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9 // indirect
	golang.org/x/sys v0.0.0-20220412211240-33da011f77ad // indirect
	golang.org/x/text v0.3.6 // indirect
)

replace yunion.io/x/jsonutils => /repo
