module vharness

go 1.26.0

require github.com/hired/gevulot v0.0.0

require golang.org/x/sys v0.0.0-20190422165155-953cdadca894 // indirect

replace github.com/hired/gevulot => /repo

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/alecthomas/template v0.0.0-20190718012654-fb15b899a751 // indirect
	github.com/alecthomas/units v0.0.0-20190924025748-f65c72e2690d // indirect
	github.com/fsnotify/fsnotify v1.4.7
	github.com/lib/pq v1.2.0
	github.com/sirupsen/logrus v1.4.2
	github.com/stretchr/testify v1.4.0
	golang.org/x/sync v0.0.0-20190911185100-cd5d95a43a6e
	gopkg.in/alecthomas/kingpin.v2 v2.2.6
)
