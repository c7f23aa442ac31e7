module verif/worker

go 1.24

require (
	github.com/ThinkiumGroup/go-common v0.0.0
	github.com/hashicorp/golang-lru v0.5.5-0.20210104140557-80c98217689d
	github.com/sirupsen/logrus v1.9.0
	github.com/stephenfire/go-rtl v1.1.1
	verif/harness v0.0.0
	verif/sched v0.0.0
)

replace github.com/ThinkiumGroup/go-common => @GEN@/common
replace github.com/hashicorp/golang-lru => @GEN@/lru
replace github.com/sirupsen/logrus => @GEN@/logrus
replace verif/sched => @ROOT@/conc/sched
replace verif/harness => @ROOT@/harness
