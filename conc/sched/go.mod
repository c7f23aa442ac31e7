module verif/sched

go 1.21
