// Package hist records when the operations of a scenario begin and end. It is
// compiled without race instrumentation.
package hist

const max = 64

type Rec struct {
	Inv, Res int
	Out      string
	Done     bool
}

var (
	recs  [max]Rec
	clock int
)

func Reset() {
	clock = 0
	for i := range recs {
		recs[i] = Rec{}
	}
}
func Inv(i int)           { clock++; recs[i].Inv = clock }
func Res(i int, o string) { clock++; recs[i].Res, recs[i].Out, recs[i].Done = clock, o, true }
func Get(i int) Rec       { return recs[i] }

// Cell is a value the threads of a scenario may share without announcing it.
type Cell struct{ V int }

func (c *Cell) Get() int  { return c.V }
func (c *Cell) Set(v int) { c.V = v }
func (c *Cell) Add(d int) { c.V += d }

// Log is an append-only list of strings shared without announcing it.
type Log struct {
	l [256]string
	n int
}

func (l *Log) Add(s string) {
	if l.n < len(l.l) {
		l.l[l.n] = s
		l.n++
	}
}
func (l *Log) Len() int        { return l.n }
func (l *Log) At(i int) string { return l.l[i] }
func (l *Log) List() []string {
	o := make([]string, l.n)
	for i := 0; i < l.n; i++ {
		o[i] = l.l[i]
	}
	return o
}
