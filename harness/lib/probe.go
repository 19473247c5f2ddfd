package lib

import (
	"context"
	"strconv"
)

// Probes are context marshalers with an identity: their output is unique.
type (
	ProbeI   int64
	ProbeN   int64
	ProbeS   struct{ ID int }
	ProbeSP  struct{ ID int }
	ProbeP   struct{ P *int }
	ProbePP  struct{ P *int }
	ProbeA   [1]*int
	ProbeM   map[string]int
	ProbeMP  map[string]int
	ProbeSl  []int
	ProbeStr string
	ProbeBig struct {
		Pad [5]int
		ID  int
	}
	ProbeCA struct{ ID int } // has all the methods
	MKey    int              // map keys that can be told from field names
)

// ProbeOut is the output of the probe id.
func ProbeOut(id int) string { return `"probe-` + strconv.Itoa(id) + `."` }

func probe(ctx context.Context, dst []byte, id int) ([]byte, error) {
	if Hook != nil {
		Hook()
	}
	n := len(dst)
	out := append(dst, ProbeOut(id)...)
	if CtxCall != nil {
		CtxCall(ctx, out[:n:n], out[n:])
	}
	return out, nil
}

func (p ProbeI) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, int(p))
}
func (p *ProbeN) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, int(*p))
}
func (p ProbeS) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, p.ID)
}
func (p *ProbeSP) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, p.ID)
}
func (p ProbeP) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, *p.P)
}
func (p *ProbePP) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, *p.P)
}
func (p ProbeA) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, *p[0])
}
func (p ProbeM) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, p["id"])
}
func (p *ProbeMP) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, (*p)["id"])
}
func (p ProbeSl) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, p[0])
}
func (p ProbeStr) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, len(p))
}
func (p ProbeBig) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, p.ID)
}
func (p ProbeCA) AppendJSONContext(c context.Context, d []byte) ([]byte, error) {
	return probe(c, d, p.ID)
}
func (p ProbeCA) AppendJSON(d []byte) ([]byte, error) { return append(d, `"AppendJSON"`...), nil }
func (p ProbeCA) MarshalJSON() ([]byte, error)        { return []byte(`"MarshalJSON"`), nil }
func (p ProbeCA) MarshalText() ([]byte, error)        { return []byte(`MarshalText`), nil }

func (k MKey) MarshalText() ([]byte, error) { return []byte("@m" + strconv.Itoa(int(k))), nil }
