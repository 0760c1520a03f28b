package own

import "context"

type item struct{ n int }

// Box is a generic type.
type Box[T any] struct{ V T }

type local interface {
	hidden(i *item, more ...*item) (map[string]*item, error)
}

// Own is decorated in its own package and has unexported methods and types.
type Own interface {
	local
	Get(ctx context.Context, i item) (*item, error)
	Boxed(b Box[*item], f func(item) Box[int]) (Box[item], error)
	put(item, *item) item
	Clash(err item) (item, error)
	Chan(c chan<- item, d <-chan *item) (e chan item)
	named(ctx item, own *Box[Own]) (x struct {
		A *item `json:"a"`
	}, err item)
}

// tiny is an unexported interface with a single method.
type tiny interface {
	Do(ctx context.Context) error
}
