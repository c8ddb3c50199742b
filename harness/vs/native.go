package vs

// The checker replaces these functions by its own.

var batons []chan struct{}

func reset() { batons = nil }

// spawn makes a thread that runs f once the baton is passed to it, and passes it on to the thread that f returns.
func spawn(f func() int) int {
	if len(batons) == 0 {
		batons = append(batons, make(chan struct{}, 1))
	}
	all := &batons
	b := make(chan struct{}, 1)
	*all = append(*all, b)
	go func() {
		<-b
		to := f()
		(*all)[to] <- struct{}{}
	}()
	return len(*all) - 1
}

// transfer passes the baton on and waits until it comes back.
func transfer(from, to int) {
	b := batons[from]
	batons[to] <- struct{}{}
	<-b
}
