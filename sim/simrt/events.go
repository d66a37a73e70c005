package simrt

// Events injected into a run at a given simulated step (signals).

type event struct {
	step int64
	fn   func()
}

var events []event

// At schedules fn at simulated step s of the current configuration; it must be
// called before Run. fn runs on whatever task reaches that step and must not
// block.
//
//go:norace
func At(s int64, fn func()) { events = append(events, event{s, fn}) }

//go:norace
func nextEvent() int64 {
	if len(events) == 0 {
		return idleQuantum
	}
	m := int64(idleQuantum)
	for _, e := range events {
		if d := e.step - steps; d < m {
			m = d
		}
	}
	if m < 1 {
		m = 1
	}
	return m
}

func fireEvents() {
	for i := 0; i < len(events); i++ {
		if events[i].step <= steps {
			f := events[i].fn
			events = append(events[:i:i], events[i+1:]...)
			fold(uint64(steps) | 1<<62)
			f()
			i--
		}
	}
}
