package main

// The worlds with their budgets and what their evidence says about them.

var realAll = []string{
	"all of /repo's non-test code (package tensor and its internals, component/...), compiled from the working tree; instrumented only with calls that count simulated time and offer preemption points",
	"gonum and golang.org/x/exp/rand as the repository uses them",
}

var assumeTick = "instrumentation (calls inserted at function entries, loop bodies and, for C20, statements) does not change what the library computes"

const graphs = "hash of the form of every differentiated graph (operations, arguments, shapes, wiring)"

func init() {
	worlds["C01"] = &World{
		Gen: genC01, Exec: execC01, Batch: 200, Quick: 320000, Thorough: 3000000,
		Known:        map[string]string{kfC01: "a gradient that flows back through an explicit Tensor.Broadcast that expands a dimension is the average over the copies instead of their sum"},
		Rule:         "a case is one simulated run: a tensor program of several clients with back-propagations; non-trivial if a back-propagation met an interior tensor with more than one consumer or a leaf shared by several back-propagations",
		Measure:      "hash of the whole event structure (operations, wiring, arguments, clients, back-propagation points), values excluded",
		StateMeasure: graphs,
		Real:         realAll,
		Stub:         []string{"reference model: every operation and its exact partial derivatives, written from the definitions", "clients and scheduler of the simulated system"},
		Assume: []string{assumeTick,
			"gradients agree with the exact derivatives within 1e-7 of the sum of the magnitudes of the terms that add up to them; points where the function is not differentiable are not compared",
			"cost bounds: the work of one back-propagation, in simulated time, is linear in the edges and elements of the graph with a generous constant"},
	}
	worlds["C08"] = &World{
		Gen: genC08, Exec: execC08, Batch: 200, Quick: 320000, Thorough: 3000000,
		Rule:         "a case is one simulated history of creations, operations, component evaluations, back-propagations and resets; non-trivial if a back-propagation reached at least three tensors and a spent tensor was used or reset afterwards",
		Measure:      "hash of the event structure of a non-trivial history",
		StateMeasure: graphs + ", plus hash of the multiset of tracking states after each back-propagation",
		Real:         realAll,
		Stub:         []string{"reference state machine of tracking (untracked, tracked, spent)", "clients and scheduler of the simulated system"},
		Assume:       []string{assumeTick, "tracking status is observed through gradients of later back-propagations, as the API offers no getter"},
	}
	worlds["C10"] = &World{
		Gen: genC10, Exec: execC10, Batch: 150, Quick: 180000, Thorough: 2000000,
		Rule:         "a case is one simulated history of clients, an adversary overwriting caller-owned slices, and bystander calls; non-trivial if at least one slice was overwritten before a back-propagation that reached more than one tensor",
		Measure:      "hash of the event structure of a non-trivial history (operations, wiring, arguments, overwrite points, bystander calls)",
		StateMeasure: graphs,
		Real:         realAll,
		Stub:         []string{"twin execution of the same library without the adversary", "clients, adversary and scheduler of the simulated system"},
		Assume:       []string{assumeTick},
	}
	worlds["C11"] = &World{
		Gen: genC11, Exec: execC11, Batch: 100, Quick: 90000, Thorough: 900000,
		Rule:         "a case is one simulated history of interleaved training loops; non-trivial if some parameter was updated at least twice",
		Measure:      "hash of the event structure of a non-trivial history (models, batches, phase interleaving, faults), values excluded",
		StateMeasure: graphs,
		Real:         realAll,
		Stub:         []string{"reference formulas of layers, activations and losses with exact derivatives", "trainers, their faults and the scheduler of the simulated system", "initializers of the caller's own that return given values, next to the library's"},
		Assume: []string{assumeTick,
			"each update is compared with w - lr*dL/dw at the library's own current weights, within 1e-8 of the sum of the magnitudes of the terms",
			"steps at which the composed function is not differentiable, or whose values left the range of doubles, are executed but their updates are not compared"},
	}
	worlds["C16"] = &World{
		Gen: genC16, Exec: execC16, Batch: 200, Quick: 160000, Thorough: 3000000,
		Rule:         "a case is one simulated history of FC layers, forwards, parameter replacements, optimizer updates, back-propagations and misbehaving initializers; non-trivial if a parameter was replaced and a back-propagation passed through an FC result",
		Measure:      "hash of the event structure of a non-trivial history (layers, shapes, wiring, replacements), values excluded",
		StateMeasure: graphs,
		Real:         realAll,
		Stub:         []string{"reference formula of FC with exact derivatives", "initializers of the caller's own: given values, errors, wrong shapes, nil", "clients and scheduler of the simulated system"},
		Assume:       []string{assumeTick},
	}
	worlds["C17"] = &World{
		Gen: genC17, Exec: execC17, Batch: 200, Quick: 320000, Thorough: 4000000,
		Rule:         "a case is one simulated history of parameter cells, losses, back-propagations, resets and Update deliveries; non-trivial if an Update replaced a tensor and either another one did or one was rejected for want of a gradient",
		Measure:      "hash of the event structure of a non-trivial history (cells, shapes, operations, deliveries), values excluded",
		StateMeasure: graphs,
		Real:         realAll,
		Stub:         []string{"clients, delivery faults and scheduler of the simulated system"},
		Assume:       []string{assumeTick},
	}
	worlds["C18"] = &World{
		Gen: genC18, Exec: execC18, Batch: 80, Quick: 30000, Thorough: 300000,
		Rule:         "a case is one simulated history of initializer objects and draws out of the simulated generator; non-trivial if at least 20 elements were drawn",
		Measure:      "hash of the event structure of a non-trivial history (objects, shapes, order of draws, generator faults), distribution parameters excluded",
		StateMeasure: "distinct (initializer or constructor, generator mode, shape) combinations drawn",
		Real:         []string{realAll[0], "gonum's distributions"},
		Stub:         []string{"the source behind golang.org/x/exp/rand's process-wide generator: PCG with fault overlay", "clients and scheduler of the simulated system"},
		Assume: []string{assumeTick,
			"PCG outputs are independent and uniform; every statistical bound is distribution-free (Dvoretzky-Kiefer-Wolfowitz-Massart, Laurent-Massart, Bernstein, Gaussian tail) with error probability about 1e-14"},
	}
	worlds["C19"] = &World{
		Gen: genC19, Exec: execC19, Batch: 200, Quick: 300000, Thorough: 4000000,
		Rule:         "a case is one simulated delivery history of a labelled stream to several accumulators; non-trivial if at least one batch was accepted and at least one call was rejected",
		Measure:      "hash of the event structure of a non-trivial history (batch boundaries by order of delivery, kinds of rejected calls, sources), label values excluded",
		StateMeasure: "distinct (positions, matches) totals reached",
		Real:         realAll,
		Stub:         []string{"clients, delivery and scheduler of the simulated system", "tensors of another device: they have a shape and every computation on them fails"},
		Assume:       []string{assumeTick},
	}
	worlds["C20"] = &World{
		Gen: genC20, Exec: execC20, Batch: 6, Quick: 40000, Thorough: 600000, Race: true,
		Rule:         "a case is one simulated concurrent execution of 2 to 14 goroutines under one schedule, with its sequential twin; non-trivial if the scheduler preempted a goroutine inside the library at least once",
		Measure:      "hash of the program (shared state, every goroutine's steps)",
		StateMeasure: "hash of the sequence of scheduling decisions (statement, from, to) of every concurrent section with a preemption, plus " + graphs,
		Real:         append(append([]string{}, realAll...), "goroutines, the Go race detector (happens-before), sync as used by the library, replaced by locks that cooperate with the scheduler"),
		Stub:         []string{"the goroutine scheduler: a seeded one decides at every statement of the library", "client programs"},
		Assume: []string{assumeTick,
			"the race detector reports unordered conflicting accesses of the interleavings executed; hand-overs of the simulator are hidden from it",
			"code of dependencies (gonum, x/exp/rand) is race-instrumented but not preempted inside"},
	}
}
