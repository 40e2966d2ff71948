"""Which scenarios decide which property, and how many runs the quick tier makes."""

PLAN = {
    "P01": [dict(scenario="nbt", runs=14000, batch=250)],
    "P02": [dict(scenario="nbt-failures", runs=12000, batch=250), dict(scenario="compile-outcome", runs=9000, batch=250)],
    "P03": [dict(scenario="nbt-artifacts", runs=12000, batch=250), dict(scenario="compile", runs=9000, batch=250)],
    "P04": [dict(scenario="version", runs=7000, batch=100), dict(scenario="build-changes", runs=1500, batch=25)],
    "P05": [dict(scenario="build-cycles", runs=9000, batch=50)],
    "P06": [dict(scenario="resolve", runs=14000, batch=250)],
    "P07": [dict(scenario="rpc", runs=12000, batch=250)],
    "P08": [dict(scenario="inactivity", runs=14000, batch=250)],
    "P09": [dict(scenario="daemon", runs=14000, batch=250)],
    "P10": [dict(scenario="daemon-faults", runs=14000, batch=250)],
    "P11": [dict(scenario="filelock", runs=150000, batch=3000)],
    "P12": [dict(scenario="pin", runs=9000, batch=150)],
    "P13": [dict(scenario="build", runs=5000, batch=50)],
    "P14": [dict(scenario="build-faults", runs=2200, batch=25), dict(scenario="compile-io", runs=6000, batch=250), dict(scenario="build-tests-faults", runs=1000, batch=25)],
    "P16": [dict(scenario="build-tests", runs=2200, batch=25)],
    "P15": [dict(scenario="build-leftovers", runs=4000, batch=50)],
}

ASSUMPTIONS = [
    "Go code between two yield points (statement boundaries of instrumented packages, shim operations) executes atomically; data races within a single statement are out of reach",
    "dependencies (NATS, dst, tracer, ...) run real code whose goroutines are let run until they come to rest between two scheduling decisions, rather than being interleaved",
    "file contents survive a crash of a process as the kernel saw them; loss of the page cache (power failure) is not simulated",
    "a time-out or crash of a worker process only counts when it re-occurs twice with the same seed",
]
