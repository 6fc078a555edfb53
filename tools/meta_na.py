NA = [
    {"property": "N01", "reason": "A pure function of its arguments: no time, concurrency, I/O, randomness or second party for a schedule or fault to act on. What the planners make of it is checked by C03."},
    {"property": "N02", "reason": "A pure function of its arguments with nothing to simulate. What the planners make of it is checked by C01 to C04 against an independent geometry."},
    {"property": "N03", "reason": "Test helpers with fixed paths under src/test, used only by the demo programs; errors of writing are not reported by design of std::ofstream and nothing reads the files back. Recorded in DESIGN.md."},
]
