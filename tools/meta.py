T = "runtime monitoring: "
HIST = T + "random histories of the public API with a reference model compared after every call"
ONE = T + "one-collision steps of the real system against an independent f64 geometric oracle, debug-assertions and overflow checks on"
POSE = T + "random orientations and movement sequences on the real type against an independent f64 quaternion model"
MOT = T + "recording force generators and an f64 integrator compared with every step of the real system"
RESP = T + "online checks of every step of real multi-body worlds: state before and after, and the collision records, against f64 mechanics"
SLEEP = T + "a per-body model of the sleep timer, contact groups and wake-ups run next to real multi-body worlds, compared after every step"
LONG = T + "long runs of real worlds with the gaps and the total energy measured after every step"
CHAOS = T + "random call histories on hostile values with a panic/hang watchdog and a finiteness check of all readable state after every call"
META = T + "two runs of the real system that must agree, compared state by state and record by record; mismatches are judged only where runs from neighbouring starts agree"
MESH = T + "random sequences of add_face calls on the real mesh with a reference model compared after every call, and a ball thrown at the result"
LEAK = T + "a counting global allocator and drop counters read around repeated rounds of calls on the real system"
TECH = {
 "C33": LEAK,
 "C26": META, "C27": META, "C28": META, "C34": META, "C29": META, "C30": MESH, "C32": ONE,
 "C22": SLEEP, "C23": SLEEP, "C24": LONG, "C31": LONG, "C25": CHAOS,
 "C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST, "C05": HIST,
 "C06": POSE, "C07": POSE, "C08": MOT, "C09": MOT,
 "C15": RESP, "C16": RESP, "C17": RESP, "C18": RESP, "C19": RESP, "C20": RESP, "C21": RESP,
 "C10": ONE, "C11": ONE, "C12": ONE, "C13": ONE, "C14": ONE,
}
E1 = "Explores randomly generated cases; everything judged is observed on the real code, nothing is proved for cases not generated."
LEVEL_NOTE = {k: E1 for k in TECH}
