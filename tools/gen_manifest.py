import json, os
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(here, "..")
claimed = open(os.path.join(here, "claimed.txt")).read().split()
NA = {
 "N01": "Structure layout, constants and version encoding are compile-time facts with no schedule, time, I/O or fault for a simulation to vary.",
}
COMMON = ("Seeded search, not exhaustive. The real libsudo_pair.so (release and debug builds) runs unmodified inside a one-process simulator that supplies every "
  "C library call it imports, sudo's front end, approvers, other users, signals and the clock; trusted are the simulated kernel (x86-64 Linux semantics), "
  "the model of sudo's front end and the reference model in sim/src/session.rs. ")
PROBE = ("Seeded search, not exhaustive. A probe plugin with scripted handlers (results, error chains, panics of every payload kind) is built with the working tree's sudo_plugin "
  "and driven by the simulated front end through arbitrary callback histories with failing print functions and allocations; libsudo_pair.so itself is driven too where the property concerns it. "
  "Trusted are the simulated front end and the reference model of the life cycle. ")
APPROVE = ("Seeded search, not exhaustive. The real sample/bin/sudo_approve runs in the real bash as an unprivileged user in a scratch folder; sudo, socat, stat, id, getent, stty and the access checks are "
  "stand-ins answered by the simulator, which also decides when they fail or when signals arrive. Trusted are the stand-ins and bash. ")
E2E = ("Seeded search, not exhaustive. The real libsudo_pair.so and the real sample/bin/sudo_approve (in the real bash, as an unprivileged user in a scratch folder) run together; the sudo the script calls "
  "is a session of the real plugin again. System calls, sudo's front end and policy, socat, stat, id, getent, stty and the people are simulated. Trusted are the simulated kernel and these stand-ins. ")
NOTE = {
 "C01": "Every run compares each granted session with what its pair really sent, under faults at every call, signals, crashes, allocation failure and hostile pairs.",
 "C02": "After every simulated call the socket's inode and directory are evaluated for every account against the accounts allowed, including umask 0 and races.",
 "C03": "Exempt requests run in broken worlds (no directory, no templates, no log, no terminal) and must be granted without any wait, socket, prompt or send.",
 "C04": "Requests that change user and name a group, in every spelling, with approvers who try anyway.",
 "C05": "Directories with every kind of untrusted owner, mode, type or link; any name-space change by the session is a violation.",
 "C06": "Compares sudo's descriptors, umask, signal dispositions and the socket's name and reachability before and after open in every run.",
 "C07": "Left-over sockets from killed sessions and foreign files of every type at the path, including ones that appear while it is in use.",
 "C08": "SIGINT with and without SA_RESTART at every point of the waits; a session still blocked once nothing else can move is a violation.",
 "C09": "Willing authorised pairs of every pace among strangers, early answers, half-closes, clock jumps; refusal or a wait that can't end is a violation. Liveness is judged when nothing else can move.",
 "C10": "Byte-exact comparison of the stream the pair received with what the callbacks reported, under short writes, slow readers and interruptions.",
 "C11": "Pairs that leave, reset or stop in every way between and during callbacks; the next mirrored callback must refuse and go on refusing.",
 "C12": "Piped input at every position with every hint; must be refused when gated, accepted when exempt.",
 "C13": "Checks at the return of open and close that every connection of the session is hung up and silent afterwards.",
 "C14": "Compares the prompt bytes received before the answer was read with an independent expansion of template and request.",
 "C15": "Compares what reached the terminal, or the front end's error output, before the wait with an independent expansion; formats are interpreted as printf would.",
 "C16": "Several sudo processes with their own copies of the plugin, interleaved at every system call; every foreign effect is a violation.",
 "C17": "Decisions under failing log, terminal, templates, printing and removal are compared with the model's decision without these failures.",
 "C22": "Old API versions and missing or garbled parameters; any effect on the simulated system before the refusal is a violation.",
 "C18": "Every payload kind, including payloads and errors that panic themselves, in every callback and repeatedly; a crash or an unwinding call is a violation, and so is a wrong result of any later callback. A quarter of the runs are whole sudo_pair sessions under faults.",
 "C19": "Histories with accepted, refused, panicking, unusable and version-query opens, callbacks in and out of session, and re-opens; each instance and environment is tagged and checked at every handler call and drop.",
 "C20": "Four plugins in one process with different handlers and hint settings; the handler events with data, sizes and codes, and the returned status, are compared with the model after every call.",
 "C21": "Error chains of up to 200 causes with arbitrary text under failing or missing print functions with any errno; the text collected and the number of calls are compared with the model. A quarter of the runs are whole sudo_pair sessions under faults.",
 "C23": "Hostile and odd argument strings, requesters in every role (directly, through sudo -u or -g, forged records), hostile environments and failing commands; any connection to the requester's own session, any command, file or path made of the arguments is a violation.",
 "C24": "Every combination of caller, owner, group and mode, denied or nested sudo, commands that fail or die, a connection that ends in every way, and SIGINT, SIGTERM, SIGHUP and SIGQUIT at every command including the one that restores the terminal; who connects to what, what is run through sudo, the exit status and the terminal's settings afterwards are compared with the model.",
 "C25": "Judged at the instant the stand-in for socat connects, for every way the script may get there (directly, through sudo -u or -g, odd initial terminal settings); what the script did to the terminal is followed setting by setting.",
 "C26": "One or two waiting sessions and up to four people (eligible, ineligible, the requester in several guises) who run what the prompt said; liveness is judged when nothing else can move and no intolerable fault hit that session.",
 "C27": "Each plugin reports all it can see of its environment in every handler call (some 250 values); it is compared with an independent reading of the parameter lists, across interleaved and repeated sessions of four plugins whose parameter memory is overwritten once open has returned.",
}
checks = []
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in claimed:
        base = PROBE if i in ("C18", "C19", "C20", "C21", "C27") else APPROVE if i in ("C23", "C24", "C25") else E2E if i == "C26" else COMMON
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and histories)",
            "level": "exploration", "level_note": base + NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the dynamic symbol table of the built plugin (every C library call goes to the simulator). Replay: build/sim/release/sim replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
