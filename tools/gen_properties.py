#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

LIB="sudo_pair/src/lib.rs"; SOCK="sudo_pair/src/socket.rs"; CORE="sudo_plugin/src/core.rs"
ENV="sudo_plugin/src/plugin/io_env.rs"; STATE="sudo_plugin/src/plugin/io_state.rs"
PF="sudo_plugin/src/output/print_facility.rs"; TTY="sudo_plugin/src/output/tty.rs"
TPL="sudo_pair/src/template.rs"; OPT="sudo_plugin/src/options/option_map.rs"
CI="sudo_plugin/src/options/command_info.rs"; UI="sudo_plugin/src/options/user_info.rs"; ST="sudo_plugin/src/options/settings.rs"
TR="sudo_plugin/src/options/traits.rs"; ERR="sudo_pair/src/errors.rs"; PERR="sudo_plugin/src/errors.rs"; APPR="sample/bin/sudo_approve"
NOTEST="The repository's tests only cover option parsing, version arithmetic and template expansion; nothing ever opens a session, creates a socket or plays a pair, so no schedule, fault or peer behaviour is reached."

p("C01","No gated command runs without an explicit yes from its pair",
  "A command that requires pairing is allowed to start only after a peer connected to that session's own approval socket and the first byte it answered with was `y` or `Y`. Every other history (no connection, other first byte, hang-up, any error, fault, signal or internal panic while waiting) refuses the command. Pairing is required for every command unless an exemption documented in the README or sudoers log settings applies: caller is root, caller becomes exactly themselves, the command is the approval binary, output logging is off for the command, the caller is in an exempted group, or none of the groups gained is enforced (gid 0 by default and when the option is unusable).",
  ["schedules","fault_sequences","inputs","configurations","histories"],
  "for all users, targets, group sets, commands (any bytes), plugin options, log hints, approver behaviours, interleavings, and system-call failures",
  NOTEST, [LIB,SOCK,CORE,ENV,CI,UI,OPT,TR],
  [("SudoPair::open / is_exempt / remote_pair_prompt",LIB),("Socket::open",SOCK),("open trampoline and panic containment",CORE),("runas_gids",ENV)],
  [dict(name="SudoPair.socket",meaning="connection to the pair, present only in gated sessions",where=LIB)],
  ["return value of io_plugin.open","bytes received on the approval socket"])

p("C02","Only accounts able to act as the target can ever reach the approval socket",
  "At every instant at which a session's approval socket accepts connections, the only accounts that can connect to it (or change its permissions so that they could) are root and, when becoming another user, that target user, or, when gaining a group with -g, members of that group. In particular the requesting user never can, whatever their umask and timing, unless they already belong to the group they ask for.",
  ["schedules","configurations","inputs","fault_sequences"],
  "for all instants between creation and removal of the socket, all umasks and group memberships, all targets and all failures of the calls that set its ownership",
  NOTEST,[SOCK,LIB],[("umask, bind, chown, chmod sequence in Socket::open",SOCK),("socket_uid / socket_gid / socket_mode",LIB)],
  [dict(name="socket inode owner and mode",meaning="who may connect",where="file system")],["permissions of <socket_dir>/<uid>.<pid>.sock","success of connect(2)"])

p("C03","Exempt sessions never depend on the pairing machinery",
  "A session exempt from pairing is always allowed to start and run, without waiting for anyone: it creates no socket, shows no prompt, mirrors nothing and does not refuse piped input, whatever state the socket directory, prompt files or terminal are in, and even if the system log is missing or refuses messages. Root, and users becoming exactly themselves, are therefore never locked out.",
  ["inputs","configurations","fault_sequences"],
  "for all exempt sessions, all option values, all broken environments and failing system calls, all callback sequences",
  NOTEST,[LIB,CORE,ENV],[("is_exempt and its predicates",LIB),("log_output / log_stdin on a session with no socket",LIB)],None,["return values of every callback","system calls issued"])

p("C04","Changing user and explicitly changing group together is always refused",
  "A gated request that both becomes a different user and names a group with -g is refused at once, whatever the spelling of the group. No approval socket is ever created for it and no pair can approve it.",
  ["inputs","configurations","schedules"],
  "for all user/group combinations including a -g that names the target's own group or is not valid text, all other options, all waiting approvers",
  NOTEST,[LIB,ST],[("is_sudoing_to_user_and_group",LIB),("runas_group setting",ST)],None,["return value of open","socket creation"])

p("C05","An untrusted socket directory refuses the session and is left untouched",
  "If the socket directory is missing, is not a directory, is not owned by the account sudo runs as, or is writable by its group or by others, every gated session is refused. In that case nothing is created in or deleted from it.",
  ["configurations","inputs","fault_sequences"],
  "for all directory types, owners, modes and contents, and failures to examine it",
  NOTEST,[SOCK],[("enforce_ownership",SOCK)],None,["return value of open","directory contents"])

p("C06","Asking for approval leaves nothing behind in the system or in sudo",
  "When the attempt to start a session ends, granted or refused, its approval socket is gone from the file system and no longer accepts connections, and sudo's umask, working directory, user and group ids and signal handling are exactly as they were. Of the file descriptors opened on the way only the pair's connection (when granted) and the log connection may remain open, and the pair's connection is never inherited by the command.",
  ["schedules","fault_sequences","histories"],
  "for all approver behaviours, interruptions and failing system calls at any point, except failure of the removal itself and outright death of sudo",
  NOTEST,[SOCK],[("unlink and umask restore after accept",SOCK),("ctrl_c_aborts_syscalls restore",SOCK)],
  [dict(name="process umask and SIGINT disposition",meaning="temporarily changed while waiting",where=SOCK)],["file system, umask, sigaction and fd table after open returns"])

p("C07","Leftovers of dead sessions are replaced, foreign files are never destroyed",
  "If sudo dies at any point of a session, a later session with the same user and process id replaces a left-over approval socket and proceeds normally. Anything at that path that is not a socket is never removed or modified; the session is refused instead.",
  ["crash_points","histories","configurations","schedules"],
  "for all crash points, all kinds of objects squatting at the socket path (files, directories, fifos, links, sockets), placed before or during the request",
  NOTEST,[SOCK],[("Socket::unlink before bind and after accept",SOCK)],None,["inode at <socket_dir>/<uid>.<pid>.sock","return value of open"])

p("C08","Ctrl-C while waiting for the pair ends the wait and refuses the session",
  "If SIGINT (not being ignored) arrives while sudo is blocked waiting for a pair to connect or to answer, the wait ends without needing anything from the pair, and the command is refused. This holds even though sudo's own handler asks for interrupted calls to be restarted.",
  ["schedules","fault_sequences","histories"],
  "for all instants during either wait, all pair behaviours (absent, silent, stalled), and restart and non-restart signal handlers",
  NOTEST,[SOCK,LIB],[("select instead of accept",SOCK),("ctrl_c_aborts_syscalls around read",SOCK),("read instead of read_exact",LIB)],None,["return of open after SIGINT"])

p("C09","A willing authorised pair always gets the session running",
  "In the absence of faults, an authorised approver who connects to `<socket_dir>/<uid>.<pid>.sock` and answers `y`, however late or slowly and however many other people try to interfere, gets the command started, and every later output, resize and close of the session succeeds while they keep reading. A session is never refused merely because time passed, because the answer came in early, or because sudo was started with many open descriptors.",
  ["schedules","inputs","configurations","histories"],
  "for all arrival times, speeds, chunkings and interleavings of approvers, bystanders and sessions, in fault-free executions",
  NOTEST,[LIB,SOCK,CORE],[("remote_pair_connect, remote_pair_prompt, log_output",LIB),("Socket::open",SOCK)],None,["return values of all callbacks"])

p("C10","The pair sees exactly what the session outputs",
  "Whenever a terminal-output, stdout, stderr or window-resize callback of a gated session reports success, exactly its bytes (for a resize, ESC[8;LINES;COLSt) have been delivered to the pair's connection, in callback order, with nothing lost, added, altered or duplicated. What the user types is never sent, and after the prompt the connection carries nothing but the echoed answer, a newline and the session's output, whichever log hints are set.",
  ["inputs","schedules","fault_sequences","histories"],
  "for all byte contents and sizes, all callback sequences, all pair reading speeds, short writes and interrupted calls",
  NOTEST,[LIB,SOCK,CORE],[("log_output",LIB),("Write for Socket",SOCK),("log_* trampolines",CORE)],None,["bytes arriving at the pair"])

p("C11","Losing the monitor terminates the session at its next output",
  "Once the pair's connection is gone (closed, crashed, reset or failing), the next terminal output, stdout, stderr data or window resize of a gated session reports that the command must be terminated, never success and never merely disabling the callback. It keeps doing so for every later one.",
  ["schedules","fault_sequences","histories","crash_points"],
  "for all moments and manners of losing the pair, in all output sequences",
  NOTEST,[LIB,SOCK,ERR,CORE],[("log_output error mapping",LIB),("From<Error> for LogStatus",ERR)],None,["return values of the output callbacks"])

p("C12","Input piped into a gated session is always refused",
  "Data arriving on a gated session's standard input (not the terminal) always makes the session be terminated, from the first chunk on, whatever logging hints sudo gives and whatever the pair said. Only exempt sessions may be piped to.",
  ["inputs","configurations","histories"],
  "for all input bytes, all combinations of log hints, all points of the session",
  NOTEST,[LIB,CORE],[("log_stdin",LIB),("iolog_stdin hint handling",CORE)],None,["return value of log_stdin"])

p("C13","A finished or refused session hangs up on its pair",
  "When a session is refused after a pair connected, or when it ends, every connection of that session is hung up by the time the refusal or close returns, so the pair's terminal is released; nothing is sent afterwards. Other people still queued on the socket are hung up on as well.",
  ["schedules","histories","fault_sequences"],
  "for all ways a session can be refused or end, with any number of queued connections",
  NOTEST,[LIB,SOCK,STATE],[("SudoPair::close",LIB),("Drop for Socket",SOCK),("IoState::drop",STATE)],None,["end-of-file seen by the pair"])

p("C14","The pair sees the complete request before their answer counts",
  "No answer is read from the pair before the complete approval prompt has been sent to them: the configured prompt template, or the built-in one if it cannot be read in full, with every documented expansion replaced and everything else literal. The requested command appears in it with the program name, the flags given and every argument, byte for byte, however long or strange, and the working directory, host, user and ids are those of this session.",
  ["inputs","fault_sequences","configurations","schedules"],
  "for all templates, commands, arguments and environments, read errors at any byte of the template, short and interrupted writes",
  "The template tests cover a handful of expansions in isolation; no test reads a template from a file, fails a read midway, or sends a prompt.",
  [LIB,TPL,ENV,ST],[("remote_pair_prompt, template_spec",LIB),("Spec::expand",TPL),("invocation / cwd",ENV),("flags",ST)],None,["bytes sent on the connection before the first read"])

p("C15","The requesting user sees their prompt, literally, before sudo waits",
  "Before a gated session starts waiting for a pair, the user prompt (configured template or built-in default, expanded) has been written to the user's terminal, or, if there is none or it cannot be written, to sudo's error output through the front end. Text the plugin prints through the front end always appears literally: names, paths and messages are never interpreted as format directives.",
  ["inputs","fault_sequences","configurations"],
  "for all templates and session texts (including % sequences and arbitrary bytes), missing, failing and partially failing terminals",
  NOTEST,[LIB,PF,TTY],[("local_pair_prompt",LIB),("Write for PrintFacility",PF),("Tty",TTY)],None,["bytes written to the tty and to the printf callback"])

p("C16","Concurrent sessions never affect one another",
  "Any number of sudo sessions, of the same or different users, pending or running at once, are independent: an answer given on one session's socket decides only that session, each pair receives only its own session's prompt and output, and starting, refusing, ending or killing one session never removes, reuses or disturbs another's socket or connection.",
  ["schedules","histories","crash_points"],
  "for all interleavings of several sessions' system calls, their approvers and crashes",
  NOTEST,[LIB,SOCK],[("socket_path naming by uid and pid",LIB),("unlink of the own path only",SOCK)],None,["sockets, connections and decisions per session"])

p("C17","Failures of logging, terminal or templates never change the decision",
  "Whether a session is granted or refused, and whether its later callbacks succeed, does not depend on the system log, on the user's terminal, on the prompt files being readable, on sudo's print function, or on the final removal of the socket or the echo of the answer working. These may all fail, partially or repeatedly, with the same decision as if they had worked.",
  ["fault_sequences","configurations","schedules"],
  "for all failures and combinations of failures of those auxiliary facilities",
  NOTEST,[LIB,SOCK,PF],[("slog drain ignoring errors",LIB),("local_pair_prompt ignoring errors",LIB),("best-effort unlink after accept",SOCK)],None,["return values compared with the fault-free decision"])

p("C18","No plugin failure escapes into sudo",
  "Whatever a plugin written with this framework does in any callback, including panicking with any kind of payload or returning errors, nothing unwinds into or crashes the calling sudo: a panicking open refuses the command, a panicking output or input callback terminates it, and a panicking close just returns. A panic in one callback does not prevent later callbacks, including close, from behaving as specified.",
  ["programs","histories","inputs"],
  "for all plugins (success, error and panic in any callback, in any order) and callback sequences",
  "No test calls a plugin entry point at all.",
  [CORE,PERR,"sudo_plugin/src/macros.rs"],[("catch_unwind_open / catch_unwind_log",CORE),("UncaughtPanic mapping",PERR)],None,["return codes of every entry point; survival of the process"])

p("C19","Plugin instances follow the open/close life cycle exactly",
  "A plugin instance exists exactly from a successful open to the next close: it is closed once, with the exit status and error sudo passed, then dropped once, and only then its environment; callbacks reach only that live instance. Output, input and resize callbacks arriving when there is no live instance (before open, after a refused open, after close, or after a version query) are refused rather than accepted, and a close with no instance is harmless; open may be used again after close with fresh parameters.",
  ["histories","inputs"],
  "for all callback sequences, including ones sudo should not produce, and failures of any of them",
  "No test creates plugin state; the static storage and its life cycle are exercised only through the C entry points.",
  [STATE,CORE],[("IoState::init / drop / io_env / io_plugin",STATE),("open / close trampolines",CORE)],None,["construct, close and drop events of the plugin"])

p("C20","Each callback reaches its own handler with its data and result intact",
  "Every enabled callback invokes exactly the matching handler of the plugin once, with exactly the bytes, sizes or codes sudo passed; success is reported as success and an error as the status the plugin chose for that error. When sudo's hint says a stream is not logged, the handler for that stream, and no other, is skipped and success is reported, unless the plugin asked for hints to be ignored.",
  ["inputs","configurations","programs"],
  "for all callbacks, byte contents and lengths, all 32 hint combinations, both hint policies, all result mappings",
  "No test calls a plugin entry point at all.",
  [CORE,"sudo_plugin/src/plugin/io_plugin.rs",CI],[("log_* and change_winsize trampolines",CORE),("IGNORE_IOLOG_HINTS","sudo_plugin/src/plugin/io_plugin.rs")],None,["calls seen by the plugin; return codes"])

p("C21","Every error is reported to the user once, in full, in bounded time",
  "When a plugin callback returns an error, the error and each of its underlying causes are printed to sudo's error output exactly once, outermost first, each on a line starting with the plugin's name, and the callback then returns. This takes a bounded number of print calls however long the chain and even if printing fails, and failure to print never changes the returned status.",
  ["inputs","fault_sequences","programs"],
  "for all error chains and messages (any text), in every callback, with the print function failing at any call",
  "No test prints an error.",
  [PF,CORE],[("PrintFacility::write_error / write_line",PF),("map_err in the trampolines",CORE)],None,["calls of the printf callback"])

p("C22","Unusable parameters refuse the session without side effects",
  "If sudo speaks a plugin API older than 1.9, or omits or garbles any of the parameters identifying the invoking user or the sudo settings the plugin requires, the session is refused with an error naming the problem. Nothing is created on the file system, no signal handling or umask changes, no prompt is shown, and nobody is waited for.",
  ["inputs","configurations"],
  "for all API versions and all subsets of missing, malformed, overflowing or non-text parameters",
  "Version and option tests cover single parses; none calls open with bad parameters or looks at what it did.",
  [ENV,UI,ST,CORE,"sudo_plugin/src/version.rs",OPT],[("IoEnv::new",ENV),("Version::check","sudo_plugin/src/version.rs"),("required options",UI)],None,["return value of open, printf output, system calls"])

p("C23","The approval script never lets requesters approve, and its arguments are inert",
  "Whatever arguments, environment and nesting it is run with, the approval script never connects a terminal to a session's socket on behalf of the user who requested that session, as identified through sudo's record of who invoked it. Its two arguments are only ever used as numbers naming one socket: anything else is rejected, and nothing in them is executed, expanded or used to reach another path.",
  ["inputs","histories","configurations"],
  "for all argument strings, users, socket owners and modes, and direct or nested (sudo -u / sudo -g) invocations",
  "There is no test of the approval script.",
  [APPR],[("uid/ruid comparison and argument handling in main",APPR)],None,["connections made and commands run by the script"])

p("C24","The approval script connects only with the right account and restores the tty",
  "The approval script connects only to the requested session's socket and only when its account may write to it; otherwise it re-runs itself through sudo as the socket's owner or group, whichever the socket's mode admits, or reports failure with a nonzero status. However the monitoring ends (refusal, hang-up, failure or signal), the approver's terminal settings are restored to what they were.",
  ["histories","configurations","fault_sequences"],
  "for all socket modes, owners and groups, races with the session ending, failing helper commands, and ways of ending",
  "There is no test of the approval script.",
  [APPR],[("write test, sudo -u / sudo -g fallbacks, EXIT trap",APPR)],None,["commands the script runs, their arguments and order; its exit status"])

p("C25","The approver's keys act as documented while monitoring",
  "Whenever the approval script has connected the approver's terminal to a session, what the session sends is shown and what is typed is sent, each key at once without Enter and without local echo; Ctrl-C does not end the monitoring and with it the session, and Ctrl-D does.",
  ["histories","configurations","fault_sequences"],
  "for all callers, direct or nested (sudo -u / sudo -g) invocations, and terminal settings the script may start with",
  "There is no test of the approval script.",
  [APPR],[("stty and socat in pair",APPR)],None,["the terminal's settings and the descriptors of the command that connects, at the moment it connects"])

p("C26","The prompt leads the right people, and only them, to that very session",
  "With plugin and approval script installed together, whoever runs the command the requesting user is shown, without being that user, and can act as the session's target (root, the target account, a member of the target group, or somebody sudo lets become the target) is connected to exactly that session, however many are waiting, and is shown who asks to run what, where; their yes grants that session and they see its output. Their own sudo for this needs no pair, while any other command does. The requesting user (directly, in a root shell or through sudo as the target) and whoever can't act as the target are never connected by it, and no session is granted without such an approval.",
  ["histories","schedules","configurations","fault_sequences"],
  "for all interleavings of waiting sessions and approvers, requesters, targets, installation paths and prompt templates, and tolerable failures",
  "No test runs plugin and script together, or two sessions at once.",
  [LIB,SOCK,APPR],[("socket_path, socket_uid, socket_gid, socket_mode, template_spec",LIB),("is_exempt",LIB),("main",APPR)],None,["what is shown on each terminal, which session each approver is connected to, return values of open"])

p("C27","Plugins are told exactly what sudo passed, in every call of every session",
  "In every call of every plugin, the environment the framework shows it is that session's: each documented setting, user and command value is the one sudo passed under that name (the last, if repeated) in its documented type and notation (decimal numbers, octal umask, true/false, comma- or space-separated lists), or its documented default or nothing if sudo passed none or not one of that type. Raw values, arguments, environment variables and plugin options are available byte for byte, a lookup in any other type yields that value or is reported as missing or invalid, and no later session, other plugin or overwritten parameter memory changes what is seen. A plugin is opened if and only if everything required is present and valid, and what it writes to its output reaches the user as output, not as an error.",
  ["inputs","histories","programs","fault_sequences"],
  "for all parameter lists (any order, repetition, bytes, types), all interleavings of the sessions of several plugins, and failures to print",
  "Tests parse a few values of the option map; none builds a settings, user or command structure from what sudo passes, or looks at it from a callback.",
  [OPT,TR,ST,UI,CI,ENV],[("OptionMap::from_raw / get / get_bytes",OPT),("FromSudoOption implementations",TR),("TryFrom<OptionMap> for Settings / UserInfo / CommandInfo",ST),("IoEnv::new",ENV)],None,["the environment as seen by a plugin's handlers; what it prints"])

p("N01","FFI layout and version macros match sudo's plugin header",
  "The raw plugin bindings have the same structure layout, constants and version encoding as sudo's own plugin header, so that sudo and the plugin agree on every field and argument.",
  ["programs"],"for all fields, constants and version numbers","Layout is a compile-time fact; tests only round-trip some version numbers.",
  ["sudo_plugin-sys/src/lib.rs","sudo_plugin-sys/src/bindings/sudo_plugin.x86-64.rs"],[("io_plugin structure and version functions","sudo_plugin-sys/src/lib.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
