"""What each property is decided by."""

KNOWN_FILE = "KNOWN_FINDINGS.txt"

UNITS = {
    "engine": dict(
        root="engine/src/lib.rs",
        contracts="engine",
        skip_mods=[],
        post=[],
    ),
    "cli": dict(root="engine/src/lib.rs", also=[("cli", "cli/lib/src/lib.rs")], contracts="engine cli", preludes=["cli_prelude.rs"],
                skip_mods=[], post=[]),
    "client": dict(root="engine/src/lib.rs", also=[("client", "client/src/lib.rs")], contracts="engine clientlib client", skip_mods=[], post=[]),
    "tcp": dict(root="engine/src/lib.rs", also=[("client", "client/src/lib.rs")], contracts="engine clientlib tcp", preludes=["tcp_prelude.rs"],
                skip_mods=[], post=[]),
    "server": dict(root="engine/src/lib.rs", also=[("server", "server/src/main.rs")], contracts="engine server", preludes=["server_prelude.rs"], known_plain={"dispatch"},
                   skip_mods=[], post=[]),
    "timer": dict(root="lib/timer/src/lib.rs", contracts="timer", preludes=["timer_prelude.rs"], skip_mods=[], post=[]),
    "metrics": dict(root="lib/metrics/src/lib.rs", contracts="metrics", preludes=["metrics_prelude.rs"], skip_mods=[], post=[]),
}

REQ = "command::request::"
REQ_FNS = [REQ + x for x in ("Argument::", "MultiArgument::", "&", "bool::", "f64::", "i64::", "DashMap", "DashSet", "Arguments::", "Request::command_id",
                             "Request::args", "Request::typed_arg", "Request::arg", "Request::key", "Request::into_bytes", "Request::as_bytes")]
RESP = "command::response::"
CODES = ["command::command_id::", "command::request::context::ParseError::", "command::error::", "state::KeyType::", RESP + "ResponseType::"]

RLEN = "a response's payload, and each of its strings, is shorter than 2^32 bytes (lengths are written as 4 bytes)"
BITS = "f64::to_be_bytes and i64::to_be_bytes are inverted by from_be_bytes (assumed of core)"
LEN = "arguments are shorter than 2^32 bytes (their length is written as 4 bytes)"

PROPS = {
    "C01": dict(level="proof", proof=[("engine", ["sp", "command::request"], [REQ])], assumptions=[LEN]),
    "C02": dict(level="proof", proof=[("engine", ["sp", "command::request"], [REQ + "context::"])], assumptions=[]),
    "C03": dict(level="proof", proof=[("engine", ["sp", "command::request"], [REQ + "builder::", REQ + "Request::From<RequestBuilder>::from"])], assumptions=[LEN]),
    "C04": dict(level="proof", proof=[("engine", ["sp", "command::request"], REQ_FNS)], assumptions=[]),
    "C05": dict(level="proof", proof=[("engine", ["sp", "command::request"], REQ_FNS)], assumptions=[]),
    "C06": dict(level="proof", proof=[("engine", ["sp", "command::response"], [RESP])], assumptions=[RLEN, BITS]),
    "C07": dict(level="proof", proof=[("engine", ["sp", "command::response"], [RESP + "write_", RESP + "Response::"])], assumptions=[RLEN]),
    "C08": dict(level="proof", proof=[("engine", ["sp", "command::response"], [RESP + "context::"])], assumptions=[]),
    "C09": dict(level="proof", proof=[("engine", ["command::command_id", "command::request::context", "command::error", "command::response", "state"], CODES)],
                assumptions=[]),
}
IMPL = "command::impl::"
ONE = "DashMap and DashSet behave as maps and sets used by one task at a time (assumed contracts)"
KEYOK = "requests name no internal and no empty key where a command needs one (known finding of C17: they panic)"
FLOAT = "floating point operations are left uninterpreted"
SMALL = "a value that a command answers with is shorter than 2^32 bytes on the wire"
DISPATCH = "hop::Hop::dispatch"


def commands(*mods):
    """The command's own body, the state it works on and the dispatch to it."""
    return [("engine", [IMPL + m for m in mods] + ["state", "hop"], [IMPL + m + "::" for m in mods] + ["state::", DISPATCH])]


PROPS["C10"] = dict(level="proof", proof=commands("set", "get"), assumptions=[ONE, KEYOK, SMALL, BITS])
PROPS["C11"] = dict(level="proof", proof=commands("append"), assumptions=[ONE, KEYOK, SMALL])
PROPS["C12"] = dict(level="proof", proof=commands("increment", "increment_by", "decrement", "decrement_by"), assumptions=[ONE, KEYOK, FLOAT, BITS])
PROPS["C14"] = dict(level="proof", proof=commands("delete", "echo", "exists", "is", "keys", "length", "rename", "type"), assumptions=[ONE, KEYOK, SMALL])
ALL = [("engine", ["command::impl", "state", "hop"], [IMPL, "state::", DISPATCH])]
PROPS["C13"] = dict(level="proof", proof=ALL, assumptions=[ONE, KEYOK, SMALL])
PROPS["C16"] = dict(level="proof", proof=ALL, assumptions=[ONE, KEYOK, SMALL])
PROPS["C15"] = dict(level="proof", proof=[("engine", [IMPL + "stats", "metrics", "hop"], [IMPL + "stats::", "metrics::", "hop::"])], assumptions=[
    ONE, KEYOK, SMALL, "that a write of a metric changes its count by one is C18's contract"])
PROPS["C17"] = dict(level="proof", proof=[("engine", ["sp", "command", "state", "hop"], ["command::", "state::", "hop::"])],
                    assumptions=[ONE, KEYOK, SMALL, RLEN, LEN])
PROPS["C20"] = dict(level="proof", proof=[("engine", ["pubsub"], ["pubsub::"])], assumptions=[
    ONE, "every call of unbuffered_channel makes a new channel and close closes it (futures-intrusive, assumed)",
    "what remove_session returns for a session that has unsubscribed from everything isn't specified"])
PROPS["C21"] = dict(level="proof", proof=[("engine", ["session"], ["session::"])], assumptions=[
    ONE, "fewer than 2^32 - 1 sessions are ever added (ids are 4 bytes)", "that a write of a metric changes its count by one is C18's contract"])
PROPS["C18"] = dict(level="proof", proof=[("metrics", ["", "sp"], [x + "<T>::" for x in ("Snapshot", "Metrics", "Reader", "Writer")])], assumptions=[
    "all handles of an instance share its one snapshot, which lives exactly as long as the instance (Arc and Weak, assumed)",
    "two keys are equal exactly if they stand for the same value (Eq and Hash of the key type)",
    "DashMap behaves as a map used by one task at a time (assumed contract)", "no key is incremented 2^64 times"])
PROPS["C19"] = dict(level="proof", proof=[("timer", [""], ["Timer::", "now", "parse_timespec", "monotonic_time"])], assumptions=[
    "clock_gettime with the monotonic clock yields a valid reading that never decreases (libc, assumed)",
    "core::time::Duration behaves as a number of nanoseconds (assumed contract)",
    "nanoseconds beyond 32 bits, which no clock reports, are only shown not to panic"])
PROPS["C22"] = dict(level="proof", proof=[("cli", ["sp", "command::command_id", "command::request::builder", "cli"],
                                          ["cli::", "command::command_id::", REQ + "builder::"])], assumptions=[
    "lines are shorter than 2^32 bytes", "core's str::split, rsplitn and Peekable behave as documented; which f64 or i64 a word parses to is core's parse",
    BITS])
PROPS["C23"] = dict(level="proof", proof=[
    ("client", ["sp::of_client", "sp::args", "sp::calls", "client"], ["client::"]),
    ("engine", [IMPL + m for m in ("increment", "increment_by", "decrement", "decrement_by")] + ["sp", "hop"], [IMPL + "increment", IMPL + "decrement", DISPATCH])],
    assumptions=[ONE, KEYOK, SMALL, LEN, BITS, 
        "a request's future is polled, to its end, by a caller that keeps it: `poll` is under contract from the first poll on, with the block it makes executed where it is made",
        "the handle of a client leads to one backend (Arc), which is of this client's requests alone",
        "SetUnconfigured::map and Client::memory are bounded: driven by the harness, not proved"])
PROPS["C25"] = dict(level="proof", proof=[
    ("server", ["sp::of_server", "sp::calls", "server", "hop"], ["server::handle_socket_inner", "hop::"]),
    ("tcp", ["sp::of_tcp", "sp::args", "sp::calls", "client"], ["client::"]),
    ("engine", ["sp", "command::request::context", "command::response::context"], [REQ + "context::", RESP + "context::"])],
    assumptions=[ONE, KEYOK, SMALL, LEN,
        "tokio's sockets and BufReader are byte streams read and written in order (assumed contracts)",
        "the contract of send_and_wait is of one request at a time; that its locks give concurrent requests of one client their own responses is "
        "bounded: driven by the harness, as are the accept loop and the isolation of connections"])
NOT_APPLICABLE = {
    "C24": "Concurrent interleavings of dashmap guards and async tasks: the verifier has no permission model for DashMap's internal locks, "
           "and dashmap itself is outside the verified text; sequential contracts (C10 to C17) say nothing about interleavings.",
}
