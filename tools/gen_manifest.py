"""Rewrite MANIFEST.json from the checks that exist (run by hand: /opt/venv/bin/python -B tools/gen_manifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B -m dst.main check %s --tier %s"
TECH = "deterministic simulation with fault injection: seeded schedule and fault search over the real server in one process, checked against %s"
NOTE = {
    "C01": ("an authentication model that tracks, per connection, which credentials the client proved and when the first OK was sent",
            "Sampled logins: users, plugins, credentials, malformed and reordered handshake packets, callbacks that fail or park, vanishing clients. Trusts the simulated transport and the model's copy of mysql_native_password."),
    "C02": ("an independent implementation of the nonce challenge-response",
            "Sampled nonces, passwords, responses and bit flips; no cryptanalysis of SHA-1. os.urandom/SystemRandom are seeded, and that the nonce is drawn from them is checked."),
    "C03": ("a strict client-side protocol decoder that rejects any packet a standard client cannot place",
            "The decoder is written from the protocol documentation; the sampled capability sets, commands, results, faults and schedules bound the claim."),
    "C04": ("a byte-exact model of packet framing under any segmentation, including TLS",
            "Sampled payload sizes (around 2^24-1 too), segmentations, short writes, back-pressure and connection losses; TLS uses real OpenSSL over the simulated link."),
    "C05": ("the values the application returned, decoded by an independent decoder in both protocols",
            "Values and types are generated, so the claim is sampled; schedules (async row sources, stalls, cursors) are searched. Type inference is judged by whether the value survives."),
    "C06": ("an independent tokenizer that decides which text of an interpolated statement is data",
            "Statement texts and parameters are generated (partly adversarial); interleaving of prepares, executes, resets and long data on several statements is searched."),
    "C07": ("liveness bounds: every other client's probes are answered and a hostile connection ends or is answered within bounded virtual time and CPU work",
            "Hostile byte strings are sampled and mutated from valid sessions. Evaluating expensive SQL is a known finding and excluded."),
    "C08": ("a reference model of the session's life cycle over every callback",
            "Faults at every callback and every read/write position, sampled in combination with schedules."),
    "C09": ("a window oracle: a command may end with ERR only if a kill fell into its own window, KILL CONNECTION ends exactly its target",
            "Kill positions are sampled over event-loop iterations, not enumerated."),
    "C10": ("a resource model: sessions, registry entries, tasks and sockets of ended connections",
            "Sampled ends of connections (at every byte, in every phase) and application faults."),
    "C11": ("a reference model of prepared statements, long data and cursors per connection",
            "Histories of up to a few dozen operations on several statements with concurrent kills, failures and vanishing clients are sampled."),
    "C12": ("bounds on what the server pulls from the application and buffers while a client reads slowly or stops",
            "Limits are those of the property's statement; memory is measured as buffered bytes and pulled rows in the simulation, not RSS."),
    "C13": ("a routing model that decides from a generated statement's structure who must answer it",
            "Statements come from a grammar (templates and random query trees over user and catalog tables, CTEs, subqueries, unions); SQL that SQLGlot cannot parse is outside the claim."),
    "C14": ("an independent copy of the variable table and its assignment rules",
            "Sampled assignment and hint histories; where the statement leaves a choice (partial effect of a failed multi-assignment, odd values) the model accepts each choice and then holds the server to it."),
    "C15": ("independently chosen codecs for every character set",
            "Character sets for which Python has no codec (dec8, swe7, armscii8, keybcs2, geostd8) are outside; repertoire where codec variants disagree is left out."),
    "C16": ("the answer computed directly from the declared schema mapping",
            "Mostly a generated-workload claim: the schema varies between and during sessions, application callbacks park and fail; case sensitivity of LIKE is not judged."),
    "C17": ("the attribute list the client attached",
            "Mostly a generated-workload claim: attribute lists, capability combinations and SQL texts are sampled, over several interleaved connections and statements."),
    "C18": ("a model of the live id set, wrap-around and exhaustion included",
            "Long histories run against the real registry with stand-in connections; histories of a few hundred real connections run in the full simulation from a sequence placed near its wrap-around."),
}


def main():
    checks, missing = [], []
    for n in range(1, 19):
        pid = "C%02d" % n
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            oracle, note = NOTE[pid]
            checks.append({"property": pid, "quick_cmd": PY % (pid, "quick"), "thorough_cmd": PY % (pid, "thorough"), "evidence_file": "evidence/%s.json" % pid,
                           "technique": TECH % oracle, "level": "exploration",
                           "level_note": note + " Every failure replays exactly from its file; the absence of one is evidence, not proof."})
        else:
            missing.append({"property": pid, "reason": "its check is still being built"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sqlglot, cryptography\"", "checks": checks, "not_applicable": missing,
         "notes": "No hooks in /repo: the simulator replaces the selector, sockets, clock and randomness from outside (dst/). Known findings: known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
