#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("TLC evaluates the property's predicate of the TLA+ specification on every step of histories recorded from "
        "the real library in its four string configurations. Holds for everything explored, not for all inputs: {how} "
        "Trusted: TLC, the wire numbers in MqttTables.tla, and that the harness reports truthfully what the library "
        "returned.")
HOW = {
    "C01": "plans are written packets of every kind, enumerated and random.",
    "C02": "the bytes are judged by the specification's own decoder, never by the library's.",
    "C03": "plans are frames laid out by a peer in every permitted form, enumerated and random.",
    "C04": "plans are frames with one or more faults injected, enumerated and random.",
    "C05": "plans vary property sections in every packet, including overruns and truncations.",
    "C06": "plans are written packets around every length-encoding boundary up to 268435455.",
    "C07": "plans are sequences of writes into one buffer, with and without earlier contents.",
    "C08": "plans are packets with one unrepresentable field, and their representable neighbours.",
    "C09": "plans are buffers holding whole, partial, refused and over-limit frames.",
    "C10": "plans offer every prefix of a frame.",
    "C11": "plans deliver one stream in many portionings, and to a reader that follows the hints.",
    "C12": "plans put the limit at, just below and just above the remaining length.",
    "C13": "a crash, hang or arithmetic overflow of the harness process is an event of the history.",
    "C14": "histories of the four configurations are stepped together.",
    "C15": "everything accepted from a peer is re-encoded and decoded again.",
    "C16": "plans inject exactly one fault with a chosen offending value.",
    "C17": "check, packet-level and type-level calls are made on the same buffer at every step; the parts of a packet are also written and read by their own functions.",
    "C18": "every constructor and conversion is called with enumerated and random arguments.",
    "C19": "an allocator that counts records the most memory each call had in use at once.",
}
m = {
    "version": 1,
    "setup_cmd": "python3 tools/check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 tools/check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
        "technique": "TLA+ specification; TLC trace validation of recorded histories of the real code",
        "level": "model_checking",
        "level_note": NOTE.format(how=HOW[p["id"]]),
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks: the public API is enough. Known findings and repaired defects: known_findings.json. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
