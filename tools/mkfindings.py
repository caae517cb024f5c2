#!/usr/bin/env python3
"""Single source of /verif/known_findings.json (run: python3 tools/mkfindings.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rope(bs):
    r = []
    for x in bs:
        if r and r[-1][0] == x:
            r[-1][1] += 1
        else:
            r.append([x, 1])
    return r


body = [0, 4, 77, 81, 84, 84, 5, 0xC2, 0, 10, 0, 0, 1, 99, 0, 1, 117, 0, 1, 255]
frame = [0x10, len(body)] + body
findings = [{
    "property": "C03", "id": "connect-password-not-utf8",
    "what": "CONNECT " + " ".join("%02X" % x for x in frame) + " is refused: Login.password is text in the string "
            "configurations, so a binary password (MQTT 5 section 3.1.3.6) that is not UTF-8 cannot be represented",
    "judge_as": "strict", "configurations": ["string", "cow", "boxed"],
    "session": {"mode": "one", "max": [], "ops": [{"o": "F", "b": rope(frame)}, {"o": "R", "max": []}]},
}]
fixed = [
    ("C05", "8d9577e", "PUBLISH 30 07 00 01 61 02 0B 05 58 (and SUBSCRIBE): what follows a Subscription Identifier "
     "was left undecoded and became payload or filter; also C01, C03, C15"),
    ("C07", "aee1d91", "writing a CONNECT to a non-empty buffer changed a byte of the packet before it and left "
     "its own connect flags empty"),
    ("C13", "102871b", "writing CONNACK with RefusedProtocolVersion, BadClientId or ServiceUnavailable panicked; also C08"),
    ("C08", "c83a6ad", "a refused packet left its first bytes in the output buffer"),
    ("C10", "42782bb", "SUBACK 90 02 00 01: a complete frame was answered with InsufficientBytes after being "
     "consumed; also C16, C17"),
    ("C05", "cf6b9e3", "PUBACK 40 09 00 01 00 02 1F 00 02 61 62: a property longer than its section was accepted; also C11"),
    ("C04", "ce70de5", "UNSUBSCRIBE A2 03 00 01 00 without filters was accepted"),
    ("C01", "fce9571", "Disconnect(reason, no properties) was written as E0 01 80 00, Disconnect(reason, empty "
     "properties) as E0 00, and E0 01 80 was refused; also C02, C03, C06, C15"),
]
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": findings,
               "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in fixed]}, f, indent=1)
    f.write("\n")
