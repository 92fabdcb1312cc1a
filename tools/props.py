#!/usr/bin/env python3
"""The one table behind properties.jsonl and MANIFEST.json. Run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "repos/plywood/src/"
RT = R + "runtime/ply-runtime/"
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), note=None, level="model_checking", assume=""):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                  files=files, mech=mech, observe=list(observe), state=list(state), level=level,
                  note=note or ("A TLA+ specification of the component is checked exhaustively by TLC at small bounds; the real code, "
                                "rebuilt from /repo under AddressSanitizer with assertions on, executes generated programs and TLC accepts or "
                                "rejects every recorded trace. Bounded by the generated programs; trusts the harness' recording." + assume)))

prop("C01", "Buffered input delivers exactly the source's bytes, in order",
     "Whatever sizes the underlying pipe delivers and whatever mixture of single-byte, bulk, skip, peek-ahead, rewind, line and whitespace reads is used, an input stream hands out exactly the bytes of its source, each once, in order, and its reported position counts them. Rewinding to a saved position replays exactly the bytes that followed it. End-of-file is reported only when every byte of the source has been handed out and is never reported earlier; reads past it report failure and give zero bytes.",
     "inputs histories schedules", "every source content, every way the pipe cuts it into pieces, every sequence of stream operations, every block size",
     "The tests read a few short strings; block boundaries, short reads and rewinds across blocks are never reached.",
     [RT + "io/InStream.cpp", RT + "io/InStream.h", RT + "container/BlockList.cpp", RT + "container/BlockList.h"],
     [("refill and overlay blocks", "InStream::tryMakeBytesAvailableInternal"), ("saved positions keep blocks alive", "BlockList::Ref")],
     ["bytes returned, bytes available, getSeekPos, atEOF"])
prop("C02", "Buffered output reaches its destination complete and in order",
     "The bytes that reach the pipe, file, memory string or fixed buffer behind an output stream are exactly the bytes written to it, in order; after a flush that reports success none are missing. Short writes by the operating system are continued, and once the destination has failed every later write or flush reports failure and nothing out of order reaches it. A seek on a file moves the position at which following bytes land and never moves earlier ones.",
     "inputs histories fault_sequences", "every sequence of writes, reservations, formats, flushes and seeks, every block size, every short write and failure point of the destination",
     "Tests write small strings into memory; short writes and failures never happen in them.",
     [RT + "io/OutStream.cpp", RT + "io/OutStream.h", RT + "io/impl/Pipe_FD.h", RT + "io/Pipe.cpp"],
     [("block hand-over", "OutStream::tryMakeBytesAvailableInternal"), ("write loop", "OutPipe_FD_write")],
     ["bytes received by the destination, results of write/flush"])
prop("C03", "Text conversion does not depend on how the text is cut up",
     "Converting text between encodings gives the same result whatever pieces the input arrives in and however little room the output has; well formed text survives UTF-8/UTF-16 conversion there and back unchanged, malformed bytes never disturb the text after them and nothing is lost. Text exported in a format (encoding, newline style, byte order mark) and imported in it again comes back the same with LF line ends. Autodetection recognises every byte order mark and well formed UTF-8 with its majority newline style, and leaves the input at its start. A position in a text is told as the line, the column (characters, with tabs going to every fourth) and the bytes into each, at every offset of a text of any length.",
     "inputs schedules", "every text and byte string, every partition into input pieces and output room, every format",
     "Tests convert whole strings; splits inside a multi-byte sequence are not sampled.",
     [RT + "io/text/TextConverter.cpp", RT + "io/text/TextFormat.cpp", RT + "io/text/NewLineFilter.cpp", RT + "string/TextEncoding.cpp", RT + "string/TextEncoding.h", RT + "io/text/FileLocationMap.cpp"],
     [("partial code units carried over", "TextConverter::convert"), ("newline state machine", "NewLineFilter"), ("scoring", "TextFormat::autodetect")],
     ["converted bytes, bytes consumed, detected format"])

from props_more import more
more(prop, R, RT)

REASONS = {}
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), (p["id"], x)
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "checks/run.sh %s quick" % i, "thorough_cmd": "checks/run.sh %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "TLA+ specification, TLC model checking and TLC trace validation of the real code",
                           "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": i, "reason": REASONS.get(i, "the check is still being built")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na,
                   "hooks": {"guard": "none", "enable": "no hooks: harnesses compile /repo's sources as they are", "source_commits": []},
                   "notes": "See DESIGN.md. Known and fixed findings: known_findings.json."}, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
