#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
CLAIMED = {
 "C01": "every index, slice, allocation, integer operation and reflect access on decoding paths is shown in range for every input",
 "C02": "end positions are tracked symbolically; a nil return of Unmarshal needs the value's end to equal the input length",
 "C03": "every success exit of every decoder is matched against the grammar of the format",
 "C04": "type letters of every success exit are compared with the kinds the decoder is built for",
 "C05": "a failed call whose error does not reach the result is carried along as a pending failure",
 "C07": "depth arguments are bounded and grow at every nested call",
 "C08": "every conversion and arithmetic operation between digits and destination is exact on success exits",
 "C09": "provenance of every stored byte slice and string, capacity included",
 "C17": "decoding paths of types that may implement the interface, and the argument handed to the method",
 "C19": "effects of every path that accepts N;",
 "C23": "all argument shapes of Unmarshal",
 "C25": "every allocation size against the bytes that are left",
 "C06": "a failed nested encoding, compile or custom method whose error does not reach the result is carried along as a pending failure",
 "C10": "provenance of the returned slice against pooled and released memory, use of released objects, double release",
 "C11": "every access at run time to memory that outlives a call, with the locks held; writes to published codecs, to context state that aliases shared memory, and pooled objects used or put back after release",
 "C12": "every recursive compile call against a well-founded measure or a memo entry that is published first",
 "C13": "every recursive encoding step that can reach the same value again against cycle tracking, and every rejection as cyclic against an entry of an enclosing value",
 "C14": "every success exit of every encoder appends exactly one well-formed value; lengths and counts are compared symbolically with what follows",
 "C15": "every reflect operation against the kinds and nilness the value may have, every codec construction exit against the kinds its codec handles",
 "C16": "encoding paths of types that may implement the interface, what is written there, and calls on nil receivers",
 "C18": "type letters of every success exit of every encoder against the kind and nilness of the value",
 "C20": "depth, visited table and pooled objects on every exit, error exits included",
 "C21": "the key of every cache and memo access against the type the stored codec was built for",
 "C22": "both codecs of a struct type with one arbitrary field are built abstractly and compared pair by pair: participation, key, quoting, refusal of embedded structs",
 "C26": "every write reaches only memory the call itself allocated",
 "C27": "operand, base, format and width of every number that is written",
}
NA = {
 "C28": "needs equality of composed run-time values over all inputs (encode then decode of arbitrary Go values); static analysis can only decide its ingredients, which are C03/C04/C14/C18/C22/C27",
 "C29": "needs the numeric value of digit strings (decimal to binary conversion, correct rounding of floats); a relational fact over unbounded digit strings out of reach of a sound static argument here; overflow and truncation are covered by C08, delegation to strconv by C27",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
            "technique": "abstract interpretation of the SSA form (whole program, path partitioned): " + CLAIMED[i],
            "level": "other",
            "level_note": "Sound static analysis over all inputs and types, up to the models of reflect, sync, strconv and the analyser itself; a function outside the supported subset is reported as undecided in the evidence and raises no alarm."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
