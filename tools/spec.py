#!/usr/bin/env python3
"""The source of properties.jsonl and MANIFEST.json: run it after an edit."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "src/easyMockFramework/"
G = "src/easyMockGenerate/"
CT = G + "src/CTemplateGenerator/CodeGeneratorCTemplate.cpp"
LP = G + "src/LLVMParser/LLVMParser.cpp"
CL = G + "src/CmdLineParser/CmdLineParser.cpp"
TECH_H = "reference-model monitoring of recorded histories on ASan+UBSan-instrumented generated mocks"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note,
                  observe=observe or []))


prop("C01", "Each call consumes the next recorded expectation of its function",
     "The Nth call of a mocked C function since the last init is judged against, and returns the value of, the Nth expectation recorded for that function, "
     "with the matchers of that expectation and no others run exactly once each on the actual and the expected argument. "
     "Every matcher that refuses adds exactly one error naming the call number, the function and the parameter, and a parameter without matcher accepts anything. "
     "A call without a remaining expectation adds exactly one error, runs no matcher, writes nothing and consumes nothing.",
     ["histories", "inputs"], "every header of the supported subset, every sequence of expect, call, check, init and setting operations, all argument values",
     "The unit tests record and make a handful of calls per type of parameter, always with matching bookkeeping; they never interleave recording and calling of several functions at length.",
     [CT, F + "src/MockedFunction.c", F + "include/MockedFunction.h", F + "src/easyMock.cpp"],
     [("body of a generated mock", CT), ("expectation queue", F + "src/MockedFunction.c")], TECH_H,
     "Held on the histories run: a Python reference model predicts every call's outcome; sampled headers and histories, single thread.")
prop("C02", "Call order is checked against the recorded order, by default and exactly",
     "While call order is checked, which is the default until it is switched off, the kth accepted call since init is an order error if and only if its function is not the one "
     "of the kth recorded expectation; the error names both functions and no other deviation of order is reported. While it is off no order error is reported, and switching it back on "
     "compares again with the position reached meanwhile.",
     ["histories"], "all sequences of expectations and calls over several functions, with the check switched at any point",
     "The tests check two or three functions called in one wrong order with order checking enabled explicitly.",
     [F + "src/easyMock.cpp", CT], [("global queue of expected calls", F + "src/easyMock.cpp"), ("order test in the generated mock", CT)], TECH_H,
     "Held on the histories run, including exhaustive short permutations of calls.")
prop("C03", "check, getErrorArr and getErrorStr tell the same complete and stable story",
     "check returns 1 if and only if no error was reported since init and every function was called exactly as often as expected; otherwise it returns 0, and each function with a wrong count is reported by name "
     "with expected and actual number of calls. The array holds exactly the errors reported since init in the order they happened, ends with NULL, and stays unchanged as later errors are added; the string holds the same errors in the same order, "
     "and is NULL when there is none. Messages carry the call stack, containing the mock and its caller, exactly while that is switched on.",
     ["histories"], "histories with any number of errors of any kind, read back at any point, any number of times",
     "The tests read one or two errors at the end of a test.",
     [F + "src/easyMock.cpp", F + "include/easyMock.h"], [("error vector", F + "src/easyMock.cpp"), ("verification of counts", F + "src/MockedFunction.c")], TECH_H,
     "Held on the error-rich histories run; frames of the call stack are checked by function name only.")
prop("C04", "init forgets everything that happened before it",
     "After init no error, no expectation, no call count and no expected order from before remains, so any history that follows gives the same observable results as the same history in a fresh process. "
     "The call-order and call-stack settings are kept, and memory does not grow with the number of tests run.",
     ["histories"], "any abandoned history before init, any history after it, any number of repetitions",
     "Each unit test starts from a clean fixture and leaves nothing behind.",
     [F + "src/easyMock.cpp", F + "src/MockedFunction.c"], [("easyMock_init", F + "src/easyMock.cpp"), ("MockedFunction_init", F + "src/MockedFunction.c")],
     "differential monitoring of the same history after a mess and in a fresh process, with LeakSanitizer and heap-size monitoring", "Held on the pairs of histories run.")
prop("C05", "A mock takes part in init and check exactly while it is loaded",
     "A mock linked in a shared object is verified by check and reset by init from the moment the object is loaded until it is unloaded, and loading or unloading never disturbs the expectations, counts or errors of the other mocks. "
     "No operation after an unload touches memory of the object which is gone.",
     ["histories"], "any interleaving of loading and unloading shared objects of mocks with expect, call, check and init",
     "All unit-test mocks live as long as the process, in one executable.",
     [F + "src/MockedFunction.c", F + "src/easyMock.cpp", CT], [("registration of mocks", F + "src/easyMock.cpp"), ("constructor and destructor of a mock", CT)],
     "reference-model monitoring with AddressSanitizer over dlopen/dlclose histories", "Held on the histories run; call order across unloading is left open and not judged.")
prop("C06", "Capacity is usable in full and never exceeded silently",
     "A C function can hold at least EASYMOCK_MAX_MOCKED_CALL expectations per init, all of them effective, whatever other functions hold and whatever was recorded before earlier inits; "
     "one expectation more ends the program with a diagnostic and a failing exit status instead of being dropped or overwriting memory. C++ functions take any number of expectations.",
     ["histories", "configurations"], "all fill levels of any set of functions, for the default and overridden values of the limit",
     "No test records more than a few calls.",
     [F + "include/MockedFunction.h", F + "src/MockedFunction.c", CT], [("bound of the expectation arrays", F + "src/MockedFunction.c")],
     "boundary-driving histories under ASan+UBSan with exit-status monitoring", "Held on the limits and fill levels run.")
prop("C07", "Built-in matchers accept exactly equal values and report both",
     "Every cmp_ matcher of the framework accepts if and only if actual and expected value compare equal as their type (pointee for deref_ptr, content for strings), for every value of the type. "
     "On a mismatch the message names the parameter, gives both values so that they can be told apart and read back exactly (integers of any width, pointers, strings), and never overflows the message buffer whatever the length of the name or text.",
     ["inputs"], "all pairs of values of each supported type including extremes, infinities, NaN, 128-bit values and long strings",
     "The tests compare one or two hand-picked values per matcher.",
     [F + "src/easyMock_matcher.cpp", F + "include/easyMock.h", F + "include/easyMock_framework.h"], [("matchers", F + "src/easyMock_matcher.cpp")],
     "randomised and boundary value pairs against a value oracle under ASan+UBSan (clang and gcc builds)", "Held on the pairs of values evaluated.")
prop("C08", "Growing strings keep exactly what was appended",
     "A string of the framework always holds exactly the concatenation of what was appended to it, NUL-terminated, whatever its length, and copying, comparing, clearing and freeing strings of any length neither lose content nor leak, "
     "double-free or read outside their memory.",
     ["inputs", "histories"], "all sequences of operations on several strings, lengths around and far above the in-place size, several in-place sizes",
     "The string tests append a few short literals.",
     [F + "src/cstring.c", F + "include/cstring.h"], [("switch from in-place to heap storage", F + "src/cstring.c")],
     "model-based operation sequences under ASan+UBSan+LSan", "Held on the sequences run.")
prop("C09", "Exactly the recorded output reaches the caller's object",
     "When an accepted, ordered call has a recorded output for a pointer parameter, the pointed object holds that output after the call, byte for byte over the size of its type or over the recorded size for untyped pointers, and nothing around it is written. "
     "Parameters without a recorded output, unexpected calls and calls out of order leave the caller's objects untouched.",
     ["inputs", "histories"], "all functions with pointer and array parameters of the supported subset, any mix of present and absent outputs, any size of untyped outputs",
     "The tests copy one value of a few types.",
     [CT], [("output section of a generated mock", CT)], "shadow-memory comparison of the caller's objects around every call, under AddressSanitizer with exact-size objects",
     "Held on the calls made.")

exec(open(os.path.join(V, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec_more.py")) else None

if __name__ == "__main__":
    claimed = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are, with sanitizers, outside /repo", "source_commits": []},
           "checks": [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in claimed],
           "not_applicable": [{"property": p["id"], "reason": "its check is still being built"} for p in P if p not in claimed],
           "notes": "Every check rebuilds generator and framework from /repo's working tree into a scratch directory under /tmp, which it removes."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
