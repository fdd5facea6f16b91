#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def p(id, title, statement, over, text, tests, files, mech, observe, tech, note, level="model_checking", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mech=mech, observe=observe, tech=tech, note=note, level=level, state=state))

SEQ = "bounded exhaustive model checking of the real traversal against a reference model (all trees x settings x deviations)"
SEQN = ("Every case within the bounds is executed on the code in /repo over an in-memory file system and its complete event "
        "trace is compared with the one the reference model allows. Trusted: the reference model, the in-memory file system.")

p("C01", "A traversal presents every subscribed node exactly once, in the promised order",
  "For any file tree, a completed navigation invokes the client exactly once for each node of the subscribed kind (files, directories, directories with their files, or both) and for nothing else, a directory before anything beneath it. Siblings come in name order (ignoring case unless case sensitive sorting is asked for), directories before files unless files-first is asked for, whatever order the file system lists them in. A tree that is a single file is presented as that file. However the tree is spelled (\".\", \"/\", a separator at the end, dots in between), it is the same tree.",
  ["inputs", "configurations"], "all trees, all listing orders, all subscriptions, all sort settings",
  "tests walk a handful of fixed fixture trees (the RETRO-WAVE index) whose listings are already sorted",
  ["internal/kernel/navigator-agent.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-directories.go", "internal/kernel/navigator-universal.go", "internal/kernel/contents.go", "internal/kernel/mediator.go", "tapable/broadcasters.go"],
  [{"name": "traverse loop and vapour contents", "where": "internal/kernel/navigator-agent.go"}, {"name": "sort hooks", "where": "tapable/broadcasters.go, internal/kernel/contents.go"}],
  ["client callback"], SEQ, SEQN)
p("C02", "A depth limit or no-recurse cuts the traversal exactly at that depth",
  "With a depth limit of n, exactly the subscribed nodes at depth n or less (the tree is at depth 0) are presented; no-recurse is a limit of 1 and no limit presents everything. Nothing beyond the limit is read from the file system, and the limit does not change the order or the description of what is presented.",
  ["inputs", "configurations"], "all trees, all limits, all subscriptions",
  "tests use one tree with one or two limits",
  ["internal/level/periscope.go", "internal/kernel/mediator.go", "pref/options-navigation-behaviours.go"],
  [{"name": "periscope descend/ascend", "where": "internal/level/periscope.go"}], ["client callback", "ReadDir calls"], SEQ, SEQN)
p("C03", "Each node presented describes itself and its place in the tree correctly",
  "For every node presented, path, name, parent directory, sub path relative to the tree, depth, leaf flag, scope, parent node, directory entry and file information agree with the tree that is actually there, for relative and absolute trees (\".\" and \"/\" included), however they are spelled, and for any names; paths are clean, and the sub path is the path of the parent relative to the tree, with a separator in front (none for the tree itself). A node whose information can not be obtained is presented with that error instead.",
  ["inputs", "configurations"], "all trees, names (incl. non ASCII), 6 roots and 6 ways to spell each, subscriptions",
  "tests check a few nodes of ASCII fixtures, sub paths for two settings only",
  ["internal/kernel/extend.go", "internal/kernel/navigator-agent.go", "core/node.go", "tapable/broadcasters.go", "internal/level/periscope.go"],
  [{"name": "node extension", "where": "internal/kernel/extend.go"}, {"name": "sub path hooks", "where": "tapable/broadcasters.go"}], ["client callback"], SEQ, SEQN)
p("C04", "A node filter presents exactly the matching nodes and never prunes the tree",
  "With a node filter (glob, regex, extended glob, combined or custom), the nodes presented are exactly those of the unfiltered traversal which the definition matches, honouring scope, negation and the configured answer for nodes out of scope; what is beneath a node that does not match is still visited. The metrics count exactly what was presented and what was filtered out.",
  ["inputs", "configurations"], "all trees x filter definitions (pattern kind, scope, negation, if-not-applicable)",
  "each test pairs one pattern with the fixture tree; combinations of scope, negation and applicability are not covered",
  ["internal/filtering/glob.go", "internal/filtering/regex.go", "internal/filtering/glob-ex.go", "internal/filtering/poly.go", "internal/filtering/base.go", "internal/filtering/builders.go", "internal/feat/filter/scheme-native.go", "internal/feat/filter/schemes.go", "internal/feat/filter/scheme-custom.go"],
  [{"name": "filters", "where": "internal/filtering"}, {"name": "filter plugin schemes", "where": "internal/feat/filter"}], ["client callback", "result metrics"], SEQ, SEQN)
p("C05", "Directories are presented with exactly their (matching) files",
  "Under the directories-with-files subscription each directory is presented together with exactly the files directly inside it, reduced to those a child filter matches when one is configured. Child filters never hide directories, and the child metrics count exactly the files found and filtered out.",
  ["inputs", "configurations"], "all trees x child filter definitions x settings",
  "tests use the fixture tree with a few patterns",
  ["internal/feat/nanny/nanny-plugin.go", "internal/feat/filter/scheme-nanny.go", "internal/feat/filter/scheme-hybrid.go", "internal/filtering/child.go"],
  [{"name": "nanny plugin", "where": "internal/feat/nanny"}, {"name": "child filter", "where": "internal/filtering/child.go"}], ["client callback", "result metrics"], SEQ, SEQN)
p("C06", "Sampling presents exactly the requested number of entries of each directory",
  "With sampling, from each directory exactly the first (or last, in reverse) n matching files and m matching directories in listing order are visited, all of them when there are fewer; nothing else changes. Sampling filters restrict only the kind they are scoped to.",
  ["inputs", "configurations"], "all trees x quantities x direction x sampling filters x subscriptions",
  "tests sample the fixture tree with quantities of 1-3 in a few combinations",
  ["internal/feat/sampling/controller.go", "internal/filtering/sample.go", "internal/feat/filter/scheme-sampler.go", "pref/options-sampling.go"],
  [{"name": "sampling read-directory hook", "where": "internal/feat/sampling/controller.go"}], ["client callback", "result metrics"], SEQ, SEQN)
p("C07", "Hibernation presents exactly the nodes between wake and sleep",
  "With a wake condition nothing is presented before the first node which meets it, and with a sleep condition nothing after the first later node which meets that one; whether those two nodes themselves are presented follows the configured inclusiveness. The wake and sleep notifications are sent exactly once each, at those nodes, and never otherwise.",
  ["inputs", "configurations"], "all trees x pairs of wake/sleep conditions x inclusiveness x subscriptions, with and without a node filter",
  "tests pick about ten wake/sleep pairs on the fixture tree",
  ["internal/feat/hiber/hibernate-simple-profile.go", "internal/feat/hiber/hibernate-defs.go", "internal/feat/hiber/hibernate-plugin.go", "pref/options-hibernate.go"],
  [{"name": "hibernation profile", "where": "internal/feat/hiber/hibernate-simple-profile.go"}], ["client callback", "wake/sleep notifications"], SEQ, SEQN)
p("C08", "Life cycle notifications bracket the traversal exactly",
  "Begin is notified once before anything else and end once after everything else, whatever the outcome; each directory or file entered is notified by one descend and one matching ascend, properly nested around everything that happens within it. Every listener of an event gets every notification, in registration order.",
  ["inputs", "configurations", "fault_sequences"], "all trees x outcomes (completion, error, skip, panic, fault) x number of listeners",
  "tests check that handlers are called at least once on the fixture tree",
  ["life/events.go", "internal/kernel/mediator.go", "pref/options-life.go", "tapable/broadcasters.go"],
  [{"name": "notification controls", "where": "life/events.go"}], ["life cycle listeners"], SEQ, SEQN)
p("C09", "The client decides: errors end the traversal, skips prune exactly",
  "An error returned by the client ends the traversal at once and is what the navigation returns; a request to skip all ends it at once without an error; a request to skip a directory prunes exactly what is beneath it (for a file: the rest of its directory). The answers of a skip handler are honoured in the same way, and it is consulted once for each directory visited.",
  ["inputs", "fault_sequences"], "all trees x every position and pair of positions of such a request x subscriptions",
  "tests return such errors from one node of the fixture tree",
  ["internal/kernel/navigator-agent.go", "internal/kernel/navigator-files.go", "internal/kernel/navigator-universal.go", "internal/kernel/navigator-directories.go", "stock/error.go"],
  [{"name": "travel loop and skip handling", "where": "internal/kernel/navigator-agent.go"}], ["client callback", "skip handler", "returned error"], SEQ, SEQN)
p("C10", "File system faults are reported once and never lose the rest of the tree",
  "When directories can not be read, each is still presented (as empty) and its error passed to the skip handler, and everything else is visited as if there had been no fault. When the top of the tree can not be obtained the fault handler decides what is returned, by default the error; nothing is presented.",
  ["inputs", "fault_sequences"], "all trees x every set of up to 3 unreadable directories x failing top and entry information x subscriptions",
  "tests inject one read error at one place",
  ["internal/kernel/navigator-agent.go", "internal/kernel/contents.go", "pref/defects.go", "pref/defaults.go"],
  [{"name": "fault handling in top and traverse", "where": "internal/kernel/navigator-agent.go"}], ["client callback", "skip handler", "fault handler", "returned error"], SEQ, SEQN)
p("C11", "A panic in the client is rescued, and the state to resume is saved",
  "A panic raised by the client, at any node, never escapes: the navigation ends with an error which says whether state was saved. When it says saved, the state written identifies the tree, subscription, place and depth at which the traversal was and what had been counted; a custom panic handler replaces the saving.",
  ["inputs", "crash_points"], "all trees x every node as panic point x kinds of panic value x failing writes x custom handlers",
  "tests panic at one node of the fixture tree",
  ["internal/kernel/navigator-agent.go", "internal/kernel/navigation-vapour.go", "pref/defects.go", "internal/persist/marshaler.go", "internal/persist/json-options.go"],
  [{"name": "recover in the navigator", "where": "internal/kernel/navigator-agent.go, internal/kernel/mediator.go"}, {"name": "state written", "where": "internal/persist/marshaler.go"}], ["returned error", "file written"], SEQ, SEQN)

exec(open(os.path.join(here, "tools", "docs_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "docs_more.py")) else None

P.sort(key=lambda x: x["id"])
NA = globals().get("NA", [])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": "Must hold for " + x["text"] + "; " + x["tests"] + ".",
            "anchors": {"files": x["files"], "mechanism": x["mech"], "observe_at": x["observe"], "state": list(x["state"]), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": x["id"], "quick_cmd": "bash check.sh " + x["id"], "thorough_cmd": "bash check.sh " + x["id"] + " thorough",
        "technique": x["tech"], "level": x["level"], "level_note": x["note"],
        "evidence_file": "evidence/%s.json" % x["id"],
    } for x in P],
    "not_applicable": NA,
    "notes": "No hooks in /repo. known_findings.jsonl lists what was repaired (fix: commits) and what is recorded only.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")

# checked against the schemas
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(here, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(P))
except ImportError:
    print("not validated")
