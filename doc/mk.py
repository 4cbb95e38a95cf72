#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = {c["id"]: c for c in json.load(open(R + "/checks.json"))}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), na=None, note=""):
    assert len(title) <= 80, title
    P.append(dict(d=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
        na=na, note=note))

NUM = ["numtree/node32.go", "numtree/node64.go"]
prop("C01", "Radix-tree lookup returns the most specific stored prefix",
  "For a 32- or 64-bit radix tree built by any sequence of insertions and deletions, a longest-prefix lookup of a key with a bit count returns the value of the longest stored prefix that contains it and is no longer than the given bit count, and reports nothing exactly when there is none. An exact lookup returns the value stored for exactly that prefix, comparing only the significant bits, and reports nothing when it is not stored. Bit counts below zero act as zero and above the key width as the key width.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all keys, all bit counts",
  "The tests look up a few dozen fixed keys in a few fixed trees; the set of (tree, key, bits) is astronomically larger and branch choice depends on every bit.",
  NUM, [("longest match", "numtree/node32.go:322 match"), ("exact match", "numtree/node32.go:363 exactMatch"), ("prefix invariant", "numtree/node32.go:197 insert")],
  ["Node32.Match", "Node32.ExactMatch", "Node32.FindNode", "Node64.Match", "Node64.ExactMatch", "Node64.FindNode"])
prop("C02", "Radix-tree insert and delete change exactly the prefixes they should",
  "Inserting a prefix into a 32- or 64-bit radix tree yields a tree that stores the same prefixes and values as before except that the inserted prefix now has the new value. Deleting a prefix yields a tree that stores exactly the previous entries not contained in that prefix. The flag of a deletion is true exactly when some stored entry was contained in it.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all keys, bit counts and values",
  "The tests compare dumps of a few handpicked trees; node splitting, merging and glue-node removal depend on the relation of every pair of stored prefixes.",
  NUM, [("split and replace", "numtree/node32.go:197 insert"), ("subtree removal", "numtree/node32.go:399 del")],
  ["Node32.Insert", "Node32.Delete", "Node64.Insert", "Node64.Delete"])
prop("C03", "Radix-tree Insert and Delete never alter an existing tree",
  "No call of the copy-on-write insertion or of deletion on a 32- or 64-bit radix tree writes to any node that existed before the call. So every tree obtained earlier keeps answering every lookup and enumeration as before, however many trees are derived from it, and may be read by other goroutines meanwhile.",
  ["inputs", "histories", "schedules"], "all trees sharing structure in any way, all later operations on any of them",
  "A test compares one old tree after one update; sharing between versions makes the damage appear only in another version and only for some shapes.",
  NUM, [("copy-on-write", "numtree/node32.go:197 insert"), ("copy-on-write", "numtree/node32.go:399 del")],
  ["Node32.Insert", "Node32.Delete", "Node64.Insert", "Node64.Delete"])
prop("C04", "Radix-tree enumeration lists every entry once, in key order",
  "Enumerating a 32- or 64-bit radix tree delivers every stored prefix exactly once with its current value, nothing else, and then closes the channel. Entries come in ascending order of their significant key bits, a containing prefix before the prefixes it contains.",
  ["inputs", "histories"], "all trees reachable by any history of operations",
  "The tests enumerate a few small trees.",
  NUM, [("pre-order walk", "numtree/node32.go:307 enumerate")], ["Node32.Enumerate", "Node64.Enumerate"])
prop("C05", "Radix-tree in-place insertion stores exactly the given prefix",
  "In-place insertion into a 32- or 64-bit radix tree makes the returned tree store what the tree stored before, with the given prefix now mapped to the given value and nothing else changed. It writes to no node outside the given tree.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all keys, bit counts and values",
  "The tests insert a few fixed keys in a fixed order.",
  NUM, [("in-place split and replace", "numtree/node32.go:252 inplaceInsert")], ["Node32.InplaceInsert", "Node64.InplaceInsert"])

STR = ["strtree/strtree.go", "strtree/node.go"]
prop("C06", "String tree behaves as a map under its comparison",
  "For every comparison function that is a consistent ordering, a string tree behaves as a map whose keys are equal when they compare as zero: an insertion changes the value of that key only, a lookup returns the value last inserted for an equal key and reports nothing when there is none. A deletion removes exactly that key, reports true exactly when it was present, and keeps all other entries.",
  ["inputs", "histories", "configurations"], "all trees reachable by any history of insertions and deletions, all keys, all consistent comparison functions",
  "The tests use a few fixed key lists with one or two comparisons; which rotation runs depends on the whole history.",
  STR, [("top-down red-black insertion", "strtree/node.go:68 insert"), ("top-down red-black deletion", "strtree/node.go:310 del"), ("search", "strtree/node.go:270 get")],
  ["Tree.Insert", "Tree.Get", "Tree.Delete", "Tree.IsEmpty"])
prop("C07", "String tree Insert and Delete never alter an existing tree",
  "No call of the copy-on-write insertion or of deletion on a string tree writes to any node that existed before the call. So every tree obtained earlier keeps its content, order and shape however many trees are derived from it, and may be read by other goroutines meanwhile.",
  ["inputs", "histories", "schedules"], "all trees sharing structure in any way, all later operations on any of them",
  "A node that is shared instead of copied shows only in an older version, and only for histories that rotate or recolour just there.",
  STR, [("path copying", "strtree/node.go:68 insert"), ("path copying", "strtree/node.go:310 del")], ["Tree.Insert", "Tree.Delete"])
prop("C08", "String tree enumeration lists every entry once, in comparison order",
  "Enumerating a string tree delivers every stored key exactly once with its current value in strictly ascending order of the tree's comparison, nothing else, and then closes the channel.",
  ["inputs", "histories", "configurations"], "all trees reachable by any history of operations, all consistent comparison functions",
  "The tests enumerate a few small trees.",
  STR, [("in-order walk", "strtree/node.go:291 enumerate")], ["Tree.Enumerate"])
prop("C09", "String and label trees stay balanced",
  "Every string tree and every domain-label tree, whatever insertions (copying or in place) and deletions made it, is balanced: no path from the root to a leaf is more than twice as long as another. So its height is logarithmic in the number of entries.",
  ["inputs", "histories"], "all trees reachable by any history of insertions, in-place insertions and deletions",
  "The tests check a few dumped trees; a missed recolouring violates the balance only after particular histories and no result changes.",
  STR + ["dltree/node.go"], [("rotations", "strtree/node.go:245 single"), ("rotations", "strtree/node.go:257 double"), ("colour flips", "strtree/node.go:68 insert"), ("colour push-down", "strtree/node.go:310 del")],
  ["Tree.Dot", "Tree.Insert", "Tree.InplaceInsert", "Tree.Delete"])
prop("C10", "String tree in-place insertion stores exactly the given key",
  "In-place insertion into a string tree makes it store what it stored before with the given key now mapped to the given value and nothing else changed. It writes to no node outside that tree.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all keys and values",
  "The tests insert fixed lists of keys.",
  STR, [("in-place red-black insertion", "strtree/node.go:165 inplaceInsert")], ["Tree.InplaceInsert"])

DL = ["dltree/dltree.go", "dltree/node.go"]
prop("C11", "Label tree behaves as a map over binary labels",
  "A domain-label tree behaves as a map over binary labels: inserting (copying or in place), looking up and deleting a raw label affects and reports exactly that label. The non-raw operations act the same on the label parsed from the given human-readable text, so differently written forms of one label, in case or escaping, are one key.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all labels that parse",
  "The tests use fixed label lists; which rotation runs depends on the whole history.",
  DL + ["domain/label.go"], [("red-black operations", "dltree/node.go"), ("label conversion", "dltree/dltree.go:24 Insert")],
  ["Tree.Insert", "Tree.InplaceInsert", "Tree.Get", "Tree.Delete", "Tree.RawInsert", "Tree.RawInplaceInsert", "Tree.RawGet", "Tree.RawDelete", "Tree.IsEmpty"])
prop("C12", "Label tree Insert and Delete never alter an existing tree",
  "No call of the copy-on-write insertion or of deletion on a domain-label tree writes to any node that existed before the call. So every tree obtained earlier keeps its content and order and may be read by other goroutines meanwhile.",
  ["inputs", "histories", "schedules"], "all trees sharing structure in any way, all later operations on any of them",
  "A node that is shared instead of copied shows only in an older version, and only for histories that rotate or recolour just there.",
  DL, [("path copying", "dltree/node.go")], ["Tree.Insert", "Tree.RawInsert", "Tree.Delete", "Tree.RawDelete"])
prop("C13", "Label tree enumeration lists every label once, shorter labels first",
  "Enumerating a domain-label tree delivers every stored label exactly once with its current value, shorter labels first and labels of one length in ascending byte order, and then closes the channel. The raw enumeration delivers the binary label, the other one its human-readable form.",
  ["inputs", "histories"], "all trees reachable by any history of operations",
  "The tests enumerate a few small trees.",
  DL, [("in-order walk", "dltree/node.go enumerate"), ("in-order walk", "dltree/node.go rawEnumerate")], ["Tree.Enumerate", "Tree.RawEnumerate"])

DOM = ["domain/name.go", "domain/label.go"]
prop("C14", "Domain name parsing accepts and decodes exactly the valid names",
  "Parsing a domain name accepts a text exactly when, after decoding backslash escapes (one non-digit character, or three digits of at most 255), it splits at unescaped dots (one trailing dot allowed) into at most 127 non-empty labels of at most 63 bytes each whose lengths plus one each add up to at most 255. The resulting name has exactly these labels, last label first, with ASCII letters in upper case, and gives back the original text; the empty text and a single dot give the name without labels.",
  ["inputs"], "all byte strings",
  "The tests parse a few dozen names; limits interact (escapes spanning dots, 127 labels, 255 bytes, 63-byte labels).",
  DOM, [("label boundaries", "domain/label.go:83 markLabels"), ("label decoding", "domain/label.go:168 getLabel"), ("assembly", "domain/name.go:47 MakeNameFromString")],
  ["MakeNameFromString", "Name.GetLabels", "Name.GetLabel", "Name.String"])
prop("C15", "Human-readable and binary labels convert back and forth without loss",
  "Converting a binary label of at most 63 bytes without lower-case letters to human-readable form and parsing the result gives the same label back. Parsing a human-readable label gives its bytes with escapes decoded and ASCII letters in upper case, or an error when an escape is invalid or more than 63 bytes result. The human-readable form escapes dots, backslashes and bytes outside the printable range and puts letters in lower case.",
  ["inputs"], "all byte strings",
  "The tests convert a few dozen labels; 256 byte values at every position and the buffer limits are not covered.",
  DOM, [("escaping", "domain/label.go:31 MakeHumanReadableLabel"), ("unescaping", "domain/label.go:168 getLabel")],
  ["MakeLabel", "MakeHumanReadableLabel"])
prop("C16", "Domain parsing and formatting never crash",
  "Parsing a name from any text, formatting any byte string as a label, and iterating over the labels of any name made by parsing, from the start or from any offset, never panic, and iterating from offset to offset visits every label once and ends. Parsing a single label never panics for a text without an unescaped dot before its end.",
  ["inputs"], "all byte strings, all offsets",
  "Crashes need particular lengths and characters at buffer ends.",
  DOM, [("buffer limits", "domain/label.go:31 MakeHumanReadableLabel"), ("offset checks", "domain/name.go:120 GetLabel")],
  ["MakeNameFromString", "MakeLabel", "MakeHumanReadableLabel", "Name.GetLabel", "Name.GetLabels"])

IPT = ["iptree/iptree.go", "numtree/node32.go", "numtree/node64.go"]
prop("C17", "IP tree lookup returns the most specific stored network",
  "Looking up an IPv4 or IPv6 network or address in a tree built by any sequence of insertions and deletions returns the value of the smallest stored network of the same family that contains it, and reports nothing exactly when there is none. IPv4 and IPv6 entries never affect each other, an address counts as IPv4 exactly when it has an IPv4 form, and a network with a mismatched address and mask length or a non-contiguous mask is never found.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all networks and addresses",
  "The tests look up a handful of addresses in a handful of trees; for IPv6 the answer depends on two nested trees and the fall-back between them at the /64 boundary.",
  IPT, [("two-level IPv6 lookup", "iptree/iptree.go GetByNet"), ("conversion", "iptree/iptree.go iPv6NetToUint64Pair")],
  ["Tree.GetByNet", "Tree.GetByIP"])
prop("C18", "IP tree insert and delete change exactly the networks they should",
  "Inserting a valid network or address yields a tree that stores the same networks as before except that the given one now has the new value; an invalid network changes nothing. Deleting a network yields a tree without exactly the stored networks of its family that it contains, and the flag is true exactly when there was one.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all networks, addresses and values",
  "The tests run a handful of operations; for IPv6 an update touches two nested trees with an exception at exactly /64.",
  IPT, [("two-level IPv6 update", "iptree/iptree.go InsertNet"), ("two-level IPv6 deletion", "iptree/iptree.go DeleteByNet")],
  ["Tree.InsertNet", "Tree.InsertIP", "Tree.DeleteByNet", "Tree.DeleteByIP"])
prop("C19", "IP tree Insert and Delete never alter an existing tree",
  "No call of the copy-on-write insertion or of deletion on an IP tree writes to any tree or node that existed before the call. So every tree obtained earlier keeps its networks and values and may be read by other goroutines meanwhile.",
  ["inputs", "histories", "schedules"], "all trees sharing structure in any way, all later operations on any of them",
  "Sharing between versions, in particular of the nested trees for long IPv6 prefixes, makes damage appear only in another version.",
  IPT, [("copy-on-write", "iptree/iptree.go InsertNet"), ("copy-on-write", "iptree/iptree.go DeleteByNet")],
  ["Tree.InsertNet", "Tree.InsertIP", "Tree.DeleteByNet", "Tree.DeleteByIP"])
prop("C20", "IP tree enumeration lists every network once, with its exact prefix",
  "Enumerating an IP tree delivers every stored network exactly once, with its prefix length, its address with all host bits zero, and its current value, and nothing else, and then closes the channel. IPv4 networks come first; within a family networks are in ascending order with a containing network before the ones it contains.",
  ["inputs", "histories"], "all trees reachable by any history of operations",
  "The tests enumerate a few small trees.",
  IPT, [("two-level walk", "iptree/iptree.go enumerate")], ["Tree.Enumerate"])
prop("C21", "IP tree in-place insertion stores exactly the given network",
  "In-place insertion of a valid network or address makes the tree store what it stored before with that network now mapped to the given value and nothing else changed; an invalid network changes nothing.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all networks, addresses and values",
  "The tests insert a few networks.",
  IPT, [("two-level in-place update", "iptree/iptree.go InplaceInsertNet")], ["Tree.InplaceInsertNet", "Tree.InplaceInsertIP"])
prop("C22", "IP tree descendant update reaches exactly the descendants of its target",
  "For a stored network as target, the descendant update calls the callback once for every stored network strictly inside the target, with that network and its value, and for nothing else. Exactly the values for which the callback asked for a change are replaced; nothing else in the tree changes.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all stored targets, all callbacks",
  "The tests use a few trees; IPv6 targets shorter than /64 must reach into every nested tree.",
  IPT, [("walk and update", "iptree/iptree.go UpdateDescendants"), ("key assembly", "iptree/iptree.go updateNode64")], ["Tree.UpdateDescendants"])

DT = ["domaintree/domaintree.go", "dltree/node.go", "domain/name.go"]
prop("C23", "Domain tree lookup returns the closest enclosing stored domain",
  "Looking up a domain name in a tree built by any sequence of insertions and deletions returns the value of the longest stored name that equals it or of which it is a subdomain, the root name included, and reports nothing exactly when there is none. Names are compared label by label, ignoring ASCII case.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all domain names",
  "The tests look up a few names in a few trees.",
  DT, [("label-wise descent", "domaintree/domaintree.go Get")], ["Node.Get"])
prop("C24", "Domain tree insert and delete change exactly the names they should",
  "Inserting a name, copying or in place, yields a tree that stores the same names as before except that the given one now has the new value. Deleting a name removes exactly that name, and deleting its subdomains removes exactly that name and the names below it; the flag is true exactly when something was removed.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all domain names and values",
  "The tests delete a few names; removal prunes branches that became empty at any depth up to 127 labels.",
  DT, [("path update", "domaintree/domaintree.go Insert"), ("pruning", "domaintree/domaintree.go copyBranch")],
  ["Node.Insert", "Node.InplaceInsert", "Node.Delete", "Node.DeleteSubdomains"])
prop("C25", "Domain tree Insert and Delete never alter an existing tree",
  "No call of the copy-on-write insertion or of either deletion on a domain tree writes to any node that existed before the call. So every tree obtained earlier keeps its names and values and may be read by other goroutines meanwhile.",
  ["inputs", "histories", "schedules"], "all trees sharing structure in any way, all later operations on any of them",
  "A node that is shared instead of copied shows only in an older version.",
  DT, [("path copying", "domaintree/domaintree.go Insert"), ("path copying", "domaintree/domaintree.go copyBranch")],
  ["Node.Insert", "Node.Delete", "Node.DeleteSubdomains"])
prop("C26", "Domain tree enumeration lists every name once",
  "Enumerating a domain tree delivers every stored name exactly once, written as its escaped lower-case labels joined by dots, with its current value, and nothing else, and then closes the channel. A name comes before its subdomains and the order depends on the stored names only.",
  ["inputs", "histories"], "all trees reachable by any history of operations",
  "The tests enumerate a few small trees.",
  DT, [("recursive walk", "domaintree/domaintree.go enumerate")], ["Node.Enumerate"])

UX = lambda n: ["uintX/%s%d" % (n, w) for w in (8, 16, 32, 64)]
prop("C27", "Integer-valued IP trees behave as the generic IP tree",
  "The IP trees with 8-, 16-, 32- and 64-bit integer values behave as maps from networks to integers under any history: lookups by network or address return the value of the smallest stored network that contains it, updates and deletions change exactly the networks they should and report truly, and enumeration lists every network once with host bits zero. Copy-on-write updates and deletions never alter an existing tree.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all networks, addresses and values, all four value widths",
  "The generated packages have few tests of their own; the IPv6 part differs from the generic tree.",
  [f + "/iptree.go" for f in UX("iptree")] + [f + "/node32.go" for f in UX("iptree")], [("two-level IPv6 tree", "uintX/iptree8/iptree.go")],
  ["Tree.InsertNet", "Tree.InplaceInsertNet", "Tree.InsertIP", "Tree.InplaceInsertIP", "Tree.GetByNet", "Tree.GetByIP", "Tree.DeleteByNet", "Tree.DeleteByIP", "Tree.Enumerate"])
prop("C28", "Integer-valued string trees behave as the generic string tree",
  "The string trees with 8-, 16-, 32- and 64-bit integer values behave as maps under their comparison for any history of insertions (copying or in place), lookups and deletions, enumerate every key once in ascending order, and stay balanced. Copy-on-write updates and deletions never alter an existing tree.",
  ["inputs", "histories", "configurations"], "all trees reachable by any history of operations, all keys, all consistent comparison functions, all four value widths",
  "The generated packages have few tests of their own.",
  [f + "/strtree.go" for f in UX("strtree")] + [f + "/node.go" for f in UX("strtree")], [("red-black operations", "uintX/strtree8/node.go")],
  ["Tree.Insert", "Tree.InplaceInsert", "Tree.Get", "Tree.Delete", "Tree.Enumerate", "Tree.IsEmpty"])
prop("C29", "Integer-valued domain trees behave as the generic domain tree",
  "The domain trees with 8-, 16-, 32- and 64-bit integer values behave as maps from names to integers under any history: a lookup returns the value of the longest stored name equal to or enclosing the given one, the root included, insertions and both deletions change exactly the names they should and report truly, and enumeration lists every name once. Copy-on-write updates and deletions never alter an existing tree.",
  ["inputs", "histories"], "all trees reachable by any history of operations, all domain names and values, all four value widths",
  "The generated packages have few tests of their own.",
  [f + "/domaintree.go" for f in UX("domaintree")] + [f + "/dltree.go" for f in UX("domaintree")] + [f + "/node.go" for f in UX("domaintree")], [("path update", "uintX/domaintree8/domaintree.go"), ("label tree", "uintX/domaintree8/node.go")],
  ["Node.Insert", "Node.InplaceInsert", "Node.Get", "Node.Delete", "Node.DeleteSubdomains", "Node.Enumerate"])

prop("C30", "Reading only part of an enumeration releases its resources",
  "A consumer that stops reading an enumeration before its end does not leave a goroutine behind for ever.",
  ["histories", "schedules"], "all trees, all points where a consumer stops",
  "Tests read every enumeration to its end.",
  ["numtree/node32.go", "strtree/strtree.go", "dltree/dltree.go", "iptree/iptree.go", "domaintree/domaintree.go"], [("unbuffered channel filled by a goroutine", "strtree/strtree.go Enumerate")], ["Enumerate"],
  na="A liveness property of goroutines and channels; contracts over single calls cannot express it (and the API as designed does not promise it: an abandoned enumeration blocks its goroutine).")
prop("C31", "Generated integer packages match their templates",
  "The four generated copies of every integer-valued package are what the generator makes from the templates.",
  ["configurations"], "all four value widths",
  "No test runs the generator.",
  ["etc/main.go", "etc/template.go"], [("text templates", "etc/template.go")], ["uintX"],
  na="A statement about source text produced by text/template, not about the behaviour of functions; the generated Go sources themselves are verified instead (C27 to C29).")
prop("C32", "Names rebuilt through reflection equal the original",
  "Extracting a name from a reflected value gives, for a name or a pointer to a name, a name with the same text and the same labels; for a string that is a valid name, or a pointer to one, the name that parsing the string gives. Every other value (a text that is not a valid name, a value of any other type including named string types, a pointer to a pointer, a nil pointer, the zero reflect.Value) is rejected with a panic.",
  ["inputs"], "all reflected values, all names, all texts",
  "The tests extract a few fixed names and check one rejected value of each kind.",
  ["domain/name.go"], [("extraction by the dynamic type", "domain/name.go:92 MakeNameFromReflection")], ["MakeNameFromReflection"])

with open(R + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p["d"]) + "\n")
man = dict(version=1, setup_cmd="./setup.sh",
    checks=[], not_applicable=[],
    notes="Verification of /repo needs no hooks: contracts live in /verif/contracts keyed by package, function and loop ordinal and the Go source is translated on every run.")
for p in P:
    i = p["d"]["id"]
    if i in claimed:
        man["checks"].append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
            evidence_file="evidence/%s.json" % i,
            technique="contract-based deductive verification: function contracts and loop invariants on the Go source, mechanically translated on every run, discharged by Verus/Z3; failed obligations searched for a failing input on the real code",
            level="proof", level_note=claimed[i].get("note", "") or "All obligations of the functions listed in the evidence are discharged for all inputs. Trusted: the Go-to-Verus translation, the prelude's memory model and library contracts, Verus and Z3."))
    else:
        man["not_applicable"].append(dict(property=i, reason=p["na"] or "Not yet under contract: the check for this property is still being built."))
json.dump(man, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
