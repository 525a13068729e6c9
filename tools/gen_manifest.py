#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
GEN = "seeded proptest generation with shrinking; "
C = {
 "C01": (GEN + "round trip against the generated values (bitwise)", "Random columns of every fixed-width type, up to several on-disk buffers; exact comparison with the generated values. Trusts the harness' own value generator."),
 "C02": (GEN + "round trip against the generated values (bytewise)", "Random string/vector columns with run-length entry-size profiles around every known boundary; exact comparison."),
 "C03": (GEN + "round trip and metamorphic comparison with columns written alone", "Random multi-column trees of unequal lengths, read in random orders and interleavings; branch listing compared with the specification."),
 "C04": (GEN + "stateful write history against a map model", "Random sequences of tree writes over few names, including refused ones; the reopened file is compared with the model."),
 "C05": (GEN + "recorded event history against the lock-step protocol model", "Every request to every column iterator and every callback is logged and compared with the exact expected event list."),
 "C06": (GEN + "invariant over every byte of the written file, by an independent record parser", "Random files, repeated and refused trees included; every record, pointer and size is checked. Trusts the harness' own parser, validated on ROOT-written files."),
 "C07": (GEN + "differential decoding by an independent streamer-driven reader", "Random files decoded from the class descriptions they contain; values and metadata compared with what was written."),
 "C08": (GEN + "metamorphic: the same file with its records compressed differently, made by an independent writer", "Random trees of every column kind stored raw and compressed (zlib, LZMA, LZ4, several blocks, any mix); both must read as the generated values. Trusts the harness' own writer, cross-checked by its own parser."),
 "C09": (GEN + "differential: generated values against the library's reading of files of an independent writer", "Random columns of every kind split into buffers in every way the format allows (empty, embedded, spare slots). Trusts the harness' own writer."),
 "C10": (GEN + "round trip through an independent encoder of ROOT's container layout", "Random container types nested in each other with random values; the encoder is validated on ROOT's own stl_containers file."),
 "C11": (GEN + "model of the correspondence between C++ and Rust types over the whole matrix of (stored, asked)", "Random columns asked as random and as near-miss types; accepted exactly when the model says so."),
 "C12": (GEN + "stateful operation sequences against a cursor model", "Random reads, skips, rewinds and seeks on random or matching bytes against a model of the cursor and the encodings."),
 "C13": (GEN + "generated programs using the derive, driven with generated trees, against a naming model and the zip of the columns", "Random structures with every naming attribute, nesting and slicing are compiled at the start of the run and read random trees. Trusts the harness' own naming model."),
 "C14": (GEN + "generated programs using the derive, differential against columns written on their own and the generated rows", "Random structures are compiled at the start of the run; random rows are written through the derive, read back by columns and through the derived reader."),
 "C15": (GEN + "stateful composition sequences against a reference model", "Random chains of compositions over a pool of names against a model."),
 "C16": (GEN + "stateful reading histories (interleaved iterators, fresh trees, clones, threads) against the first reading and the generated values", "Random histories of partial reads over several trees of one file in one or several threads; every item is compared with the value stored, ended iterators are polled again, and the file is compared bytewise."),
 "C17": (GEN + "model of the stored hierarchy: listing, every lookup, types and the printed overview", "Random hierarchies of an independent writer; listed names, names from elsewhere and mutated names are looked up from the tree and from every branch. Trusts the harness' own writer."),
 "C18": (GEN + "the built tools' whole output against the expected text", "Random files of the library and of the independent writer, trees and other keys; stdout and exit status compared. The order within printed sets and maps is not compared."),
 "C19": (GEN + "fault injection (cuts, junk, wrong modes) with an error-or-valid oracle and a state model", "Random unusable inputs and request sequences; every outcome is compared with the model, and the file with its earlier bytes."),
 "C20": (GEN + "stateful replacement histories compared bytewise with a fresh file", "Random old contents and generations of writers; the file is compared at the moment close returns."),
 "C21": (GEN + "round trip of really written files around 2000000000, 2^31 and 2^32 bytes, and differential reading of sparse files of an independent writer", "Random trees behind fillers of several sizes, and trees placed at random positions up to 2^40 in sparse files; exact comparison. Real files are few per run because each is over 2 GB."),
 "C22": (GEN + "round trip through the independent writer's user-information list", "Random lists of strings, maps and nested lists, small and large, stored in the tree record (raw or compressed); every object is compared. Trusts the harness' own encoder, validated on ROOT's own file."),
 "C24": (GEN + "fault injection into compressed records with a stored-values-or-refused oracle", "Random files with compressed records, bytes of which are altered in every part; everything yielded is compared with what was stored."),
 "C25": (GEN + "model of the choice among stored versions, over files of an independent writer and write histories of the library", "Random names, near names and version numbers in any order, asked for in every way the notation has; the tree returned is compared in full. Trusts the harness' own writer."),
 "C23": (GEN + "metamorphic repetition: same content, same bytes", "Random files written again on the same and another thread, in another process and at another time, compared bytewise."),
}
checks = []
for p in props:
    if p in C:
        t, n = C[p]
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "The check for this property is not built yet."} for p in props if p not in C],
     "notes": "No hooks in /repo: every check drives the public API. fix: commits in /repo are listed in known_findings.json."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
