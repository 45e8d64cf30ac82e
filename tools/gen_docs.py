#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
LSP = "crates/lsp-server/src/"
AN = "crates/analyzer/src/"
IR = "crates/ir/src/"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, na=na))

COMMON = ("Seeded sampling, not exhaustive: each simulated run is one exactly repeatable session of the real server, "
          "analyzer and IR crates over a simulated editor, disk, clock and faults. Trusts the simulator's own reference "
          "models, the libc seam and rustc. ")

prop("P01", "The server survives whatever the editor, documents and disk do",
     "Once initialized, the language server keeps serving the session: no sequence of requests, notifications, command responses, document texts "
     "(including malformed, half-typed or non-ASCII Rust), positions, ranges or command arguments makes it panic, abort, overflow its stack, hang or end the session. "
     "File system faults (missing, unreadable, truncated or garbled manifests, and failing or interrupted system calls) do not end it either. "
     "Only notifications whose parameters do not have the shape the protocol prescribes are outside this guarantee.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every session history of well-formed LSP messages, every document text and cursor position, every disk content and fault sequence",
     "Existing tests sample a few dozen well-formed documents at hand-picked offsets and send each request once to a fresh server; crashes need odd texts, positions past line ends, or stale state.",
     [LSP + "dispatch.rs", LSP + "translator/from_lsp.rs", LSP + "dispatch/routers/request.rs", IR + "tree/item_at_offset.rs", AN + "analysis/completions.rs", AN + "analysis/actions/attr.rs", IR + "attrs/parser.rs"],
     [("main loop turns handler errors into error responses", LSP + "dispatch.rs main_loop, Dispatcher::handle_request"),
      ("positions outside the text are clamped", LSP + "translator/from_lsp.rs offset"),
      ("offsets outside the tree cover no token", IR + "tree/item_at_offset.rs")],
     ["LSP connection", "process exit"], "")

prop("P02", "Every request gets exactly one well-formed, correctly coded response",
     "Each request is answered exactly once, with its own id and exactly one of result and error: an unknown method is refused as method-not-found, malformed parameters as invalid-params, "
     "invalid command arguments (bad project name or root, document that is not open or not Rust, invalid byte range) with an error, a positional request on a document that is not open with a null result, and a valid positional request with a result. "
     "Notifications and client responses never produce a response, also when unknown. "
     "The server itself sends only diagnostics publications and apply-edit and show-document requests.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of requests, notifications and responses, with integer and string ids, valid or not, under any I/O faults",
     "Tests call handlers directly and check one response each; the pairing of ids, error codes and absence of extra messages over whole interleaved sessions is not looked at.",
     [LSP + "dispatch.rs", LSP + "dispatch/routers/request.rs", LSP + "dispatch/routers/notification.rs", LSP + "dispatch/handlers/request.rs", LSP + "dispatch/handlers/command.rs"],
     [("request router answers each request once", LSP + "dispatch/routers/request.rs RequestRouter::process/finish"),
      ("command argument validation", LSP + "dispatch/handlers/request.rs handle_execute_command, parse_range")],
     ["LSP connection"], "")

prop("P03", "Answers depend only on the current text, never on session history",
     "After any history of opens, edits, closes, commands, faults and requests, every answer and every diagnostics publication for a document equals the one a freshly started server gives that has just opened the same text (same ink! version, same client capabilities). "
     "Nothing about earlier versions of the document, other open documents, earlier requests or failures shows.",
     ["histories", "schedules", "fault_sequences"],
     "every session history over several documents, compared at every answer with a pristine process",
     "Tests start a new server or analysis for each case, so leaking or stale state can never be seen by them.",
     [LSP + "memory.rs", LSP + "dispatch.rs", LSP + "dispatch/handlers/notification.rs", LSP + "dispatch/handlers/request.rs", AN + "analysis.rs"],
     [("full-text document memory", LSP + "memory.rs Memory"), ("each request analyses the current text afresh", LSP + "dispatch/handlers/request.rs")],
     ["LSP connection"], "The pristine server is a separate process running the same code, so only history dependence is judged here.")

prop("P04", "Each sync publishes its document's diagnostics exactly once; close clears them",
     "Each didOpen of a Rust document and each didChange and didClose of an open one yields exactly one diagnostics publication for that document's URI, carrying that document's version and exactly the diagnostics of its latest text; closing publishes an empty list. "
     "No other message yields a publication, and one document's changes never publish for, or alter, another's.",
     ["histories", "inputs", "schedules"],
     "every interleaving of opens, full-text changes (also with several content changes, stale versions or duplicates) and closes over several documents, and every other message between them",
     "Tests send one open or change at a time to a fresh server; they never check absence, versions, or cross-talk between documents.",
     [LSP + "dispatch.rs", LSP + "dispatch/actions.rs", LSP + "memory.rs", LSP + "dispatch/handlers/notification.rs"],
     [("changed-document set drained after every message", LSP + "memory.rs take_changes; dispatch.rs process_changes"),
      ("publication", LSP + "dispatch/actions.rs publish_diagnostics")],
     ["textDocument/publishDiagnostics"], "")

prop("P05", "Positions mean the same place in every negotiated encoding",
     "For every document text (non-ASCII characters, surrogate pairs, CRLF and mixed line ends, tabs, empty last line) and every position or range, a completion, hover, signature help, code action or inlay hint answer is the one for the byte offset which that position denotes in the negotiated encoding (UTF-8, UTF-16 or UTF-32), and every position in the answer is that encoding's name for the right offset. "
     "Columns beyond the end of a line denote the line's end and lines beyond the end of the document its end.",
     ["inputs", "configurations", "histories"],
     "every text, position, range and negotiated encoding, during any editing session",
     "Tests convert a handful of positions in ASCII fixtures and a few emoji lines.",
     [LSP + "translator/from_lsp.rs", LSP + "translator/to_lsp.rs", LSP + "translator.rs", LSP + "utils.rs", LSP + "dispatch/handlers/request.rs"],
     [("position to offset", LSP + "translator/from_lsp.rs offset, text_range"), ("offset to position", LSP + "translator/to_lsp.rs position, range"), ("encoding negotiation", LSP + "utils.rs position_encoding")],
     ["LSP connection"], "The expected answer is the analyzer library's answer at an offset that an independent position model computes; what the analyzer says at that offset is not judged here.")

prop("P06", "The ink! version used follows the nearest Cargo manifest",
     "A document opened from disk is analysed as ink! 4.x or 5.x according to the `ink` dependency in the nearest Cargo.toml at or above it (version requirements in any Cargo form; `*`, path and git dependencies count as 5.x; `workspace = true` takes the entry of the workspace root's manifest); with no usable manifest or entry the default is ink! 4.x. "
     "The version is detected when the document is opened and stays while the document remains open, whatever happens on disk, except that after a migration is requested it is re-detected by the following synchronisations so that the migrated project is analysed as ink! 5.x.",
     ["histories", "inputs", "fault_sequences"],
     "every manifest content and directory layout, every history of manifest changes, opens, closes, reopens and migrations",
     "Tests cover version strings in isolation; the connection between disk history, open documents and the rules applied is untested.",
     [LSP + "dispatch.rs", LSP + "utils.rs", LSP + "dispatch/handlers/notification.rs"],
     [("manifest search", LSP + "utils.rs find_cargo_toml"), ("version classification", LSP + "dispatch.rs parse_ink_project_version, guess_version, is_v5_version_string"), ("re-check after migration", LSP + "dispatch.rs process_changes")],
     ["textDocument/publishDiagnostics of texts on which the two rule sets differ", "simulated disk"], "")

prop("P07", "I/O faults are contained and leave no lasting trace",
     "When reading or looking for a manifest fails, is cut short, is interrupted or returns damaged data, the message being handled still gets an answer: diagnostics are those of ink! 4.x or of ink! 5.x for the current text, never a mixture or something else, and a command either fails with an error or does exactly what it would do without the fault. "
     "Interruptions and short reads, which a correct reader retries, change nothing. "
     "Once faults stop, re-opening a document gives exactly what a session that never saw a fault gives.",
     ["fault_sequences", "histories"],
     "every placement of I/O errors, short and interrupted reads and torn manifest contents in any session",
     "Tests never inject a fault; file errors in them are limited to a missing manifest.",
     [LSP + "dispatch.rs", LSP + "utils.rs", LSP + "dispatch/handlers/command.rs"],
     [("unreadable manifest means unknown version", LSP + "dispatch.rs parse_ink_project_version"), ("commands report read failures", LSP + "dispatch/handlers/command.rs")],
     ["LSP connection", "intercepted open/read/stat calls"], "")

prop("P08", "The server never changes the disk and reads only Cargo manifests",
     "In any session the server creates, writes, renames or deletes no file, starts no process and opens no network connection; all changes are proposed to the editor as workspace edits. "
     "The only files it opens are Cargo.toml manifests in directories above an open document (or the workspace root those name), and beyond that it only asks whether paths exist.",
     ["histories", "inputs", "fault_sequences"],
     "every session, including migration, extraction and project creation commands and every fault",
     "Tests look at returned values and cannot see file system effects.",
     [LSP + "dispatch.rs", LSP + "utils.rs", LSP + "dispatch/handlers/command.rs"],
     [("edits are returned, not performed", LSP + "dispatch/handlers/command.rs")],
     ["intercepted system calls", "simulated disk"], "")

prop("P09", "Migration to ink! 5 yields an applicable, complete and minimal project edit",
     "Migrating an open contract returns edits to exactly that document and its package manifest, which apply cleanly; the resulting manifest selects ink! 5, no longer has the scale dependencies and features that ink! 5 re-exports, upgrades the e2e dependency and keeps every other entry and comment. "
     "A contract without ink! 4 errors has no ink! 5 errors afterwards, its code other than what ink! 5 requires to change is preserved token for token, and migrating again changes nothing more. "
     "After the edits are applied the project is analysed as ink! 5.",
     ["inputs", "histories", "fault_sequences"],
     "every well-formed ink! 4 contract and manifest shape, at any point of a session",
     "Tests compare the migration of a few fixtures with expected text; they do not combine features, apply and re-analyse, or migrate twice.",
     [AN + "analysis/migrate.rs", AN + "analysis/migrate/e2e_test.rs", AN + "analysis/migrate/host_fn.rs", LSP + "dispatch/handlers/command.rs"],
     [("contract edits", AN + "analysis/migrate.rs migrate"), ("manifest edits", LSP + "dispatch/handlers/command.rs migrate_cargo_toml")],
     ["workspace/executeCommand result", "workspace/applyEdit"], "Judged on documents that are well-formed; workspace-inherited `ink` dependencies are judged on applicability only.")

prop("P10", "Extracting an event conserves it and leaves both packages consistent",
     "Extracting an ink! event returns a new package beside the contract's manifest in a directory that does not exist yet, containing exactly that event definition (fields, attributes, documentation) as an ink! 5 event; the contract loses that definition and nothing else, imports the event, and its manifest gains exactly one dependency on the new package, replacing none. "
     "Neither file has new errors. "
     "It is refused only when the event's range, name or document is unusable.",
     ["inputs", "histories", "fault_sequences"],
     "every contract with events, every manifest and directory content, at any point of a session",
     "Tests extract one event from one fixture and compare with expected text.",
     [AN + "analysis/extract.rs", LSP + "dispatch/handlers/command.rs"],
     [("extraction", AN + "analysis/extract.rs extract_event"), ("package and dependency", LSP + "dispatch/handlers/command.rs handle_extract_event, add_dependency_to_cargo_toml, package_name")],
     ["workspace/executeCommand result", "workspace/applyEdit"], "")

prop("P11", "Creating a project delivers it exactly once, and opens it only if applied",
     "A create-project command with a valid name and root yields exactly one new library and manifest for that name under that root and nothing else; an invalid name or root is refused with an error. "
     "If the client can apply edits the project is delivered in an apply-edit request, otherwise in the response; the new library file is shown directly after, and once for, each confirmation that the edit was applied (if the client can show documents); failed, refused or unrelated responses, in whatever order, show nothing.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "every interleaving of commands and client responses, including failures, strays and reorderings",
     "Tests check the returned edit only; the multi-message exchange with the client is untested.",
     [LSP + "dispatch.rs", LSP + "dispatch/handlers/command.rs", AN + "codegen.rs"],
     [("response-id bookkeeping", LSP + "dispatch.rs handle_response, process_command_response"), ("name validation and templates", AN + "codegen.rs; " + LSP + "dispatch/handlers/command.rs handle_create_project")],
     ["LSP connection"], "")

prop("P12", "Output is a function of the input sequence alone",
     "For the same sequence of client messages over the same disk the server sends the same messages in the same order, in every process, whatever the hash seeds, address layout, time, or message batching (all queued at once, or one by one).",
     ["schedules", "inputs", "histories", "configurations"],
     "every session re-executed in another process with other hash seeds and clock, and with its messages delivered in bursts",
     "A test compares one run's output with a constant; order-dependence on hash seeds shows rarely and is dismissed as flakiness.",
     [AN + "analysis/diagnostics/trait_definition.rs", AN + "analysis/migrate.rs", AN + "analysis/utils.rs", LSP + "dispatch.rs", LSP + "memory.rs"],
     [("ordered traversal", AN + "analysis/utils.rs"), ("single-threaded message loop", LSP + "dispatch.rs main_loop")],
     ["LSP connection"], "The order of independent file edits in one workspace edit and of advertised code action kinds is not judged.")

prop("P13", "Sessions end the way the protocol prescribes, from every state",
     "Requests before initialization are refused as server-not-initialized; the shutdown request is answered, after it requests are refused, and the exit notification ends the server successfully, within a bounded wait if exit never comes. "
     "Everything received before shutdown is answered first, in order. "
     "End of input, closed output and input cut inside a message end the process promptly instead of hanging it, and input arriving in arbitrary fragments changes nothing.",
     ["histories", "crash_points", "schedules", "fault_sequences"],
     "every session prefix followed by every kind of ending, and every fragmentation or truncation point of the byte stream",
     "Tests never run the main loop to its end.",
     [LSP + "lib.rs", LSP + "main.rs", LSP + "dispatch.rs", LSP + "initialize.rs"],
     [("shutdown handling", LSP + "dispatch.rs main_loop"), ("initialization handshake", LSP + "initialize.rs, " + LSP + "lib.rs")],
     ["LSP connection", "process exit status", "stdin and stdout"], "The 30 s exit wait runs on a virtual clock.")

prop("P14", "Every edit offered to the editor can be applied as offered",
     "Completion edits contain the cursor, stay on one line, are labelled and are not duplicated; code actions edit only the document they were asked for, with ranges inside it that do not overlap, are titled and, on well-formed documents, change something. "
     "Workspace edits returned by commands or resolve apply cleanly to the documents and disk they name.",
     ["inputs", "histories", "configurations"],
     "every text (including half-typed code), position and range, following any history of accepted completions and actions",
     "Tests compare offered edits at chosen places in fixtures, and never check the general applicability conditions.",
     [AN + "analysis/completions.rs", AN + "analysis/actions.rs", AN + "analysis/actions/attr.rs", AN + "analysis/actions/item.rs", AN + "analysis/text_edit.rs", LSP + "translator/to_lsp.rs"],
     [("edit computation", AN + "analysis/actions/*.rs, completions.rs"), ("edit formatting", AN + "analysis/text_edit.rs")],
     ["completion, codeAction, codeAction/resolve, executeCommand responses"], "")

prop("P15", "Everything shown is anchored to an existing place in the text",
     "Diagnostic ranges, hover ranges and inlay hint positions exist in the current text, start no later than they end, and never split a character; hovers cover the requested position, inlay hints lie in the requested range, and signature help's active signature and parameter indices and label offsets are valid. "
     "Nothing refers to text of an earlier version or of another document.",
     ["inputs", "histories", "configurations"],
     "every text, position, range and encoding during any editing session",
     "Tests assert particular ranges in fixtures.",
     [LSP + "translator/to_lsp.rs", AN + "analysis/hover.rs", AN + "analysis/inlay_hints.rs", AN + "analysis/signature_help.rs", AN + "analysis/diagnostics.rs"],
     [("range translation", LSP + "translator/to_lsp.rs range, offset, signature_help")],
     ["LSP connection"], "")

prop("P17", "Only what the client negotiated is used",
     "The server uses a position encoding the client offered (UTF-16 by default), and for any combination of client capabilities: advertised code action kinds are ones the client understands, and snippets, apply-edit requests, document changes in server-initiated edits, show-document requests, per-signature active parameters and label offsets appear only if the client supports them. "
     "Clients that lack a capability get the plain equivalent, not nothing.",
     ["configurations", "histories"],
     "every combination of client capabilities in any session",
     "Tests check each capability flag in isolation against the helper that reads it.",
     [LSP + "utils.rs", LSP + "initialize.rs", LSP + "translator/to_lsp.rs", LSP + "dispatch.rs"],
     [("capability readers", LSP + "utils.rs"), ("conditional translation", LSP + "translator/to_lsp.rs")],
     ["initialize result", "LSP connection"], "")

NA = "A pure function of one source text: no schedule, clock, I/O, fault or history takes part, so simulation would be input generation in disguise. "
prop("Q01", "Diagnostics agree with the ink! compiler's semantic rules",
     "A contract that the ink! macros of the selected version accept gets no error diagnostics, and every violation of an ink! semantic rule gets one.",
     ["programs"], "every ink! program of either version", "Fixtures sample rules one at a time.",
     [AN + "analysis/diagnostics/"], [("one checker per ink! entity", AN + "analysis/diagnostics/*.rs")], ["publishDiagnostics"], "",
     na=NA + "The only sound oracle would be the ink! macros themselves, which are not available offline; P03, P04 and P06 decide that the right rules' diagnostics reach the user.")
prop("Q02", "Computed and suggested selectors and topics match the ink! specification",
     "Selectors of messages and constructors (explicit, wildcard or derived from namespace, trait and name) and the overlap checks built on them follow the ink! specification.",
     ["programs"], "every contract and trait definition", "Tests compare a few known selectors.",
     [IR + "selector.rs"], [("Blake2b-256 based composition", IR + "selector.rs")], ["overlapping-selector diagnostics"], "",
     na=NA)
prop("Q03", "The IR finds exactly the ink! entities present in a source file",
     "For every source text, each ink! entity, attribute and argument in it appears exactly once in the intermediate representation, under its closest ink! parent, and none is invented.",
     ["programs"], "every source text", "Tests count entities in fixtures.",
     [IR + "tree/", IR + "attrs.rs", IR + "file.rs"], [("tree walkers", IR + "tree/utils.rs, item_at_offset.rs, ast_ext.rs")], ["library API"], "",
     na=NA)
prop("Q04", "Derived entity implementations cast exactly the syntax they are declared for",
     "Entities generated by the derive macro cast exactly the nodes with the declared kind and attribute.",
     ["programs"], "every use of the derive macro and every node", "Tests compare expansions of a few inputs.",
     ["crates/macro/src/entity.rs"], [("derive macro", "crates/macro/src/entity.rs")], ["compile-time expansion"], "",
     na="Compile-time code generation; nothing to schedule or fault.")

exec(open(os.path.join(HERE, "extra_props.py")).read()) if os.path.exists(os.path.join(HERE, "extra_props.py")) else None

def where(m):
    return {"name": m[0], "where": m[1]}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [where(m) for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": (COMMON + p["note"]).strip(),
    } for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "No hooks in /repo: the seams are the in-memory LSP connection the server already accepts, and interposed libc calls inside the simulator process.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
