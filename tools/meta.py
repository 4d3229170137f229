#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Run from /verif: python3 tools/meta.py
"""
import json, sys

P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))

prop("C01", "Any input is handled or rejected: no panic, no hang",
     "Whatever bytes are given to parsing, linting, formatting, signing, verifying, converting or compiling, the library returns a result or an error. It never panics, overflows the stack or runs forever, and a manifest it accepted can be linted, formatted, encoded and compiled without a panic.",
     ["inputs"], "all byte strings, all yaml documents with nodes of any type at any place, all json documents",
     "The tests feed a few dozen well-formed files; null entries, wrong node types and malformed bytes are not among them.",
     ["yaml/parse.go", "yaml/pretty/pretty.go", "yaml/compiler/compiler.go", "yaml/linter/linter.go", "yaml/converter/convert.go", "yaml/signer/signer.go"],
     [("errors of the yaml parser, panics included, are returned", "yaml/parse.go"), ("null list and map entries are skipped", "yaml/compiler/compiler.go, yaml/linter/linter.go, yaml/pretty/container.go")],
     "fuzzing with random bytes, mutated files and type-confused documents; oracle: no panic, no hang",
     "structured random generation of raw bytes, mutated files of five formats and type-confused documents; alias bombs are out of the domain")
prop("C02", "A file is split into its documents without loss",
     "A file is split at the lines that begin with three dashes and ends at a line that begins with three dots; each document holds exactly the lines in between, however long they are and however the reader delivers them. A read error is reported and never taken for the end of the file. All entry points (reader, bytes, string, path) agree, and each document means what it means on its own.",
     ["inputs", "fault_sequences"], "all sequences of lines of any length, line ending and separator form; all chunkings and failure points of the reader",
     "The tests read whole small files and never a long line, a CRLF file, a failing reader or text after the terminator.",
     ["yaml/parse.go"], [("line scanner, separators and terminators", "yaml/parse.go ParseRaw")],
     "differential testing against a reference splitter, with chunked and failing readers",
     "random line sequences with lengths around the powers of two up to 200 KB, injected read errors")
prop("C03", "Parsing keeps the meaning, however the file is written",
     "A manifest means the same however it is written: block or flow style, any quoting, short or long forms, anchors and merge keys, comments, key order, explicit or absent defaults. Every attribute that the file states is in the parsed manifest with the stated value, and nothing else is. A document without a kind, or with a value of a type that its attribute does not have, is rejected and never partly ignored.",
     ["inputs"], "all manifests of pipelines, crons, secrets, registries and signatures and all of their spellings",
     "The tests parse about ten fixed files; they cannot settle the combinations of attributes, short forms and yaml styles.",
     ["yaml/parse.go", "yaml/pipeline.go", "yaml/cond.go", "yaml/build.go", "yaml/env.go", "yaml/param.go", "yaml/push.go", "yaml/unit.go", "yaml/manifest.go"],
     [("short and long forms", "yaml/cond.go, yaml/build.go, yaml/env.go, yaml/param.go, yaml/push.go, yaml/port.go, yaml/unit.go"), ("document kinds", "yaml/parse.go")],
     "model-based generation: a random model is emitted in random yaml style and the parse is compared with the model",
     "own emitter, checked against an independent yaml parser when the verdicts differ; quoted null/~ is out of the domain where a type decodes itself (library defect)")
prop("C04", "Encoding a manifest and reading it back is the identity",
     "A manifest that is encoded as json and decoded again is the same manifest, and encoding it once more gives the same bytes. A manifest that is encoded as yaml and parsed again is the same manifest. A json manifest with a value of a type that its attribute does not have is rejected.",
     ["inputs"], "all manifests whose values json (or yaml) can represent",
     "The tests round-trip single fields with one value each.",
     ["yaml/manifest.go", "yaml/param.go", "yaml/env.go", "yaml/unit.go"],
     [("json codec of manifests, parameters and variables", "yaml/manifest.go, yaml/param.go, yaml/env.go")],
     "round-trip property over generated manifests", "random manifests; non-string keys and infinities are out of the json domain")
prop("C05", "Conditions select the steps and pipelines they say",
     "A condition matches a value when no exclude pattern matches it and, if there are include patterns, one of them does. A step is skipped exactly if one of its conditions does not match the build, and conditions that are not known for the build do not restrict it. A condition that cannot be read is rejected and never taken for a condition that matches everything.",
     ["inputs"], "all glob patterns, include and exclude lists, values, builds and steps",
     "The tests list some pattern and value pairs.",
     ["yaml/cond.go", "yaml/compiler/skip.go"], [("include and exclude lists", "yaml/cond.go"), ("skip rules of a step", "yaml/compiler/skip.go")],
     "differential testing against a reference glob matcher (translation to regular expressions)",
     "random structured globs and values derived from them; non-ASCII path components and adjacent double stars are out of the domain")
prop("C06", "An untrusted repository cannot use privileged features",
     "For a repository that is not trusted the linter rejects every pipeline in which any step or service is privileged, sets devices, dns, dns search, extra hosts, a network mode or a host port, or in which a volume is a host path or in memory. A trusted repository may use all of them, and no pipeline is accepted for an untrusted repository and rejected for a trusted one.",
     ["inputs"], "all pipelines, with the feature at any place and in any combination",
     "The tests have one file per feature, with the feature at the first container.",
     ["yaml/linter/linter.go"], [("checks of containers and volumes", "yaml/linter/linter.go")],
     "fault injection into generated pipelines against a reference linter", "random pipelines, parsed from yaml and built in memory")
prop("C07", "The linter accepts exactly the well-formed pipelines",
     "The linter rejects a pipeline if a step or service has no name, no image, or a name that is already in use, if a step depends on itself or on a step that is not defined before it, if the platform is unknown, or if a volume uses a reserved name; the step that clones the repository counts as a step unless it is disabled. It accepts every other pipeline, reports each of these faults as such, and does not change what it reads. The same holds for the names and dependencies of the pipelines of a manifest and for the required attributes of the other resources.",
     ["inputs"], "all pipelines and manifests",
     "The tests have one file per fault.", ["yaml/linter/linter.go", "yaml/linter/config.go"],
     [("names, images, dependencies, platform, reserved volumes", "yaml/linter/linter.go"), ("manifest level rules", "yaml/linter/config.go")],
     "fault injection into generated pipelines against a reference linter", "random pipelines and manifests")
prop("C08", "What lint accepts for an untrusted repository stays contained",
     "Whatever an untrusted pipeline says, if the linter accepts it then its compiled form has no host path but the docker socket, no memory volume, no device, no host port, no custom dns or network, and no privileged step but plugins of the whitelist that run no user command. The docker socket is mounted by image build steps only, linted or not, and those run no user command.",
     ["inputs", "configurations"], "all pipelines, plugin whitelists and yaml spellings",
     "No test runs the linter and the compiler on the same input.",
     ["yaml/linter/linter.go", "yaml/compiler/compiler.go", "yaml/compiler/dind.go", "yaml/compiler/step.go"],
     [("linter gate", "yaml/linter/linter.go"), ("volumes and privileges of the compiled steps", "yaml/compiler/compiler.go, yaml/compiler/step.go")],
     "end-to-end invariant over generated attacks: parse, lint as untrusted, compile", "pipelines built to evade the linter")
prop("C09", "What is signed verifies, and signing changes nothing else",
     "A file that was signed with a key of at least 32 bytes verifies with that key and with no other; shorter keys and files that are no valid yaml are refused. Signing keeps every other document byte for byte, leaves exactly one signature, which is the last document, replaces a signature that was there, and is idempotent. The signature is the HMAC-SHA256 of the documents and does not depend on an earlier signature, on line endings or on where the signature stands.",
     ["inputs", "configurations"], "all files and keys", "The tests sign and verify a handful of fixed files.",
     ["yaml/signer/signer.go", "yaml/parse.go"], [("hash over the documents that are no signature", "yaml/signer/signer.go")],
     "round-trip and metamorphic properties, with a reference HMAC", "random files of one or several documents, keys of any length")
prop("C10", "A file that was changed after it was signed does not verify",
     "If any document of a signed file is changed, added, removed or reordered, or its signature is altered, truncated, emptied or removed, verification fails; if the documents and the signature are intact, verification succeeds.",
     ["inputs", "histories"], "all signed files and all edits of their bytes, lines, documents and signatures",
     "The tests try one invalid and one missing signature.", ["yaml/signer/signer.go"],
     [("comparison of the computed and the stated signature", "yaml/signer/signer.go Verify")],
     "mutation of signed files against a reference that compares the documents", "one to three edits of bytes, lines, documents or signature; edits that only move document separators are a known finding")
prop("C11", "Formatting a manifest keeps its meaning",
     "The formatted text of a manifest parses, and it is the same manifest: every resource in order, every attribute with its value, strings as strings and numbers as numbers. The only differences are that an absent platform becomes the default platform, that null entries of lists are left out, and that constraints of the legacy matrix are not written.",
     ["inputs"], "all manifests", "The tests compare the output for some twenty files and never parse it again.",
     ["yaml/pretty/pretty.go", "yaml/pretty/writer.go", "yaml/pretty/util.go", "yaml/pretty/container.go", "yaml/pretty/pipeline.go", "yaml/pretty/secret.go", "yaml/pretty/cron.go", "yaml/pretty/registry.go"],
     [("scalar quoting", "yaml/pretty/writer.go, yaml/pretty/util.go"), ("attributes of each resource", "yaml/pretty/*.go")],
     "round-trip property: generate, format, parse, compare", "random manifests with hostile scalars")
prop("C12", "Formatting is deterministic and idempotent",
     "Formatting the same manifest always gives the same bytes, and does not change the manifest. Formatting text that was formatted before gives the same text.",
     ["inputs"], "all manifests, and all spellings of a manifest", "The tests format each file once.",
     ["yaml/pretty/pretty.go", "yaml/pretty/writer.go"], [("sorted map keys", "yaml/pretty/writer.go, yaml/pretty/container.go")],
     "metamorphic properties over generated manifests", "random manifests, formatted repeatedly and from different spellings")
prop("C13", "The compiled steps run in the order the pipeline states",
     "Every step and service of the pipeline is compiled exactly once, services before steps and the clone step first unless it is disabled. If no step states a dependency, steps run one after another in the stated order; otherwise each step waits for exactly the steps it names, and services and steps without dependencies wait for the clone step if there is one. A step runs on success, on failure, always or never as its status condition and the skip rules say, and failures are ignored exactly if it says so.",
     ["inputs", "configurations"], "all pipelines and builds", "The tests compare a few compiled pipelines with fixed files.",
     ["yaml/compiler/compiler.go", "yaml/compiler/clone.go", "yaml/compiler/convert.go", "yaml/compiler/skip.go"],
     [("serial and graph execution", "yaml/compiler/compiler.go"), ("run policy", "yaml/compiler/convert.go")],
     "model-based testing against a reference compiler (execution graph)", "random pipelines that pass the linter, in every platform and option")
prop("C14", "A compiled step is what the pipeline says",
     "The image, environment, secrets, command, entrypoint, ports, volumes, resources, dns, hosts, network, user, pull policy and settings of a compiled step are those that the pipeline states for this step, and those of no other step. Registry authentication, labels and platform are those of the pipeline.",
     ["inputs"], "all pipelines", "The tests compare a few compiled pipelines with fixed files.",
     ["yaml/compiler/step.go", "yaml/compiler/compiler.go", "yaml/compiler/convert.go"],
     [("conversion of a container", "yaml/compiler/step.go"), ("pull policy, ports, limits", "yaml/compiler/convert.go")],
     "model-based testing against a reference compiler (attributes of each step)", "random pipelines that pass the linter")
prop("C15", "Credentials reach only the steps that ask for them",
     "The git credentials are mounted into the clone step and into no other step. A secret that is looked up on demand is looked up only if a step that can run asks for it, and secret data appears nowhere but in the secrets section of the compiled pipeline; a step receives the secrets that it names under the names it states, and no others.",
     ["inputs", "configurations"], "all pipelines, secret sets and skip conditions", "The tests use one secret and one step.",
     ["yaml/compiler/compiler.go", "yaml/compiler/clone.go", "yaml/compiler/transform/secret.go", "yaml/compiler/step.go"],
     [("git credentials file", "yaml/compiler/clone.go"), ("requested secrets", "yaml/compiler/transform/secret.go")],
     "taint tracking over generated pipelines: secret data carries unique markers", "random pipelines with marked secrets, credentials and skip rules")
prop("C16", "The compiled pipeline refers only to what it defines",
     "Every file, dependency and volume that a compiled step refers to is defined in the compiled pipeline (unless the pipeline itself mounts a volume it never declares), and every definition has an identifier of its own of 32 lower case letters and digits. The pipeline has the namespace and labels its definitions need, and no two definitions share an identifier.",
     ["inputs"], "all pipelines that pass the linter", "The tests ignore the identifiers.",
     ["yaml/compiler/compiler.go", "yaml/compiler/internal/rand/rand.go"], [("identifiers", "yaml/compiler/internal/rand/rand.go"), ("volumes and files", "yaml/compiler/compiler.go")],
     "invariants over compiled random pipelines", "random pipelines that pass the linter")
prop("C17", "The shell runs exactly the commands of the step",
     "On linux the commands of a step run in order in a posix shell, byte for byte as they are written, each printed before it runs, and the first failing command ends the step with its exit code. Printing a command never executes a part of it, and the netrc file is written when the credentials are set and is no longer visible to the commands.",
     ["inputs"], "all lists of commands", "The tests compare the script of one or two commands as text and run nothing.",
     ["yaml/compiler/script_posix.go", "yaml/compiler/step.go"], [("script and trace escape", "yaml/compiler/script_posix.go")],
     "execution of generated scripts with the real /bin/sh against a model of harmless commands", "random commands with hostile quoting, run in a scratch directory")
prop("C18", "The windows script holds exactly the commands of the step",
     "On windows the commands of a step are run by powershell in order, byte for byte as they are written, each printed before it runs as one literal string, with a check of its exit code after it that ends the script with this code. Errors stop the script; the netrc file is written when the credentials are set, which the commands cannot read from the environment.",
     ["inputs"], "all lists of commands", "The tests compare the script of one or two commands as text.",
     ["yaml/compiler/script_win.go", "yaml/compiler/step.go"], [("script and trace escape", "yaml/compiler/script_win.go")],
     "decoding of generated scripts with an independent powershell string tokenizer", "no powershell is installed here: the script is decoded and read by a tokenizer, not run")
prop("C19", "Image builds use the docker socket and nothing else does",
     "A step with a build section runs the build image with the dockerfile, context, caches and image name that the section states and the docker socket mounted, and no command of the user. A step that uses an image which the pipeline builds gets the built image under an alias that is unique to the compiled pipeline, and all other steps keep their image.",
     ["inputs"], "all pipelines with build steps", "The tests have one pipeline with one build.",
     ["yaml/compiler/compiler.go", "yaml/compiler/step.go"], [("build steps and image aliases", "yaml/compiler/compiler.go")],
     "model-based testing against a reference compiler (build steps)", "random pipelines with build steps and images in equivalent spellings")
prop("C20", "Only whitelisted plugins without commands become privileged",
     "A step that the pipeline does not mark as privileged is compiled as privileged only if its image is one of the whitelist, whatever the tag and spelling of the image, and the step states no command, commands or entrypoint. Every other step is as privileged as the pipeline says.",
     ["inputs", "configurations"], "all steps, image references and whitelists", "The tests try four containers.",
     ["yaml/compiler/dind.go", "yaml/compiler/image/image.go"], [("whitelist", "yaml/compiler/dind.go")],
     "differential testing against a reference parser of image references", "random and mutated image references")
prop("C21", "Image names are compared as docker reads them",
     "Image references are trimmed, expanded and compared the way docker reads them: default registry, default library and default tag are implied, tags and digests are ignored or compared as asked for, and text that is no image reference is left alone and equals only itself.",
     ["inputs"], "all strings", "The tests list some forty references.",
     ["yaml/compiler/image/image.go"], [("parsing and comparison of references", "yaml/compiler/image/image.go")],
     "differential testing against a reference parser of image references", "grammar-based references, spellings of the same reference, mutations")
prop("C22", "Steps see the workspace where the pipeline puts it",
     "Every step and service mounts the same workspace volume at the base the pipeline states or the default, is told base, path and full path in its environment, and runs in the directory that the step states, or else in the workspace, unless it is a detached plugin or service without commands. On windows the paths are windows paths; the workspace is temporary unless the caller asks for a host directory, and the caller may choose the paths.",
     ["inputs", "configurations"], "all workspaces, platforms and steps", "The tests use three workspaces.",
     ["yaml/compiler/workspace.go", "yaml/compiler/step.go"], [("workspace paths, environment and volume", "yaml/compiler/workspace.go")],
     "model-based testing against a reference compiler (workspace)", "random pipelines with workspaces of both platforms")
prop("C23", "Plugin settings arrive as the plugin expects them",
     "Each setting of a step becomes one environment variable named PLUGIN_ and the name in upper case: strings, numbers and booleans as text, lists of scalars joined by commas, other values as json that decodes to the stated value. A setting that names a secret becomes a reference to this secret.",
     ["inputs"], "all settings", "The tests encode about ten values.",
     ["yaml/compiler/encode.go", "yaml/compiler/step.go"], [("encoding of values", "yaml/compiler/encode.go")],
     "round-trip property and reference encoder over generated values", "random nested values, strings with commas, quotes and line breaks")
prop("C24", "Compiling is a pure function of its input",
     "Compiling does not change the pipeline, gives the same result for the same input apart from the random identifiers, and does not depend on what was compiled before or at the same time.",
     ["inputs", "histories", "schedules"], "all sequences and concurrent sets of compilations",
     "The tests compile each file once, on one goroutine.", ["yaml/compiler/compiler.go", "yaml/compiler/step.go", "yaml/compiler/transform/combine.go"],
     [("no shared state", "yaml/compiler/compiler.go")],
     "metamorphic and concurrent testing: repeated, interleaved and parallel compilations are compared", "histories of random pipelines and compilers, run in sequence and in parallel")
prop("C25", "Each transform changes what it is for and nothing else",
     "Environment, labels, limits, netrc, networks, proxy, registry, secret and volume options are applied to every step they are meant for, with the stated values, and leave everything else as it was; include, exclude and resume switch off exactly the steps that are not selected. Combined transforms act as if applied one after the other.",
     ["inputs", "configurations"], "all compiled pipelines and option values", "The tests apply each transform to one step.",
     ["yaml/compiler/transform/combine.go", "yaml/compiler/transform/filter.go", "yaml/compiler/transform/env.go", "yaml/compiler/transform/netrc.go", "yaml/compiler/transform/volume.go", "yaml/compiler/transform/secret.go"],
     [("transforms", "yaml/compiler/transform/*.go")],
     "reference transforms with frame conditions over compiled random pipelines", "random pipelines and option values")
prop("C26", "A legacy pipeline is converted without loss",
     "A legacy configuration becomes a pipeline with the same clone, steps and services in the same order, each with the image, commands, entrypoint, environment, secrets, settings, volumes, network names, privileges, pull policy and conditions that the old file states, duplicate names made unique, and nothing else; the workspace (by default the path of the repository url) and the branch restriction become those of the pipeline. Secrets with a source of their own become secret resources; numbers and templates (merge keys) keep their text and meaning. The result parses, and passes the linter for a trusted repository if the names and images do; a file with a value of a wrong type is rejected.",
     ["inputs"], "all legacy configurations", "The tests convert some fixed files.",
     ["yaml/converter/legacy/internal/config.go", "yaml/converter/legacy/convert.go"], [("conversion of legacy containers", "yaml/converter/legacy/internal/config.go")],
     "model-based testing: a random legacy model is emitted as yaml and its conversion is compared with a reference conversion", "random legacy configurations")
prop("C27", "A legacy matrix becomes one pipeline per combination",
     "The axes of a legacy matrix are expanded to each combination once, up to the built-in limit, or to the included entries, one pipeline each, always in the same order. Each pipeline has its values in place of the ${VARIABLE} references to the axes, other references stay as they are, and it has exactly the steps and services whose matrix constraints match its values.",
     ["inputs"], "all matrices", "The tests expand two matrices.",
     ["yaml/converter/legacy/matrix/matrix.go", "yaml/converter/legacy/internal/config.go"], [("expansion", "yaml/converter/legacy/matrix/matrix.go")],
     "differential testing against a reference expansion", "random axes around the limits, include lists, substitutions")
prop("C28", "A gitlab pipeline is converted job by job",
     "Each job of a gitlab configuration becomes a step with its image (name, entrypoint, command) or the name of the default image, its commands framed by the common ones, and allow_failure. The jobs of a stage, or a job on its own if there are no stages, form a pipeline in the order of the file that depends on the pipeline of the stage before; a job without a stage belongs to the stage test. Services become services of every pipeline; hidden jobs (templates) and empty entries produce nothing, and a file with a value of a wrong type is rejected.",
     ["inputs"], "all gitlab configurations of the supported subset", "The tests convert a few fixed files.",
     ["yaml/converter/gitlab/convert.go", "yaml/converter/gitlab/config.go"], [("jobs and stages", "yaml/converter/gitlab/convert.go")],
     "model-based testing against a reference conversion", "random gitlab models emitted as yaml")
prop("C29", "A bitbucket pipeline is converted step by step",
     "The pipeline of a bitbucket configuration that applies to the branch or tag of the build is selected, with the exact name before a pattern and the default last. Each of its steps becomes a step with its image or the default image and its commands in order, and each service that is defined becomes a service. A file with a value of a wrong type is rejected.",
     ["inputs"], "all bitbucket configurations of the supported subset and all refs", "The tests convert a few fixed files.",
     ["yaml/converter/bitbucket/convert.go", "yaml/converter/bitbucket/config.go"], [("selection of the pipeline", "yaml/converter/bitbucket/config.go")],
     "model-based testing against a reference conversion", "random bitbucket models emitted as yaml, refs derived from their patterns")
prop("C30", "Conversion is chosen by the file, and is deterministic",
     "A file named like a gitlab or bitbucket configuration, or with a legacy pipeline section, is converted by the rules of that format, and any other file is returned byte for byte. Converting twice gives the same bytes, the result is a manifest that parses, formats and compiles, and converting it again changes nothing.",
     ["inputs"], "all files, file names and refs", "The tests try one file per format.",
     ["yaml/converter/convert.go", "yaml/converter/metadata.go", "yaml/converter/legacy/match.go"], [("choice of the converter", "yaml/converter/convert.go")],
     "metamorphic properties over generated files of all formats", "random files of all formats with file names and refs")
prop("C31", "The command line does what the library does, and spares files",
     "Each command gives the result of the library for the file it is given, exits with zero exactly on success, and prints the reason otherwise. A file is written only with the save option and only on success, with exactly the result; no command changes any other file.",
     ["inputs", "configurations"], "all files and options", "No test runs the command.",
     ["main.go"], [("commands and options", "main.go")],
     "differential testing of the built command against the library, with snapshots of the directory", "random files of all formats, all commands and options, unreadable and missing files")
prop("C32", "Byte sizes are read and written exactly",
     "A byte size is read as the number of bytes it states, with or without a binary unit, and text that is no size is rejected. Writing a size and reading it again gives the same number.",
     ["inputs"], "all sizes and all texts", "The tests read three sizes.",
     ["yaml/unit.go"], [("units", "yaml/unit.go")],
     "round-trip property and reference reader", "random numbers, units, fractions and malformed texts")
prop("C33", "Parsing, checking, writing and signing are pure functions",
     "Parsing, linting, formatting, encoding, converting, signing and verifying give the same result for the same input, whatever was done before or is done at the same time. They change neither the bytes nor the manifest they are given, and a result they returned stays as it is.",
     ["inputs", "histories", "schedules"], "all files, sequences of calls and numbers of concurrent callers", "The tests call each function once, from one goroutine.",
     ["yaml/parse.go", "yaml/pretty/pretty.go", "yaml/linter/linter.go", "yaml/signer/signer.go", "yaml/converter/convert.go"], [("no state between the calls", "yaml/parse.go, yaml/pretty/writer.go, yaml/linter/linter.go, yaml/signer/signer.go")],
     "metamorphic testing of random call histories and of concurrent callers under the race detector", "random files and operations, repeated, interleaved and run from several goroutines with the race detector on")

NOT_APPLICABLE = []

# the properties that have a check
prop("C34", "The open source build converts nothing and is the same otherwise",
     "Built with the tag oss, the library returns every file byte for byte when it is asked to convert it, and never an error. Everything else, and the command line, gives the same result as the usual build.",
     ["inputs", "histories"], "all files of all formats under all names, all histories of commands",
     "The only test file with the tag oss is empty, and the tests are not run with this tag.",
     ["yaml/converter/convert_oss.go", "yaml/converter/convert.go", "main.go"],
     [("conversion that returns its input", "yaml/converter/convert_oss.go")],
     "differential testing of two builds: the library and the command built with the tag oss against the library built without",
     "random files of all formats, and random histories of commands, given to programs that are built with the tag")

HAVE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34".split()

def main():
    have = sys.argv[1:] or HAVE
    with open("properties.jsonl", "w") as f:
        for p in P:
            if p["id"] not in have:
                continue
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": NOT_APPLICABLE}
    for p in P:
        if p["id"] not in have:
            continue
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        })
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
