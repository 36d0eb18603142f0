#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TGT = 'buildcc/lib/target/src/target/'
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, technique=None, note=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
               'why_tests_cant': why, 'anchors': a}, technique, note))

INTERP = 'interprocedural path-sensitive abstract interpretation of the clang AST (no execution, no solver)'
SCN_NOTE = ('Every path of the abstracted build is covered for an arbitrary number of sources/headers/libraries (collections are summarised by one arbitrary '
            'witness element and the rest). Trusts: the extractor, the models of std/taskflow/nlohmann/fmt listed in DESIGN.md, distinct source paths per target.')

prop('C01', 'No stale objects: any tracked compile input change recompiles',
     'If any input recorded for compiling a target (preprocessor, common, language or PCH flags, include directories, declared headers, compile dependencies, precompiled headers, or a source itself) differs from the last recorded build, or there is no usable record, then every affected source is recompiled before the build is reported successful. Dropping or adding precompiled headers counts as such a change.',
     ['inputs', 'histories', 'configurations'], 'every combination of recorded state and current inputs, every source in a target of any size, each file type, with and without PCH',
     'Tests sample a few single-flag changes with mocked commands; they do not reach every field, every file type, or removal of PCH.',
     [TGT + 'friend/compile_object.cpp', TGT + 'friend/compile_pch.cpp', TGT + 'tasks.cpp', TGT + 'build.cpp'],
     [('field-by-field comparison of recorded and current inputs', TGT + 'friend/compile_object.cpp'), ('dirty flag carried from stage to stage', TGT + 'tasks.cpp')],
     technique=INTERP + '; tracked inputs derived from the values that flow into the command line', note=SCN_NOTE)
prop('C02', 'No stale precompiled header',
     'For a target with precompiled headers, if a flag, include directory, declared header or PCH file that goes into the precompiled header differs from the last recorded build, or that step is not recorded as done, the aggregate header listing all user PCH files is regenerated and the precompile command is run before the build is reported successful.',
     ['inputs', 'histories', 'configurations'], 'every recorded state, every tracked PCH input, C and C++ targets',
     'Tests cover one flag category and a content change; the remaining inputs and recorded states are not sampled.',
     [TGT + 'friend/compile_pch.cpp', TGT + 'tasks.cpp'], [('comparison and rebuild', TGT + 'friend/compile_pch.cpp')],
     technique=INTERP + '; tracked inputs derived from the values that flow into the command line', note=SCN_NOTE)
prop('C03', 'No stale target: any object or link input change relinks all objects',
     'Whenever objects or the PCH are rebuilt, a source is removed, or a link input (link flags, library directories, libraries or their contents, external libraries, link dependencies) differs from the last recorded build, the target is relinked before the build is reported successful. The link command names the object of every source exactly where the compile command wrote it.',
     ['inputs', 'histories', 'configurations'], 'every recorded state, every tracked link input, any number of sources and libraries',
     'Tests sample single changes; the link/compile object correspondence is checked only for fixed names.',
     [TGT + 'friend/link_target.cpp', TGT + 'friend/compile_object.cpp', TGT + 'tasks.cpp'], [('comparison and relink', TGT + 'friend/link_target.cpp')],
     technique=INTERP + '; tracked inputs derived from the values that flow into the command line', note=SCN_NOTE)
prop('C04', 'Incremental rebuild compiles exactly the changed sources',
     'When the only difference from the last recorded build is that some sources were added, updated or removed, exactly the added and updated sources are compiled (each once, with its own input and object path), unchanged sources and the precompiled header are not rebuilt, and the target is relinked.',
     ['inputs', 'histories'], 'every set of recorded and current sources with distinct paths, any position of the changed one',
     'Tests use one or two sources; the guarantee is per element of an arbitrary set.',
     [TGT + 'friend/compile_object.cpp', TGT + 'tasks.cpp'], [('set difference of recorded and current sources', TGT + 'friend/compile_object.cpp')],
     technique=INTERP + '; loops summarised over a witness element and the rest', note=SCN_NOTE)
prop('C05', 'Null build: unchanged inputs run no command and write nothing',
     'If every input equals the last recorded build and that build recorded all its steps as done, building again runs no compile, precompile or link command, writes no file, and reports success, whatever lists are empty and with or without precompiled headers.',
     ['inputs', 'histories', 'configurations'], 'every target shape (each list empty or not), with/without PCH and sources',
     'Tests rebuild a handful of fixed targets.',
     [TGT + 'friend/compile_object.cpp', TGT + 'friend/compile_pch.cpp', TGT + 'friend/link_target.cpp', TGT + 'tasks.cpp'], [('dirty flag', TGT + 'tasks.cpp')],
     technique=INTERP, note=SCN_NOTE)
prop('C06', 'A failed or skipped step is never recorded as done',
     'Whatever step of a build fails (precompile, any compile, link, a missing input file), the record that is saved lists a source only if it was compiled successfully under the recorded inputs, marks the precompiled header as done only if it was built, and marks the target as linked only if the link succeeded; so the next build redoes everything that failed.',
     ['fault_sequences', 'histories', 'inputs'], 'every failing step, from every starting state, for an arbitrary failing source among any number',
     'Tests inject one failure in a few fixed situations and do not inspect the record for the rest.',
     [TGT + 'tasks.cpp', 'buildcc/schema/src/target_serialization.cpp', TGT + 'friend/link_target.cpp'],
     [('progress merged into the stored record', 'buildcc/schema/src/target_serialization.cpp'), ('record saved at the end of the task graph', TGT + 'tasks.cpp')],
     technique=INTERP + '; fault enumeration over abstract steps, saved record decoded through the serialiser', note=SCN_NOTE)
prop('C07', 'Any failing step makes the whole run fail and stops later steps',
     'If any step of a target fails - a command returns failure, an input file cannot be fingerprinted, a file cannot be saved, an exception is thrown - the run is reported as failed, no exception escapes into the task scheduler and the process is not ended from a worker. Steps that depend on the failed one, and targets that start after a failure, run no command, and the failure is never reset to success.',
     ['fault_sequences', 'schedules', 'inputs'], 'every failing step from every starting state',
     'Tests mock a few failures with expectations on mocks rather than the whole graph.',
     [TGT + 'tasks.cpp', 'buildcc/lib/env/src/task_state.cpp', 'buildcc/lib/env/src/assert_fatal.cpp'], [('catch-all in every task and shared failure state', TGT + 'tasks.cpp')],
     technique=INTERP + '; exception-flow and typestate of the run state', note=SCN_NOTE)
prop('C08', 'Build stages are ordered for every schedule',
     'Under every schedule the precompile step finishes before any compile starts, every compile finishes before the link starts, and the link finishes before the build record is saved. No stage runs outside the task graph, none is detached from it, and no task uses a local variable that no longer exists when it runs.',
     ['schedules'], 'every interleaving the task graph admits, any number of sources',
     'A test run observes one schedule.',
     [TGT + 'tasks.cpp', TGT + 'build.cpp'], [('task graph edges', TGT + 'tasks.cpp')],
     technique=INTERP + '; reachability over the extracted task graph, escape analysis of task captures', note=SCN_NOTE)
prop('C11', 'The saved record equals what the build used; unsaved means failed',
     'After any command has run successfully the build record is saved, and it holds the flags, directories and libraries used and, for files, the fingerprints compared in this build; a successful build records every source and every step as done, and a failed one keeps the sources that did compile. If the record cannot be saved the run is reported as failed.',
     ['histories', 'fault_sequences', 'inputs'], 'every starting state and failing step, every field of the record',
     'Tests look at a few fields after a few builds.',
     ['buildcc/schema/src/target_serialization.cpp', TGT + 'tasks.cpp'], [('store update', 'buildcc/schema/src/target_serialization.cpp')],
     technique=INTERP + '; saved record decoded through the serialiser', note=SCN_NOTE)

exec(open(os.path.join(HERE, 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'meta2.py')) else None
NA = globals().get('NA', [])

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, t, n in sorted(P, key=lambda x: x[0]['id']):
            f.write(json.dumps(p, sort_keys=False) + '\n')
    claimed = [(p, t or INTERP, n) for p, t, n in sorted(P, key=lambda x: x[0]['id']) if p['id'] not in {a for a, r in NA}]
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t, 'level': 'other', 'level_note': n} for p, t, n in claimed],
         'not_applicable': [{'property': a, 'reason': r} for a, r in NA],
         'notes': 'Static analysis only: tool/extract.cpp (clang LibTooling) turns every translation unit of /repo into resolved facts; analysis/*.py interprets them abstractly. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
