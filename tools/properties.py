#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json (edit the tables here, then run it)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': None,
        },
    })


V = 'Patro/FileFormat/Valentina/'
G = 'Patro/GraphicEngine/'

prop('C01', 'Identifiers and counters stay unique when threads share them',
     'Numbers taken from a shared atomic counter are unique whatever the threads which ask for them do: increments are never '
     'lost, and explicit changes of the counter, which only go up, take effect at once. Identifiers which are given '
     'automatically to objects, sketch operations among them, are unique in the process, increasing, and never equal to '
     'one which was given explicitly before. An identifier given explicitly is kept, and refused if an operation of the '
     'same pattern has it.',
     ['schedules', 'histories'],
     'every interleaving of threads at the granularity of one bytecode instruction, every mix of automatic and explicit '
     'identifiers',
     'The tests use one thread and never mix explicit and automatic identifiers; a lost update needs a preemption '
     'between two instructions.',
     ['Patro/Common/AtomicCounter.py', 'Patro/Common/Object.py', 'Patro/Pattern/SketchOperation.py',
      'Patro/Pattern/Pattern.py', 'Patro/Pattern/Sketch.py'],
     [('lock of the counter', 'Patro/Common/AtomicCounter.py'),
      ('identifier allocation', 'Patro/Common/Object.py')],
     ['AtomicCounter.increment, set, int()', 'SketchOperation.id'])

prop('C02', 'A singleton is built once and every caller gets the same object',
     'Whatever threads ask for an instance of a class declared as a singleton by its metaclass, in any order and while its '
     'constructor runs, fails or is interrupted, at most one construction succeeds and all callers get that same, '
     'completely built object; a failed construction does not prevent a later one. Classes declared as singletons by a '
     'decorator, and classes with a shared state, guarantee the same to the callers of one thread.',
     ['schedules', 'fault_sequences'],
     'every interleaving of the threads, failing and interrupted constructors',
     'No test builds a singleton from two threads, nor with a failing constructor.',
     ['Patro/Common/Singleton.py'],
     [('double checked lock', 'Patro/Common/Singleton.py')],
     ['classes using the singleton tools'])

prop('C03', 'Patterns living in one process do not disturb each other',
     'Patterns, sketches and measurement sets which are built, loaded, edited, evaluated, saved and dropped in one process, '
     'in any order, each give exactly what they give when they are alone in the process. Identifiers, points, expressions '
     'and geometry of one never appear in, or depend on, another.',
     ['histories', 'schedules'],
     'every interleaving of the steps of several users of the library in one process',
     'The tests build one pattern per process; state shared through classes or modules only shows with several.',
     ['Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Calculator.py', 'Patro/Pattern/Pattern.py', V + 'Pattern.py'],
     [('identifier counter per sketch', 'Patro/Pattern/SketchOperation.py'),
      ('calculator and dependency graph per sketch', 'Patro/Pattern/Calculator.py')],
     ['Sketch.operations', 'SketchOperation.id', 'vectors'])

prop('C04', 'A pattern survives any history of save, restart, load and edit',
     'A pattern which is saved as a Valentina pattern file and loaded by another process is the same pattern: unit, scopes, '
     'operations in order, identifiers, names, references, expressions, label offsets, line styles, colours and evaluated '
     'geometry. This holds through any sequence of sessions which load, edit and save it, whatever disk errors, crashes and '
     'power losses happen in between.',
     ['histories', 'inputs', 'crash_points', 'fault_sequences'],
     'every pattern made of the supported operations, every sequence of sessions, every injected fault',
     'The tests load one sample file and never save, reload and edit it again, nor fail any I/O.',
     [V + 'Pattern.py', V + 'VitFormat.py', 'Patro/Common/Xml/Objectivity.py', 'Patro/Pattern/SketchOperation.py'],
     [('XML attribute mapping', V + 'VitFormat.py'), ('writer', V + 'Pattern.py')],
     ['ValFileWriter', 'ValFileReader', 'Pattern.scopes', 'Sketch.operations'])

prop('C05', 'Saving over a file is atomic and durable',
     'When a document (pattern, measurements, or a SVG, LaTeX, PDF or DXF export) is saved over an existing file and the '
     'process crashes or the power is lost at any point, the file holds afterwards either the complete previous document or '
     'the complete new one. Once the save has returned, a crash or power loss cannot bring the previous document back.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every operation of a save as crash point, every state of the disk which a power loss can leave, every document',
     'A test cannot stop a save half way, nor lose what was not synced.',
     ['Patro/Common/AtomicSave.py', V + 'Pattern.py', 'Patro/Measurement/Measurement.py',
      'Patro/FileFormat/Svg/SvgFile.py', G + 'TeX/Document.py', G + 'Painter/PdfPainter.py', G + 'Painter/DxfPainter.py'],
     [('write to a temporary file, sync, replace, sync of the directory', 'Patro/Common/AtomicSave.py')],
     ['the file after a restart'])

prop('C06', 'A failed save is reported, leaves no trace and can be repeated',
     'A save which fails (disk errors, full disk, quota, missing directory, interrupt, failed allocation) raises, keeps the '
     'previous file and the other files intact, leaves no temporary file and no open file behind, and does not change the '
     'object being saved nor any other object in memory. The same call works once the failure is gone, and a save which '
     'returns has written the complete document.',
     ['fault_sequences', 'histories', 'inputs'],
     'every system call of a save failing, every line of the code interrupted, every kind of document, any sequence of saves',
     'The tests never fail a system call nor interrupt a save.',
     ['Patro/Common/AtomicSave.py', V + 'Pattern.py', 'Patro/Measurement/Measurement.py',
      'Patro/FileFormat/Svg/SvgFile.py', G + 'TeX/Document.py', G + 'Painter/PdfPainter.py', G + 'Painter/DxfPainter.py'],
     [('clean up of the temporary file', 'Patro/Common/AtomicSave.py')],
     ['exception of the save', 'directory', 'objects in memory'])

prop('C07', 'A load gives the whole document or fails',
     'Loading a pattern, measurement or SVG file gives its whole content or raises: a read error, a missing or unreadable '
     'referenced measurement file, a truncated XML file, an interrupt or a failed allocation never give a partial document. '
     'A failed load does not change what was loaded before, does not change the file and does not prevent a later load '
     'from succeeding; short reads are not failures.',
     ['fault_sequences', 'inputs', 'histories'],
     'every system call of a load failing, every truncation of a XML file, every line interrupted, any sequence of loads',
     'The tests load intact files only.',
     ['Patro/Common/Xml/XmlFile.py', V + 'Pattern.py', V + 'Measurement.py', 'Patro/FileFormat/Svg/SvgFile.py',
      'Patro/Measurement/Measurement.py'],
     [('the file is parsed before anything is built', 'Patro/Common/Xml/XmlFile.py')],
     ['ValFileReader', 'VitFile', 'SvgFileInternal', 'MeasurementSet.load_yaml'])

prop('C08', 'Measurements survive any history of save, restart, load and edit',
     'A set of measurements which is saved as YAML and loaded by another process has the same names, values, dependencies, '
     'full names and descriptions, including measurements which are defined by expressions over other ones or which miss '
     'one of them. This holds through any sequence of sessions which load, extend and save it, whatever disk errors, '
     'crashes and power losses happen in between.',
     ['histories', 'inputs', 'crash_points', 'fault_sequences'],
     'every set of measurements, every sequence of sessions, every injected fault',
     'The tests evaluate a few constant measurements and never save them.',
     ['Patro/Measurement/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py'],
     [('YAML writer and reader', 'Patro/Measurement/Measurement.py')],
     ['MeasurementSet.save_as_yaml', 'MeasurementSet.load_yaml', 'Measurement.value'])

prop('C10', 'Measurement values do not depend on the order of definitions and queries',
     'The value of a measurement is the one of its expression over the values of the others, whatever the order in which '
     'the measurements were defined, when and by which threads values were queried before, and whether a query was '
     'interrupted. A measurement whose dependencies are missing or cyclic has no value until they are defined, and does not '
     'harm the other ones.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every order of definitions and queries, every interleaving of querying threads, interrupts at every line',
     'The tests define independent measurements, in one order, and query each one once.',
     ['Patro/Measurement/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py'],
     [('lazy evaluation and substitution', 'Patro/Measurement/Measurement.py'),
      ('prefix of custom measurements', 'Patro/Measurement/ValentinaMeasurement.py')],
     ['Measurement.value', 'Measurement.evaluated_expression'])

exec(open(os.path.join(HERE, 'tools', 'properties_more.py')).read())

TECHNIQUE = {
    'C01': 'deterministic simulation: seeded bytecode-level thread scheduler, history checked against a counter model',
    'C02': 'deterministic simulation: seeded thread scheduler with failing and interrupted constructors',
    'C03': 'deterministic simulation: seeded interleaving of library users in one process against isolated models',
    'C04': 'deterministic simulation: forked sessions over a simulated disk with faults, crashes and power loss, '
           'reference model of the pattern',
    'C05': 'deterministic simulation: crash and power loss at every disk operation of a save',
    'C06': 'deterministic simulation: fault injection at system calls and source lines of saves',
    'C07': 'deterministic simulation: fault injection at system calls and source lines of loads, truncation',
    'C08': 'deterministic simulation: forked sessions over a simulated disk with faults, crashes and power loss, '
           'reference evaluator',
    'C10': 'deterministic simulation: seeded orders, threads and interrupts against a reference evaluator',
}
TECHNIQUE.update(TECHNIQUE_MORE)

NOTE = {
    'C01': 'Seeded search over thread interleavings at instruction granularity of the real code; not exhaustive. Trusts '
           'the scheduler (sys.settrace) and that C code holds the GIL.',
    'C02': 'Seeded search over interleavings, failures and interrupts; not exhaustive.',
    'C03': 'Seeded search over interleavings of users; the reference is the model of each pattern alone.',
    'C04': 'Seeded search over patterns, sessions, disk faults, crashes and power losses; the reference model has its own '
           'geometry. Trusts the disk model (ordering and durability of a POSIX file system).',
    'C05': 'Seeded search which picks the crash point among all the disk operations of a save; trusts the disk model.',
    'C06': 'Seeded search over faults at all system calls and lines of saves; readers of the files are independent.',
    'C07': 'Seeded search over faults at all system calls and lines of loads, truncations of the files.',
    'C08': 'Seeded search over sets, sessions and faults; independent evaluator in plain Python.',
    'C10': 'Seeded search over orders, interleavings and interrupts; independent evaluator in plain Python.',
}
NOTE.update(NOTE_MORE)


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(p) + '\n')
    checks = []
    for p in sorted(P, key=lambda p: p['id']):
        id = p['id']
        if id in NOT_APPLICABLE:
            continue
        source = open(os.path.join(HERE, 'checks', id.lower() + '.py')).read()
        level = source.split("LEVEL = '")[1].split("'")[0]
        checks.append({
            'property': id, 'quick_cmd': 'python3 patrosim.py check {} --tier quick'.format(id),
            'thorough_cmd': 'python3 patrosim.py check {} --tier thorough'.format(id),
            'technique': TECHNIQUE[id], 'level': level, 'level_note': NOTE[id],
        })
    manifest = {
        'version': 1, 'setup_cmd': 'python3 patrosim.py setup', 'checks': checks,
        'not_applicable': [{'property': id, 'reason': reason} for id, reason in NOT_APPLICABLE.items()],
        'notes': 'No hook in /repo is needed: the seams are the interposed system calls, sys.settrace, replaced '
                 'threading primitives, clock, entropy and hash seeds, installed by the simulator before the code under '
                 'test is imported.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(manifest, fh, indent=1)
        fh.write('\n')


main()
